package main

import (
	. "verifmc/ref"
)

// genData is the data that generated expressions read
func genData() Data {
	return Data{
		"i": int64(9), "j": int64(-4), "k": int64(3),
		"f": 2.5, "g": -0.75,
		"s": "ab", "t": "cé", "e": "",
		"b": true, "z": false, "nn": nil,
		"a":  A(int64(4), int64(0), int64(-6)),
		"as": A("p", "q"),
		"ao": A(O("n", int64(2)), O("n", int64(5))),
		"aa": A(A(int64(1)), A(int64(2), int64(3))),
		"o":  O("n", int64(11), "f", 1.5, "s", "os", "b", true, "z", false, "a", A(int64(1), int64(20)), "o", O("n", int64(8), "s", "x", "a", A(int64(5)))),
	}
}

// tgen enumerates type-directed expressions with an exact number of operators
type tgen struct {
	c    *C
	leaf int
	pal  int
	rich bool // more productions
}

type prod struct {
	n   int // operators that the production itself uses
	fix []string
	mk  func(x []Expr) Expr
}

var intBin = []string{"+", "-", "*", "/", "%"}

func un(op string) func(x []Expr) Expr   { return func(x []Expr) Expr { return Un{op, x[0]} } }
func post(op string) func(x []Expr) Expr { return func(x []Expr) Expr { return Post{op, x[0]} } }
func bin(op string) func(x []Expr) Expr  { return func(x []Expr) Expr { return Bin{op, x[0], x[1]} } }
func tern(x []Expr) Expr                 { return Tern{x[0], x[1], x[2]} }
func idx(x []Expr) Expr                  { return Idx{x[0], x[1]} }
func dot(n string) func(x []Expr) Expr   { return func(x []Expr) Expr { return Dot{x[0], n} } }
func idxs(n string) func(x []Expr) Expr  { return func(x []Expr) Expr { return Idx{x[0], Lit{n}} } }
func call(n string) func(x []Expr) Expr  { return func(x []Expr) Expr { return Call{x[0], n, x[1:]} } }

var prods = map[string][]prod{}

func init() {
	add := func(t string, mk func([]Expr) Expr, fix ...string) {
		prods[t] = append(prods[t], prod{1, fix, mk})
	}
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		add("int", bin(op), "int", "int")
	}
	for _, op := range []string{"+", "-", "*", "/"} {
		add("float", bin(op), "float", "float")
	}
	add("str", bin("+"), "str", "str")
	for _, op := range []string{"==", "!=", "<", ">", "<=", ">="} {
		add("bool", bin(op), "int", "int")
	}
	for _, op := range []string{"==", "<", ">="} {
		add("bool", bin(op), "float", "float")
	}
	add("bool", bin("=="), "str", "str")
	add("bool", bin("!="), "str", "str")
	add("bool", un("!"), "bool")
	add("int", un("-"), "int")
	add("float", un("-"), "float")
	for _, op := range []string{"++", "--"} {
		add("int", post(op), "int")
		add("float", post(op), "float")
	}
	for _, t := range []string{"int", "float", "str", "bool", "arr", "obj"} {
		add(t, tern, "bool", t, t)
	}
	add("int", idx, "arr", "int")
	add("int", dot("n"), "obj")
	add("int", idxs("n"), "obj")
	add("float", dot("f"), "obj")
	add("str", dot("s"), "obj")
	add("bool", dot("b"), "obj")
	add("arr", dot("a"), "obj")
	add("obj", dot("o"), "obj")
	add("int", call("len"), "str")
	add("int", call("len"), "arr")
	add("int", call("abs"), "int")
	add("int", call("floor"), "float")
	add("float", call("float"), "int")
	add("str", call("str"), "int")
	add("str", call("upper"), "str")
	add("str", call("repeat"), "str", "int")
	add("bool", call("contains"), "arr", "int")
	add("arr", call("append"), "arr", "int")
	add("arr", func(x []Expr) Expr { return ArrL{x} }, "int", "int")
	add("obj", func(x []Expr) Expr {
		return ObjL{[]string{"n", "s"}, x}
	}, "int", "str")
}

var leaves = map[string][][]Expr{
	"int":   {{Lit{int64(7)}, Lit{int64(2)}, Lit{int64(3)}, Lit{int64(5)}, Lit{int64(1)}}, {Var{"i"}, Lit{int64(2)}, Var{"j"}, Lit{int64(0)}, Var{"k"}}},
	"float": {{Lit{2.5}, Lit{0.5}, Lit{1.25}, Lit{4.0}}, {Var{"f"}, Var{"g"}, Lit{1.5}}},
	"str":   {{Lit{"ab"}, Lit{"c"}, Lit{"é"}}, {Var{"s"}, Var{"t"}, Lit{""}}},
	"bool":  {{Lit{true}, Lit{false}}, {Var{"z"}, Var{"b"}}},
	"arr":   {{ArrL{[]Expr{Lit{int64(3)}, Lit{int64(9)}, Lit{int64(6)}}}, Var{"a"}}, {Var{"a"}, ArrL{nil}}},
	"obj":   {{Var{"o"}}, {Var{"o"}, Dot{Var{"o"}, "o"}}},
}

var allTypes = []string{"int", "float", "str", "bool", "arr", "obj"}

// gen yields every expression of the type with exactly n operators
func (g *tgen) gen(t string, n int) Expr {
	if n == 0 {
		l := leaves[t][g.pal]
		g.leaf++
		return l[(g.leaf-1)%len(l)]
	}
	ps := prods[t]
	p := ps[g.c.Choose(len(ps))]
	// distribute the remaining operators over the children
	rest := n - 1
	var x []Expr
	for i, ct := range p.fix {
		k := rest
		if i < len(p.fix)-1 {
			k = g.c.Choose(rest + 1)
		}
		rest -= k
		x = append(x, g.gen(ct, k))
	}
	return p.mk(x)
}
