package main

import (
	"fmt"
	"math"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
)

// nv is a Go value together with what a template sees of it
type nv struct {
	name string
	g    any
	v    Value
	bad  bool // unsupported: the call has to fail
}

type s09 struct {
	Name string
	N    int
	Ptr  *int
	Any  any
	In   struct{ X []string }
	priv chan int
}

type selfPtr *selfPtr
type selfMap map[string]selfMap
type selfSlice []selfSlice
type selfStruct struct {
	A int
	P *selfStruct
}

func goodValues() []nv {
	one := 1
	p := &one
	pp := &p
	str := "pé"
	var np *int
	var nps *s09
	var ns []int
	var nm map[string]int
	var na any
	var nerr error
	m := func(n string, v Value) nv { return nv{n, ToGo(v), v, false} }
	st := O("Name", "x", "N", int64(2), "Ptr", nil, "Any", nil, "In", O("X", A()))
	return []nv{
		m("nil", nil), m("true", true), m("false", false),
		m("0", int64(0)), m("1", int64(1)), m("-1", int64(-1)), m("2", int64(2)), m("7", int64(7)), m("minint", int64(math.MinInt64)), m("maxint", int64(math.MaxInt64)), m("2^32", int64(1)<<32),
		m("0.0", 0.0), m("1.5", 1.5), m("-2.25", -2.25), m("NaN", math.NaN()), m("Inf", math.Inf(1)), m("-Inf", math.Inf(-1)), m("-0.0", math.Copysign(0, -1)), m("maxfloat", math.MaxFloat64), m("tiny", 5e-324),
		m("empty", ""), m("a", "a"), m("12", "12"), m("é", "é日"), m("bytes", "\xff\xfe"), m("verbs", "%d%s%!"), m("blank", " \n"), m("nul", "a\x00b"),
		m("[]", A()), m("[1]", A(int64(1))), m("[nil]", A(nil)), m("[[1] x]", A(A(int64(1)), "x")), m("[{a}]", A(O("a", int64(1)))),
		m("{}", O()), m("{a:1}", O("a", int64(1))), m("{'':1}", O("", int64(1))), m("{a:{b:nil}}", O("a", O("b", nil))), m("{Éa:1}", O("Éa", "v", "1", int64(2))),
		{"struct", s09{Name: "x", N: 2}, st, false}, {"*struct", &s09{Name: "x", N: 2}, st, false}, {"**int", pp, int64(1), false}, {"*string", &str, str, false},
		{"nil *int", np, nil, false}, {"nil *struct", nps, nil, false}, {"nil slice", ns, A(), false}, {"nil map", nm, O(), false}, {"nil any", na, nil, false}, {"nil error", nerr, nil, false},
		{"methods", meth12{3, "b"}, O("A", int64(3)), false}, {"nil with methods", (*pmeth12)(nil), nil, false}, {"nil error pointer", error((*pmeth12)(nil)), nil, false}, {"error pointer", error(&pmeth12{1}), O("A", int64(1)), false},
		{"[]*int", []*int{p, nil}, A(int64(1), nil), false}, {"map *int", map[string]*int{"a": nil}, O("a", nil), false}, {"[]any", []any{nil, np, 1}, A(nil, nil, int64(1)), false},
	}
}

func badValues() []nv {
	var sp selfPtr
	sp = &sp
	sm := selfMap{}
	sm["a"] = sm
	ss := selfSlice{nil}
	ss[0] = ss
	sst := &selfStruct{}
	sst.P = sst
	anyself := []any{nil}
	anyself[0] = anyself
	ch := make(chan int)
	f := func() {}
	var nilf func()
	var nilch chan int
	var u uintptr = 3
	c64 := complex(1, 2)
	arr := [2]int{1, 2}
	b := func(n string, g any) nv { return nv{n, g, nil, true} }
	return []nv{b("chan", ch), b("nil chan", nilch), b("func", f), b("nil func", nilf), b("complex", c64), b("complex64", complex64(c64)), b("map[int]", map[int]int{1: 2}), b("map[bool]", map[bool]string{}), b("map[any]", map[any]any{"a": 1}),
		b("[2]int", arr), b("[0]string", [0]string{}), b("uintptr", u), b("*chan", &ch), b("*func", &f), b("*array", &arr), b("**complex", func() any { p := &c64; return &p }()),
		b("cyclic pointer", sp), b("cyclic map", sm), b("cyclic slice", ss), b("cyclic struct", sst), b("cyclic []any", anyself), b("error chan field", struct{ C chan int }{ch})}
}

type dataField struct{ F any }

var dataWraps = []struct {
	name string
	mk   func(v any) any
}{
	{"", func(v any) any { return v }},
	{"[]any", func(v any) any { return []any{1, v} }},
	{"map", func(v any) any { return map[string]any{"a": 1, "k": v} }},
	{"struct", func(v any) any { return dataField{v} }},
	{"pointer", func(v any) any { return &v }},
	{"[]struct", func(v any) any { return []dataField{{1}, {v}} }},
	{"*struct", func(v any) any { return &dataField{v} }},
	{"map of slice", func(v any) any { return map[string][]any{"k": {v}} }},
}

// what the custom functions of C09 receive and return
var seen09, give09 []any

const lead09 = "x\n\ty\n"

// noCrash renders a source whose only construct that may fail is on the given
// line; a panic or a hang is reported by the engine.
func (c *C) noCrash(src string, data map[string]any, line int, descr string) out {
	c.Begin(fmt.Sprintf("%q with %s", src, descr))
	o := evalString(src, data)
	c.errorForm(o, line)
	return o
}

func (c *C) errorForm(o out, line int) {
	if o.Err == nil {
		return
	}
	if o.S != "" {
		c.Fail("returned output %q together with an error", cut(o.S))
	}
	_, l, msg, ok := errParts(o.Err)
	if !ok || msg == "" {
		c.Fail("error %q is not of the usual form", o.Err)
		return
	}
	if line > 0 && l != line {
		c.Fail("error %q reports line %d, the construct is on line %d", o.Err, l, line)
	}
}

// agree compares with the model and checks the line
func (c *C) agree(l []Stmt, data map[string]Value, gdata map[string]any, line int, descr string) {
	src := Default.List(l)
	o := c.noCrash(src, gdata, line, descr)
	c.expect(o, Render(nil, l, data, nil))
}

var binOps = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">="}

func init() {
	good := goodValues()
	bad := badValues()
	v := Var{"v"}
	w := Var{"w"}

	// every use of one or two values
	unary := []func(x Expr) Stmt{
		func(x Expr) Stmt { return Print1{x} },
		func(x Expr) Stmt { return Print1{Un{"-", x}} },
		func(x Expr) Stmt { return Print1{Un{"!", x}} },
		func(x Expr) Stmt { return Print1{Un{"-", Un{"-", x}}} },
		func(x Expr) Stmt { return Print1{Un{"!", Un{"-", x}}} },
		func(x Expr) Stmt { return Print1{Post{"++", x}} },
		func(x Expr) Stmt { return Print1{Post{"--", x}} },
		func(x Expr) Stmt { return Print1{Dot{x, "a"}} },
		func(x Expr) Stmt { return Print1{Dot{x, "name"}} },
		func(x Expr) Stmt { return Print1{Dot{x, "éa"}} },
		func(x Expr) Stmt { return Print1{Dot{Dot{x, "a"}, "b"}} },
		func(x Expr) Stmt { return Print1{Dot{Dot{Dot{x, "a"}, "b"}, "c"}} },
		func(x Expr) Stmt { return Print1{Idx{x, Lit{"a"}}} },
		func(x Expr) Stmt { return Print1{Idx{x, Lit{""}}} },
		func(x Expr) Stmt { return Print1{Idx{x, Lit{"éa"}}} },
		func(x Expr) Stmt { return Print1{Idx{Idx{x, Lit{int64(0)}}, Lit{int64(0)}}} },
		func(x Expr) Stmt { return Print1{Dot{Idx{x, Lit{int64(0)}}, "a"}} },
		func(x Expr) Stmt { return Print1{Idx{x, x}} },
		func(x Expr) Stmt { return Print1{Idx{ArrL{[]Expr{Lit{int64(5)}}}, x}} },
		func(x Expr) Stmt { return Print1{Idx{ObjL{[]string{"a"}, []Expr{Lit{int64(5)}}}, x}} },
		func(x Expr) Stmt { return Print1{Tern{x, Lit{int64(1)}, Lit{"z"}}} },
		func(x Expr) Stmt { return Print1{Tern{Lit{true}, Par{x}, Var{"undef"}}} },
		func(x Expr) Stmt { return Print1{ArrL{[]Expr{x, ArrL{[]Expr{x}}}}} },
		func(x Expr) Stmt { return Print1{ObjL{[]string{"k"}, []Expr{x}}} },
		func(x Expr) Stmt { return Print1{Idx{ObjL{[]string{"k"}, []Expr{x}}, Lit{"k"}}} },
		func(x Expr) Stmt { return Print1{Call{x, "nope", nil}} },
		func(x Expr) Stmt { return Print1{Call{x, "len", nil}} },
		func(x Expr) Stmt { return Print1{Call{Lit{"a"}, "nope", []Expr{x}}} },
		func(x Expr) Stmt { return Assign{"q", x} },
		func(x Expr) Stmt { return Assign{"n", x} }, // n is an integer
		func(x Expr) Stmt { return Assign{"v", Lit{int64(1)}} },
		func(x Expr) Stmt { return Assign{"loop", x} },
		func(x Expr) Stmt { return Braces{[]Stmt{Assign{"q", x}, Assign{"q", x}, Print1{Var{"q"}}}} },
		func(x Expr) Stmt {
			return If{C: []Expr{x}, B: [][]Stmt{{Text{"T"}}}, Else: []Stmt{Text{"E"}}, Has: true}
		},
		func(x Expr) Stmt { return If{C: []Expr{Lit{false}, x}, B: [][]Stmt{{Text{"N"}}, {Text{"T"}}}} },
		func(x Expr) Stmt {
			return Each{V: "e", A: x, B: []Stmt{Print1{Var{"e"}}, Print1{Dot{Var{"loop"}, "iter"}}}}
		},
		func(x Expr) Stmt { return Each{V: "e", A: x, B: []Stmt{Text{"."}}, Else: []Stmt{Text{"E"}}, Has: true} },
		func(x Expr) Stmt { return Each{V: "n", A: x, B: []Stmt{Print1{Var{"n"}}}} },
		func(x Expr) Stmt { return Each{V: "loop", A: x, B: []Stmt{Text{"."}}} },
		func(x Expr) Stmt { return Each{V: "v", A: x, B: []Stmt{Print1{Var{"v"}}}} },
		func(x Expr) Stmt { return Each{V: "e", A: ArrL{[]Expr{Lit{int64(1)}, x}}, B: []Stmt{Print1{Var{"e"}}}} },
		func(x Expr) Stmt {
			return Each{V: "e", A: ArrL{[]Expr{Lit{int64(1)}}}, B: []Stmt{BreakIf{x}, Text{"."}}}
		},
		func(x Expr) Stmt {
			return Each{V: "e", A: ArrL{[]Expr{Lit{int64(1)}}}, B: []Stmt{ContinueIf{x}, Text{"."}}}
		},
		func(x Expr) Stmt {
			return For{Init: Assign{"i", x}, C: Bin{"<", Var{"i"}, Lit{int64(2)}}, Post: Assign{"i", Lit{int64(9)}}, B: []Stmt{Text{"."}}}
		},
		func(x Expr) Stmt {
			return For{Init: Assign{"i", Lit{int64(0)}}, C: x, Post: Print1{Post{"++", Var{"i"}}}, B: []Stmt{Text{"."}, Break{}}}
		},
		func(x Expr) Stmt {
			return For{Init: Assign{"i", Lit{int64(0)}}, C: Bin{"<", Var{"i"}, Lit{int64(2)}}, Post: Assign{"i", x}, B: []Stmt{Text{"."}, Assign{"n", Bin{"+", Var{"n"}, Lit{int64(1)}}}, BreakIf{Bin{">", Var{"n"}, Lit{int64(9)}}}}}
		},
		func(x Expr) Stmt { return Print1{x} },
	}
	binary := []func(x, y Expr) Expr{
		func(x, y Expr) Expr { return Idx{x, y} },
		func(x, y Expr) Expr { return Tern{x, y, Lit{int64(1)}} },
		func(x, y Expr) Expr { return ArrL{[]Expr{x, y}} },
		func(x, y Expr) Expr { return Bin{"+", Par{Bin{"+", x, y}}, x} },
		func(x, y Expr) Expr { return Un{"!", Par{Bin{"==", x, y}}} },
		func(x, y Expr) Expr { return Call{ArrL{[]Expr{x, y}}, "contains", []Expr{x}} },
		func(x, y Expr) Expr { return Call{ArrL{[]Expr{x}}, "contains", []Expr{y}} },
		func(x, y Expr) Expr { return Call{x, "contains", []Expr{y}} },
		func(x, y Expr) Expr { return Post{"++", Par{Bin{"*", x, y}}} },
	}

	// loop headers with any clause missing
	inits := []string{"", "i = 0", "i = 'a'", "i = nil", "i = []", "i = v", "loop = 1", "5", "i", "undef", "n++"}
	conds := []string{"", "true", "i < 2", "i", "'x'", "nil", "v", "v.a", "undef", "i % 0", "n < 3", "[]", "i = 1"}
	posts := []string{"", "i++", "i--", "i = i + 1", "5", "'x'", "nil", "n++", "v.a", "undef", "i = 'z'", "i++ + 1", "v", "loop = 1"}
	forBodies := []string{".{{ n = n + 1 }}@breakIf(n > 4)", "@break", ".@break@continue", "{{ v }}{{ n = n + 1 }}@breakIf(n > 2)", "@continueIf(n > 99){{ n++ }}{{ n = n + 1 }}@breakIf(n > 3)@each(i in [1])@continue@end"}
	forTails := []string{"", "@else E", "@else{{ i }}"}

	names := func() []string {
		seen := map[string]bool{}
		var r []string
		for _, t := range []string{"str", "arr", "int", "float", "bool"} {
			for _, n := range BuiltinNames[t] {
				if !seen[n] {
					seen[n] = true
					r = append(r, n)
				}
			}
		}
		return append(r, "nope", "Len", "é")
	}()
	argv := []nv{}
	for _, g := range good {
		argv = append(argv, g)
	}
	for _, n := range []int64{3, 4, -2, -3, math.MinInt64 + 1, math.MaxInt64 - 1, math.MaxInt32, math.MinInt32, 1 << 26, 1<<26 + 1, 1 << 62, -1 << 62} {
		argv = append(argv, nv{fmt.Sprint(n), n, n, false})
	}
	var fewArgs []nv
	for i := 1; i < len(argv); i += 3 {
		fewArgs = append(fewArgs, argv[i])
	}
	isCount := func(a nv) bool { n, ok := a.v.(int64); return ok && n == 1<<26 }

	exprFrags := []string{"v", "a", "s", "1", "0", "2.5", "'x'", "nil", "true", "+", "-", "*", "/", "%", "==", "<", "!", "++", "?", ":", "(", ")", "[", "]", "{", "}", ",", ".", ";", "=", "len", "at"}
	exprData := map[string]any{"v": map[string]any{"a": 1, "s": "t", "len": []int{1}}, "a": []any{1, "b", nil}, "s": "é"}
	stmtFrags := []string{"t", "{{ b }}", "{{ b = 1 }}", "@if(b)", "@else", "@elseif(v)", "@end", "@each(x in a)", "@each(x in v)", "@for(i = 0; i < 2; i++)", "@for(;;)", "@break", "@continue", "@breakIf(b)", "@continueIf(v.a)", "@slot('a')", "@slot", "@component('c')", "@component('c', {b})", "@insert('a', b)", "@insert('a')", "@reserve('a')", "@use('l')", "@dump(b, x)", "{{ loop.index }}", "{{ x.y }}"}
	stmtData := map[string]any{"b": true, "v": map[string]any{"a": nil}, "a": []any{1, "b"}}

	register(&Check{ID: "C09", Assumptions: []string{
		"a panic anywhere below the entry points is caught by the explorer; a case that uses more than 8 s of CPU time or 3 GB counts as a hang",
		"errors raised while the data is converted carry no line (there is no construct); all others are compared with the line of the only construct that can fail",
		"bounded loops only: loop conditions that stay true for ever are the program's own",
	}, Families: []Family{
		{Name: "one-value", Space: "47 uses of a value (unary and postfix operators, properties, indexes, calls, assignments, every directive argument) x 55 values of every kind (boundary integers, NaN, infinities, invalid UTF-8, nil pointers, structs) x {variable, element, property, function argument}; compared with the model, the construct on line 3 or after CRLF lines", Run: func(c *C) {
			x := good[c.Choose(len(good))]
			k := c.Choose(len(unary))
			use := unary[k]
			data := map[string]Value{"v": x.v, "n": int64(7)}
			gd := map[string]any{"v": x.g, "n": 7}
			var e Expr = v
			lead := lead09
			switch c.Choose(3) {
			case 1:
				data["h"], gd["h"] = A(int64(1), x.v), []any{1, x.g}
				e = Idx{Var{"h"}, Lit{int64(1)}}
			case 2:
				data["h"], gd["h"] = O("deep", x.v), map[string]any{"deep": x.g}
				e = Dot{Var{"h"}, "deep"}
				lead = "\r\n\r\n"
			}
			c.agree([]Stmt{Text{lead}, use(e), Text{"!\n"}}, data, gd, 3, "v="+x.name)
		}},
		{Name: "two-values", Space: "every infix operator and 9 more two-operand forms x all ordered pairs of the 55 values x {variables, literals in an array}; compared with the model", Run: func(c *C) {
			x, y := good[c.Choose(len(good))], good[c.Choose(len(good))]
			k := c.Choose(len(binOps) + len(binary))
			var e Expr
			if k < len(binOps) {
				e = Bin{binOps[k], v, w}
			} else {
				e = binary[k-len(binOps)](v, w)
			}
			c.agree([]Stmt{Text{lead09}, Print1{e}, Text{"!"}}, map[string]Value{"v": x.v, "w": y.v}, map[string]any{"v": x.g, "w": y.g}, 3, "v="+x.name+" w="+y.name)
		}},
		{Name: "calls", Space: "every built-in name (and 3 unknown names) x 55 receivers x all argument tuples up to length 2 over 67 values with boundary counts (quick: 21 as the second); output or an error with the line", Run: func(c *C) {
			r := good[c.Choose(len(good))]
			n := names[c.Choose(len(names))]
			k := c.Choose(3)
			gd := map[string]any{"v": r.g}
			d := "v=" + r.name
			var as []string
			for i := 0; i < k; i++ {
				l := argv
				if i == 1 && !c.Thorough {
					l = fewArgs
				}
				a := l[c.Choose(len(l))]
				if isCount(a) && r.name != "a" && i == 0 {
					c.Skip() // 64 MB strings once only
				}
				an := string(rune('p' + i))
				gd[an] = a.g
				as = append(as, an)
				d += " " + an + "=" + a.name
			}
			known := false
			for _, t := range BuiltinNames[TypeOf(r.v)] {
				known = known || t == n
			}
			o := c.noCrash(lead09+"{{ v."+n+"("+strings.Join(as, ", ")+") }}", gd, 3, d)
			if !known && o.Err == nil {
				c.Fail("%s does not exist for %s, yet %q was rendered", n, r.name, cut(o.S))
			}
			if o.Err != nil {
				c.Note("error")
			} else {
				c.Note("value")
			}
		}},
		{Name: "calls-3", ThoroughOnly: true, Space: "every built-in name x 20 receivers x all argument triples over 24 values", Run: func(c *C) {
			r := good[c.Choose(len(good)/2)*2]
			n := names[c.Choose(len(names))]
			gd := map[string]any{"v": r.g}
			d := "v=" + r.name
			for i := 0; i < 3; i++ {
				a := argv[c.Choose(len(argv)/3)*3]
				if isCount(a) {
					c.Skip()
				}
				an := string(rune('p' + i))
				gd[an] = a.g
				d += " " + an + "=" + a.name
			}
			c.noCrash(lead09+"{{ v."+n+"(p, q, r) }}", gd, 3, d)
		}},
		{Name: "for-headers", Space: "all combinations of 11 init x 13 condition x 14 post clauses (absent, of the wrong kind, undefined, reserved) x 5 bounded bodies x 3 @else parts x 4 values of v", Run: func(c *C) {
			i, cd, p := inits[c.Choose(len(inits))], conds[c.Choose(len(conds))], posts[c.Choose(len(posts))]
			b := forBodies[c.Choose(len(forBodies))]
			t := forTails[c.Choose(len(forTails))]
			x := good[[]int{0, 4, 20, 34}[c.Choose(4)]]
			src := lead09 + "@for(" + i + ";" + cd + ";" + p + ")" + b + t + "@end"
			o := c.noCrash(src, map[string]any{"v": x.g, "n": 0}, 3, "v="+x.name)
			if o.Err == nil && cd == "" {
				c.Fail("a loop without a condition rendered %q", cut(o.S))
			}
		}},
		{Name: "expressions", Space: "all token sequences up to length 4 (thorough: 5 over 20 tokens) over 32 expression tokens inside {{ }}: output or an error with a line", Run: func(c *C) {
			k := 1 + c.Choose(4)
			fr := exprFrags
			src := ""
			for i := 0; i < k; i++ {
				src += fr[c.Choose(len(fr))] + " "
			}
			c.noCrash(lead09+"{{ "+src+"}}", exprData, 0, "fixed data")
		}},
		{Name: "expressions-5", ThoroughOnly: true, Space: "all token sequences of length 5 over 20 expression tokens inside {{ }}", Run: func(c *C) {
			fr := []string{"v", "a", "1", "0.5", "'x'", "nil", "+", "%", "<", "!", "++", "?", ":", "(", ")", "[", "]", ".", ",", "len"}
			src := ""
			for i := 0; i < 5; i++ {
				src += fr[c.Choose(len(fr))] + " "
			}
			c.noCrash(lead09+"{{ "+src+"}}", exprData, 0, "fixed data")
		}},
		{Name: "statements", Space: "all sequences of up to 4 out of 26 statement fragments (blocks, branches, loop controls, slots, components, inserts, reserves anywhere), closed by 0, 1 or 2 @end", Run: func(c *C) {
			k := 1 + c.Choose(4)
			src := ""
			for i := 0; i < k; i++ {
				src += stmtFrags[c.Choose(len(stmtFrags))]
			}
			if k == 4 {
				src += "@end"
			} else {
				src += strings.Repeat("@end", c.Choose(3))
			}
			c.noCrash(lead09+src, stmtData, 0, "fixed data")
		}},
		{Name: "file-statements", Space: fmt.Sprintf("all sequences of up to 3 (thorough: 4) out of %d fragments (blocks, uses, inserts, reserves, components, slots in any order and nesting), closed by 0..3 @end, as the page, and up to 2 (thorough: 3) as the layout or the component of a page; every name rendered twice: an error or output", len(fileFrags09)), Run: func(c *C) {
			role := c.Choose(3)
			max := 2
			if c.Thorough {
				max++
			}
			if role == 0 {
				max++
			}
			src := ""
			for i := 1 + c.Choose(max); i > 0; i-- {
				src += fileFrags09[c.Choose(len(fileFrags09))]
			}
			src += strings.Repeat("@end", c.Choose(4))
			files := map[string]string{"l": "<@reserve('r')|@reserve('s')>", "c": "[@slot|@slot('s')]{{ n }}", "p": "@use('l')@insert('r')@component('c')@slot x@end@slot('s')y@end@end@end"}
			files[[]string{"p", "l", "c"}[role]] = src
			c.Begin(showFiles(files))
			t, err := c.load(files)
			if err != nil {
				c.Note("refused")
				return
			}
			for _, n := range []string{"p", "l", "c", "p"} {
				o := render(t, n, map[string]any{"n": 3, "t": true, "xs": []int{1, 2}})
				c.Traces(1)
				c.errorForm(o, 0)
				if o.Err == nil {
					c.Note("rendered")
				}
			}
		}},
		{Name: "untyped-trees", Space: "all expressions with up to 2 operators out of 27 productions over 13 leaves of every kind (quick: 7 with two operators); compared with the model", Run: func(c *C) {
			n := c.Choose(3)
			g := &ugen{c: c, leaves: 13}
			if n == 2 && !c.Thorough {
				g.leaves = 7
			}
			e := g.gen(n)
			d := uData()
			c.agree([]Stmt{Text{lead09}, Print1{e}}, d, GoMap(d), 3, "fixed data")
		}},
		{Name: "untyped-trees-3", ThoroughOnly: true, Space: "all expressions with 3 operators out of 27 productions over 5 leaves", Run: func(c *C) {
			g := &ugen{c: c, leaves: 5}
			e := g.gen(3)
			d := uData()
			c.agree([]Stmt{Text{lead09}, Print1{e}}, d, GoMap(d), 3, "fixed data")
		}},
		{Name: "unsupported-data", Space: "22 unsupported or cyclic values x wrappers nested up to depth 3 x {used, unused} x {EvaluateString, Template.String}: always an error; the same wrappers around 55 supported values render", Run: func(c *C) {
			k := c.Choose(len(bad) + len(good))
			x := append(append([]nv(nil), bad...), good...)[k]
			g, d := x.g, x.name
			depth := c.Choose(4)
			for i := 0; i < depth; i++ {
				wr := dataWraps[1+c.Choose(len(dataWraps)-1)]
				g = wr.mk(g)
				d = wr.name + " of " + d
			}
			src := []string{"plain", "{{ v }}", "@if(v)x@end"}[c.Choose(3)]
			data := map[string]any{"v": g, "ok": 1}
			c.Begin(fmt.Sprintf("%q with v=%s", src, d))
			o := evalString(src, data)
			c.errorForm(o, 0)
			c.badData(o, x)
			if src == "plain" {
				c.Traces(1)
				t, err := c.load(map[string]string{"p": "plain"})
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				o := render(t, "p", data)
				c.errorForm(o, 0)
				c.badData(o, x)
			}
		}},
		{Name: "data-keys", Space: "data maps whose keys are reserved, empty, not identifiers, long or not UTF-8; nil and empty maps", Run: func(c *C) {
			keys := []string{"", " ", "loop", "a b", "é", "\xff", "for", "nil", "true", "1", "%s", strings.Repeat("k", 100000)}
			k := keys[c.Choose(len(keys))]
			x := good[c.Choose(len(good))]
			src := []string{"t", "{{ 1 }}", "@each(e in [1]){{ loop.index }}@end"}[c.Choose(3)]
			c.Begin(fmt.Sprintf("%q with %q=%s", src, cut(k), x.name))
			o := evalString(src, map[string]any{k: x.g})
			c.errorForm(o, 0)
			if k == "loop" && o.Err == nil {
				c.Fail("the reserved name 'loop' was accepted as data")
			}
			if k != "loop" && o.Err != nil {
				c.Fail("failed: %v", o.Err)
			}
		}},
		{Name: "templates", Space: "55 values as insert argument, component argument, slot and component body operand x 9 uses inside of layout, component and slot; unknown names; error carries the line in its file", Run: func(c *C) {
			x := good[c.Choose(len(good))]
			y := good[c.Choose(len(good)/5)*5]
			uses := []string{"{{ u }}", "{{ u + w }}", "{{ u.a }}", "@each(q in u){{ q }}@end", "{{ u % w }}", "{{ u[w] }}", "{{ u.len() }}", "@dump(u)", "@for(i = u; i < w; i++)@break@end"}
			u := uses[c.Choose(len(uses))]
			var files map[string]string
			switch c.Choose(5) {
			case 0: // fails inside of the component
				files = map[string]string{"c": lead09 + u, "p": "\n@component('c', {u: v, w: w})"}
			case 1: // inside of a slot body
				files = map[string]string{"c": "<@slot>@slot('s')", "p": "@component('c', {u: v})\n@slot('s')\n" + strings.ReplaceAll(u, "u", "v") + "@end@end"}
			case 2:
				files = map[string]string{"l": "\n@reserve('a')@reserve('b')", "p": "@use('l')@insert('a', v)\n@insert('b')\n" + strings.ReplaceAll(u, "u", "v") + "@end"}
			case 3: // inside of the layout
				files = map[string]string{"l": lead09 + strings.ReplaceAll(u, "u", "v") + "@reserve('a')", "p": "@use('l')@insert('a', w)"}
			case 4: // inside of a loop around a component
				files = map[string]string{"c": lead09 + u, "p": "@each(e in [1, 2])\n@component('c', {u: v, w: w})@end"}
			}
			c.Begin(fmt.Sprintf("%s with v=%s w=%s", showFiles(files), x.name, y.name))
			t, err := c.load(files)
			if err != nil {
				c.Note("refused")
				return
			}
			for _, n := range []string{"p", "p", "l", "", "nope", "../p", "p\x00", "%s", strings.Repeat("n", 5000)} {
				o := render(t, n, map[string]any{"v": x.g, "w": y.g})
				c.Traces(1)
				line := 3
				if n != "p" {
					line = 0
					if o.Err == nil {
						c.Fail("%q rendered %q", cut(n), cut(o.S))
					}
				}
				c.errorForm(o, line)
			}
			if _, err := textwire.EvaluateString("", nil); err != nil {
				c.Fail("EvaluateString of nothing: %v", err)
			}
		}},
		{Name: "counts", Space: "repeat, truncate, at, decimal, slice with counts around every power of two (+-1, +-2, negated) x 5 strings and 3 arrays, also twice in a row", Run: func(c *C) {
			fs := []string{"s.repeat(n).len()", "s.truncate(n).len()", "s.truncate(n, s).len()", "s.at(n)", "s.decimal('.', n).len()", "k.decimal(s, n).len()", "a.slice(n).len()", "a.slice(n, m).len()", "a.slice(m, n).len()", "a[n]", "s.repeat(n).repeat(m).len()", "s.repeat(m).repeat(n).len()", "s.repeat(m).truncate(n).len()", "n.decimal()", "n.len()", "n.abs()", "n.str()", "n.float()", "-n", "n++", "n--", "n * n", "n + n", "n - m - n", "m / n", "n % m", "n / m", "n.float().int()", "n.float().round()"}
			f := fs[c.Choose(len(fs))]
			p := c.Choose(64)
			d := c.Choose(5)
			n := int64(1)<<uint(p) + int64(d-2)
			if c.Bool() {
				n = -n
			}
			m := []int64{-1, 0, 2, math.MaxInt64, math.MinInt64}[c.Choose(5)]
			s := []string{"", "a", "é日", "12", strings.Repeat("z", 70)}[c.Choose(5)]
			if n > 1<<22 && n <= 1<<26 && strings.Contains(f, "repeat") && (s != "a" || m != 2) {
				c.Skip()
			}
			if n > 1<<22 && n <= 1<<26 && strings.Contains(f, "decimal") && m != 2 {
				c.Skip()
			}
			c.noCrash(lead09+"{{ "+f+" }}", map[string]any{"n": n, "m": m, "s": s, "k": 5, "a": []int{1, 2, 3}}, 3, fmt.Sprintf("n=%d m=%d s=%q", n, m, cut(s)))
		}},
		{Name: "custom calls", Space: "custom functions of every type: 55 receivers x argument tuples up to length 2 (thorough: 3) over 55 values and 4 containers around pairs of them; functions on arrays that return every supported and unsupported value; output or an error with the line, and the function sees every argument", Setup: func(w *Worker) {
			textwire.RegisterStrFunc("obs09", func(s string, a ...any) string { seen09 = a; return s })
			textwire.RegisterIntFunc("obs09", func(s int, a ...any) int { seen09 = a; return s })
			textwire.RegisterFloatFunc("obs09", func(s float64, a ...any) float64 { seen09 = a; return s })
			textwire.RegisterBoolFunc("obs09", func(s bool, a ...any) bool { seen09 = a; return s })
			textwire.RegisterArrFunc("obs09", func(s []any, a ...any) []any { seen09 = a; return s })
			textwire.RegisterArrFunc("give09", func([]any, ...any) []any { return give09 })
		}, Run: func(c *C) {
			if c.Bool() {
				vals := append(append([]nv{}, good...), badValues()...)
				x := vals[c.Choose(len(vals))]
				if x.name == "uintptr" {
					c.Skip()
				}
				wr := dataWraps[c.Choose(len(dataWraps))]
				give09 = []any{1, wr.mk(x.g)}
				if c.Bool() {
					give09 = []any{wr.mk(x.g)}
				}
				o := c.noCrash(lead09+"{{ [1].give09().len() }}", nil, 3, "give09 returning "+x.name+" in "+wr.name)
				if x.bad && o.Err == nil && !strings.HasPrefix(x.name, "nil ") {
					c.Fail("a function that returns an unsupported value rendered %q", o.S)
				} else if !x.bad && (o.Err != nil || o.S != lead09+fmt.Sprint(len(give09))) {
					c.Fail("returned %q, %v", o.S, o.Err)
				}
				return
			}
			r := good[c.Choose(len(good))]
			n := c.Choose(3 + b2i(c.Thorough))
			gd, as, d := map[string]any{"v": r.g}, []string{}, "v="+r.name
			for i := 0; i < n; i++ {
				l := good
				if i == 1 && !c.Thorough || i == 2 {
					l = good[i%3 : 18]
				}
				a := l[c.Choose(len(l))]
				gd[string(rune('p'+i))] = a.g
				as = append(as, string(rune('p'+i)))
				d += " " + string(rune('p'+i)) + "=" + a.name
			}
			if n == 2 {
				as = [][]string{as, {"[p, q]"}, {"[p, q, p]"}, {"{a: p, b: {c: q}}"}, {"[[p], [p]]", "q"}}[c.Choose(5)]
			}
			seen09 = nil
			o := c.noCrash(lead09+"{{ v.obs09("+strings.Join(as, ", ")+") }}", gd, 3, d)
			switch TypeOf(r.v) {
			case "str", "int", "float", "bool", "arr":
				if o.Err != nil || len(seen09) != len(as) {
					c.Fail("returned %q, %v, the function saw %d arguments", cut(o.S), o.Err, len(seen09))
				}
			default:
				if o.Err == nil {
					c.Fail("there is no function for %s, yet %q was rendered", r.name, cut(o.S))
				}
			}
		}},
	}})
}

func (c *C) badData(o out, x nv) {
	if x.bad {
		c.Note("error")
		if o.Err == nil {
			c.Fail("rendered %q although the data has an unsupported value", cut(o.S))
		}
	} else {
		c.Note("value")
		if o.Err != nil {
			c.Fail("failed: %v", o.Err)
		}
	}
}

// ugen enumerates expressions without any regard to types
type ugen struct {
	c      *C
	leaves int
}

func uData() Data {
	return Data{"i": int64(3), "z": int64(0), "f": 2.5, "s": "ab", "e": "", "b": true, "nn": nil, "a": A(int64(4), "x", nil), "o": O("n", int64(11), "s", "os", "a", A(int64(1)), "o", O())}
}

var uLeaves = []Expr{Var{"i"}, Var{"s"}, Var{"a"}, Var{"o"}, Var{"nn"}, Lit{"n"}, Var{"z"}, Var{"f"}, Var{"b"}, Var{"undef"}, Lit{int64(1)}, Lit{0.5}, ObjL{[]string{"n"}, []Expr{Lit{nil}}}}

var uProds = func() (r []prod) {
	two := []string{"", ""}
	for _, op := range binOps {
		r = append(r, prod{1, two, bin(op)})
	}
	one := []string{""}
	r = append(r, prod{1, one, un("-")}, prod{1, one, un("!")}, prod{1, one, post("++")}, prod{1, one, post("--")}, prod{1, []string{"", "", ""}, tern}, prod{1, two, idx},
		prod{1, one, dot("n")}, prod{1, one, dot("o")}, prod{1, one, call("len")}, prod{1, one, call("nope")}, prod{1, two, call("at")}, prod{1, two, call("contains")}, prod{1, two, call("append")}, prod{1, one, call("str")},
		prod{1, two, func(x []Expr) Expr { return ArrL{x} }}, prod{1, one, func(x []Expr) Expr { return ObjL{[]string{"n"}, x} }})
	return
}()

func (g *ugen) gen(n int) Expr {
	if n == 0 {
		l := uLeaves[:g.leaves]
		return l[g.c.Choose(len(l))]
	}
	p := uProds[g.c.Choose(len(uProds))]
	rest := n - 1
	var x []Expr
	for i := range p.fix {
		k := rest
		if i < len(p.fix)-1 {
			k = g.c.Choose(rest + 1)
		}
		rest -= k
		x = append(x, g.gen(k))
	}
	return p.mk(x)
}

// fileFrags09 are fragments of pages, layouts and components
var fileFrags09 = []string{"a", "{{ n }}", "@if(t)", "@else", "@each(v in xs)", "@for(i = 0; i < 2; i++)", "@use('l')", "@use('p')", "@insert('r')", "@insert('r', n)", "@insert('s')", "@reserve('r')", "@reserve('q')", "@component('c')", "@component('p', {n: n})", "@component('l')@slot", "@slot", "@slot('s')", "@slot('s')z@end", "@break", "@end"}
