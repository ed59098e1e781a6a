package main

import (
	"fmt"

	. "verifmc/ref"
)

func lp(n string) Expr { return Dot{Var{"loop"}, n} }

func meta() []Stmt {
	return []Stmt{Text{"("}, Print1{lp("index")}, Text{","}, Print1{lp("iter")}, Text{","}, Print1{lp("first")}, Text{","}, Print1{lp("last")}, Text{")"}}
}

func eq(a Expr, n int) Expr { return Bin{"==", a, Lit{int64(n)}} }

func forTo(v string, n int, body ...Stmt) For {
	return For{Init: Assign{v, Lit{int64(0)}}, C: Bin{"<", Var{v}, Lit{int64(n)}}, Post: Print1{Post{"++", Var{v}}}, B: body}
}

func intArr(n int) *Arr {
	a := &Arr{}
	for i := 0; i < n; i++ {
		a.E = append(a.E, int64(i+1))
	}
	return a
}

// arrOf builds an array of n elements of one kind
func arrOf(kind, n int) *Arr {
	a := &Arr{}
	for i := 0; i < n; i++ {
		var v Value
		switch kind {
		case 0:
			v = int64(i * 10)
		case 1:
			v = fmt.Sprintf("s%d", i)
		case 2:
			v = float64(i) + 0.5
		case 3:
			v = i%2 == 0
		case 4:
			v = A(int64(i), int64(i+1))
		case 5:
			v = O("n", int64(i), "s", fmt.Sprint(i))
		case 6:
			v = int64(7) // equal elements
		case 7:
			v = nil
		case 8:
			v = ""
		case 9:
			v = A()
		}
		a.E = append(a.E, v)
	}
	return a
}

func init() {
	// conditions of @breakIf and friends inside of a loop over 1, 2, 3
	conds := func(v string, each bool) []Expr {
		r := []Expr{Lit{true}, Lit{false}, eq(Var{v}, 2)}
		if each {
			r = append(r, lp("last"))
		} else {
			r = append(r, eq(Var{v}, 1))
		}
		return r
	}
	ctlLeaf := func(g *sgen, loop bool) Stmt {
		if !loop {
			return Print1{Var{"n"}}
		}
		v := "v"
		switch k := g.c.Choose(6); k {
		case 0:
			return Break{}
		case 1:
			return Continue{}
		case 2, 3:
			return BreakIf{eq(Var{v}, k)}
		default:
			return ContinueIf{eq(Var{v}, k-2)}
		}
	}
	ifComp := func(g *sgen, n int, loop bool) Stmt {
		x := Expr(Lit{true})
		if loop {
			x = eq(Var{"v"}, 2)
		}
		return If{C: []Expr{x}, B: [][]Stmt{g.list(n-1, loop)}}
	}
	ifElse := func(g *sgen, n int, loop bool) Stmt {
		sp := g.split(n-1, 2)
		x := Expr(Lit{false})
		if loop {
			x = eq(Var{"v"}, 2)
		}
		return If{C: []Expr{x}, B: [][]Stmt{g.list(sp[0], loop)}, Else: g.list(sp[1], loop), Has: true}
	}
	ifElif := func(g *sgen, n int, loop bool) Stmt {
		sp := g.split(n-1, 2)
		x := Expr(Lit{true})
		if loop {
			x = eq(Var{"v"}, 2)
		}
		return If{C: []Expr{Lit{false}, x}, B: [][]Stmt{g.list(sp[0], loop), g.list(sp[1], loop)}}
	}
	each := func(g *sgen, n int, loop bool) Stmt {
		return Each{V: "v", A: ArrL{ints(1, 2, 3)}, B: append(g.list(n-1, true), Print1{lp("iter")})}
	}
	eachEmpty := func(g *sgen, n int, loop bool) Stmt {
		return Each{V: "v", A: ArrL{nil}, B: []Stmt{Text{"no"}, Break{}}, Else: g.list(n-1, loop), Has: true}
	}
	forL := func(g *sgen, n int, loop bool) Stmt {
		return For{Init: Assign{"v", Lit{int64(1)}}, C: Bin{"<=", Var{"v"}, Lit{int64(3)}}, Post: Print1{Post{"++", Var{"v"}}}, B: g.list(n-1, true)}
	}
	forEmpty := func(g *sgen, n int, loop bool) Stmt {
		return For{Init: Assign{"q", Lit{int64(1)}}, C: Lit{false}, B: []Stmt{Text{"no"}, Continue{}}, Else: g.list(n-1, loop), Has: true}
	}
	_ = conds

	register(&Check{
		ID: "C03",
		Assumptions: []string{
			"programs whose result depends on whether the passes of a loop share one scope are not compared",
			"loop control outside of any loop, inside inserts, slots and components is not compared",
		},
		Families: []Family{
			{Name: "metadata", Space: "arrays of 0..12 elements of 10 kinds, given as data, literal, property, function result; body prints the element and all loop properties; with/without @else; layouts", Run: func(c *C) {
				n := c.Choose(13)
				kind := c.Choose(10)
				a := arrOf(kind, n)
				d := Data{"a": a, "o": O("a", a), "ll": A(int64(1))}
				var x Expr
				switch c.Choose(6) {
				case 0:
					x = Var{"a"}
				case 1:
					x = Lit{a}
				case 2:
					x = Dot{Var{"o"}, "a"}
				case 3:
					x = Call{Call{Var{"a"}, "reverse", nil}, "reverse", nil}
				case 4:
					x = Call{Var{"a"}, "slice", []Expr{Lit{int64(1)}}}
				case 5:
					x = Idx{ArrL{[]Expr{Var{"ll"}, Var{"a"}}}, Lit{int64(1)}}
				}
				s := Each{V: "v", A: x, B: append([]Stmt{Text{"["}, Print1{Var{"v"}}}, append(meta(), Text{"]"})...)}
				switch c.Choose(3) {
				case 1:
					s.Has, s.Else = true, []Stmt{Text{"empty"}}
				case 2:
					s.Has = true
				}
				c.checkStr(c.style(), []Stmt{Text{"<"}, s, Text{">"}}, d)
			}},
			{Name: "programs", Space: "all statement lists with up to 5 (quick) / 6 (thorough) statements from @break, @continue, @breakIf, @continueIf (all pass positions), @if/@else/@elseif, @each, @for, @each/@for with only the @else body running, every nesting; text in all gaps, and (up to 4 statements, 5 thorough) in none, not at ends, not at starts, only at the ends of bodies", Run: func(c *C) {
				max := 5
				if c.Thorough {
					max = 6
				}
				n := c.Choose(max-1) + 2
				g := &sgen{c: c, simple: ctlLeaf, nsimp: 1}
				if n < max {
					g.gaps = c.Choose(5)
				}
				g.comp = []func(g *sgen, n int, loop bool) Stmt{each, forL, ifComp, ifElse, ifElif, eachEmpty, forEmpty}
				// the outermost statement is a loop
				k := c.Choose(2)
				l := []Stmt{Text{"<"}, g.comp[k](g, n, false), Text{">"}}
				c.checkStr(styles[1], l, Data{"n": int64(3)})
			}},
			{Name: "deep-control", Space: "one control directive (6 kinds x 3 passes) below every chain of up to 4 (quick) / 5 (thorough) nested constructs of 8 kinds inside a loop, text before and after at each level", Run: func(c *C) {
				max := 4
				if c.Thorough {
					max = 5
				}
				depth := c.Choose(max + 1)
				at := c.Choose(3) + 1
				var leaf Stmt
				nested := ""
				switch c.Choose(6) {
				case 0:
					leaf = If{C: []Expr{eq(Var{"v"}, at)}, B: [][]Stmt{{Text{"b"}, Break{}, Text{"!"}}}}
				case 1:
					leaf = If{C: []Expr{eq(Var{"v"}, at)}, B: [][]Stmt{{Text{"c"}, Continue{}, Text{"!"}}}}
				case 2:
					leaf = BreakIf{eq(Var{"v"}, at)}
				case 3:
					leaf = ContinueIf{eq(Var{"v"}, at)}
				case 4:
					leaf = If{C: []Expr{eq(Var{"v"}, at)}, B: [][]Stmt{{BreakIf{Lit{true}}}}, Else: []Stmt{ContinueIf{Lit{int64(1)}}}, Has: true}
				case 5:
					leaf = Braces{[]Stmt{Print1{Var{"v"}}, Assign{"z", Var{"v"}}, Print1{Var{"z"}}}}
				}
				l := []Stmt{Text{"."}, leaf, Text{","}}
				for i := 0; i < depth; i++ {
					t := string(rune('a' + i))
					x := []Stmt{Text{t}}
					y := []Stmt{Text{t + "'"}}
					var s Stmt
					switch c.Choose(8) {
					case 0:
						s = If{C: []Expr{Lit{true}}, B: [][]Stmt{l}}
					case 1:
						s = If{C: []Expr{Lit{false}}, B: [][]Stmt{x}, Else: l, Has: true}
					case 2:
						s = If{C: []Expr{Lit{false}, Lit{true}, Lit{true}}, B: [][]Stmt{x, l, x}, Else: x, Has: true}
					case 3:
						s = Each{V: "w", A: ArrL{ints(7, 8)}, B: append(append([]Stmt{}, l...), Print1{lp("iter")})}
						nested = "loop"
					case 4:
						s = forTo("u", 2, l...)
						nested = "loop"
					case 5:
						s = Each{V: "w", A: ArrL{nil}, B: x, Else: l, Has: true}
					case 6:
						s = For{Init: Assign{"u", Lit{int64(5)}}, C: Lit{false}, B: x, Else: l, Has: true}
					case 7:
						s = If{C: []Expr{Lit{nil}, Lit{int64(0)}}, B: [][]Stmt{x, y}, Else: []Stmt{If{C: []Expr{Lit{"t"}}, B: [][]Stmt{l}}, Text{"~"}}, Has: true}
					}
					l = append(append(append([]Stmt{}, x...), s), y...)
				}
				_ = nested
				var outer Stmt = Each{V: "v", A: ArrL{ints(1, 2, 3)}, B: append(l, Print1{lp("index")})}
				if c.Bool() {
					outer = For{Init: Assign{"v", Lit{int64(1)}}, C: Bin{"<=", Var{"v"}, Lit{int64(3)}}, Post: Print1{Post{"++", Var{"v"}}}, B: l}
				}
				c.checkStr(styles[1], []Stmt{Text{"<"}, outer, Text{">"}}, nil)
			}},
			{Name: "nested-metadata", Space: "2 and 3 nested loops (each/for, sizes 0..3 each) printing the own loop object before, inside and after the inner loop, inner loop ended by @break/@continue/@else or completely; loop also read in nested @if and inner @for", Run: func(c *C) {
				n1, n2 := c.Choose(4), c.Choose(4)
				ctl := c.Choose(7)
				in := meta()
				in = append([]Stmt{Print1{Var{"w"}}}, in...)
				switch ctl {
				case 1:
					in = append(in, Break{}, Text{"!"})
				case 2:
					in = append(in, Continue{}, Text{"!"})
				case 3:
					in = append(in, BreakIf{Bin{"==", Var{"w"}, Var{"v"}}}, Text{"!"})
				case 4:
					in = append(in, If{C: []Expr{lp("first")}, B: [][]Stmt{meta()}, Else: append(meta(), Continue{}), Has: true}, Text{"!"})
				case 5:
					in = append(in, forTo("k", 2, append(meta(), BreakIf{lp("last")}, Text{"k"})...), Text{"!"})
				case 6:
					in = append(in, Each{V: "x", A: ArrL{ints(5, 6)}, B: append(meta(), BreakIf{eq(Var{"x"}, 5)})}, Each{V: "x", A: ArrL{nil}, B: meta(), Else: meta(), Has: true}, Text{"!"})
				}
				in = append(in, meta()...)
				inner := Each{V: "w", A: Lit{intArr(n2)}, B: in}
				if c.Bool() {
					inner.Has, inner.Else = true, []Stmt{Text{"e"}}
					switch c.Choose(4) {
					case 1:
						inner.Else = append(inner.Else, meta()...)
					case 2:
						inner.Else = append(append(inner.Else, meta()...), BreakIf{eq(Var{"v"}, 2)}, Text{"!"})
					case 3:
						inner.Else = append(inner.Else, If{C: []Expr{lp("first")}, B: [][]Stmt{{Continue{}}}}, Text{"?"})
					}
				}
				body := append(meta(), inner, Text{";"})
				body = append(body, meta()...)
				var outer Stmt = Each{V: "v", A: Lit{intArr(n1)}, B: body}
				if c.Bool() {
					outer = Each{V: "v", A: ArrL{ints(1, 2)}, B: []Stmt{Text{"{"}, Each{V: "v", A: Lit{intArr(n1)}, B: body}, Text{"}"}, Print1{lp("iter")}, Print1{lp("last")}}}
				}
				c.checkStr(styles[1], []Stmt{Text{"<"}, outer, Text{">"}}, nil)
			}},
			{Name: "for-headers", Space: "initial value and bound in -2..4 x 6 comparisons x 10 kinds of post clause x body controls x with/without @else; string, float and boolean counters", Run: func(c *C) {
				i0, n := c.Choose(7)-2, c.Choose(7)-2
				op := []string{"<", "<=", ">", ">=", "!=", "=="}[c.Choose(6)]
				i := Var{"i"}
				posts := []Stmt{Print1{Post{"++", i}}, Print1{Post{"--", i}}, Assign{"i", Bin{"+", i, Lit{int64(1)}}}, Assign{"i", Bin{"+", i, Lit{int64(2)}}}, Assign{"i", Bin{"-", i, Lit{int64(3)}}}, Assign{"i", Bin{"*", i, Lit{int64(2)}}}, Assign{"i", Bin{"-", Lit{int64(0)}, i}}, Assign{"i", Post{"++", i}}, Assign{"i", Tern{Bin{"<", i, Lit{int64(0)}}, Lit{int64(9)}, Post{"++", i}}}, nil}
				post := posts[c.Choose(len(posts))]
				cnt := func(l ...Stmt) []Stmt {
					// a guard keeps every loop finite: leave after 10 values
					return append([]Stmt{Print1{i}, Text{" "}, BreakIf{Bin{">", Bin{"*", i, i}, Lit{int64(400)}}}}, l...)
				}
				var body []Stmt
				switch c.Choose(4) {
				case 0:
					body = cnt()
				case 1:
					body = cnt(BreakIf{eq(i, 2)}, Text{"x"})
				case 2:
					body = cnt(ContinueIf{eq(i, 1)}, Text{"x"})
				case 3:
					body = cnt(If{C: []Expr{eq(i, 0)}, B: [][]Stmt{{Text{"z"}, Continue{}}}, Else: []Stmt{Text{"n"}}, Has: true}, Text{"y"})
				}
				s := For{Init: Assign{"i", Lit{int64(i0)}}, C: Bin{op, i, Lit{int64(n)}}, Post: post, B: body, Has: c.Bool(), Else: []Stmt{Text{"E"}}}
				if !s.Has {
					s.Else = nil
				}
				d := Data{}
				if c.Bool() {
					d["i"] = int64(50)
				}
				l := []Stmt{Text{"<"}, s, Text{">"}}
				if len(d) > 0 {
					l = append(l, Print1{i})
				}
				r := Render(nil, l, d, nil)
				if r.Fail != nil && r.Fail.Unspec {
					c.Skip() // does not terminate
				}
				c.checkStr(styles[c.Choose(2)], l, d)
			}},
			{Name: "kept", Space: "a value of the pass (element, each property of loop, an array, object or string made of them, the loop object) kept in a variable or in an array that grows, in the first, every, the second or the last pass; printed in every later pass, in an inner loop and after it; each/for, 1..4 passes; names that exist before the loop or not", Run: func(c *C) {
				n := 1 + c.Choose(4)
				vals := []struct {
					x    Expr
					zero Value
				}{{lp("index"), int64(50)}, {lp("iter"), int64(50)}, {lp("first"), true}, {lp("last"), true}, {Var{"v"}, int64(50)}, {Var{"loop"}, O("index", int64(50))},
					{ArrL{[]Expr{lp("index"), lp("iter")}}, A(int64(50))}, {ArrL{[]Expr{lp("last")}}, A(true)}, {ObjL{[]string{"a", "b"}, []Expr{lp("first"), lp("iter")}}, O("a", true)}, {Call{lp("iter"), "str", nil}, "z"},
					{Bin{"+", lp("iter"), Lit{int64(0)}}, int64(50)}, {Post{"++", Var{"v"}}, int64(50)}, {Tern{lp("first"), lp("iter"), lp("index")}, int64(50)}, {Call{ArrL{[]Expr{lp("index")}}, "append", []Expr{lp("iter")}}, A(int64(50))}}
				k := vals[c.Choose(len(vals))]
				at := []Expr{lp("first"), Lit{true}, eq(lp("index"), 1), lp("last")}[c.Choose(4)]
				keep := Stmt(Assign{"k", Tern{at, k.x, Var{"k"}}})
				zero := k.zero
				switch c.Choose(3) {
				case 1: // the values of all passes
					keep = Assign{"k", Call{Var{"k"}, "append", []Expr{k.x}}}
					zero = A()
				case 2: // the other way round
					keep = Assign{"k", Tern{Un{"!", Par{at}}, Var{"k"}, k.x}}
				}
				show := Print1{Var{"k"}}
				if _, ok := zero.(*Obj); ok && c.Bool() {
					show = Print1{Call{ArrL{[]Expr{Var{"k"}}}, "len", nil}}
				}
				in := Each{V: "w", A: ArrL{ints(8, 9)}, B: []Stmt{Text{"("}, show, Print1{lp("iter")}, Text{")"}}}
				bodies := [][]Stmt{{keep, show, Text{";"}}, {show, keep, Text{";"}}, {keep, in, show, Text{";"}}, {in, keep, show, Text{";"}}, {If{C: []Expr{Lit{true}}, B: [][]Stmt{{keep, show}}}, show, Text{";"}}}
				body := bodies[c.Choose(len(bodies))]
				s := Stmt(Each{V: "v", A: Lit{intArr(n)}, B: body})
				if c.Bool() {
					// the loop that keeps is inside of a loop that does too
					s = Each{V: "u", A: ArrL{ints(3, 4)}, B: []Stmt{s, show, Text{"|"}, Assign{"k", Var{"k"}}, show}}
				}
				l := []Stmt{Text{"<"}, s, Text{">"}}
				d := Data{}
				switch c.Choose(3) {
				case 0:
					d["k"] = zero
					l = append(l, show)
				case 1:
					l = append(append([]Stmt{Assign{"k", Lit{zero}}}, l...), show)
				}
				c.checkStr(styles[c.Choose(2)], l, d)
			}},
			{Name: "silent", Space: "each/for with 0..3 passes whose bodies are all lists of up to 3 statements out of 16 that render nothing in all or some passes, with no @else, an @else with text and a silent one; alone, after text, twice in a row, inside of a loop and in the @else body of one", Run: func(c *C) {
				n := c.Choose(4)
				v := Var{"v"}
				pieces := []Stmt{Print1{Lit{""}}, Print1{Var{"nothing"}}, Assign{"q", Lit{int64(1)}}, If{C: []Expr{Lit{false}}, B: [][]Stmt{{Text{"x"}}}}, If{C: []Expr{eq(v, 1)}, B: [][]Stmt{{Text{"y"}}}}, If{C: []Expr{eq(v, 2)}, B: [][]Stmt{{}}, Has: true, Else: []Stmt{Print1{Lit{""}}}},
					Comment{" x "}, Each{V: "w", A: ArrL{}, B: []Stmt{Text{"z"}}}, Each{V: "w", A: ArrL{ints(1, 2)}, B: []Stmt{}}, Each{V: "w", A: ArrL{ints(1)}, B: []Stmt{Print1{Lit{""}}}, Has: true, Else: []Stmt{Text{"e"}}}, forTo("j", 2), Continue{}, Break{}, BreakIf{eq(v, 1)}, ContinueIf{eq(v, 1)}, Text{"t"}}
				var body []Stmt
				k := c.Choose(4)
				for i := 0; i < k; i++ {
					body = append(body, pieces[c.Choose(len(pieces))])
				}
				loop := func(has bool, els []Stmt) Stmt {
					return Each{V: "v", A: Lit{intArr(n)}, B: body, Has: has, Else: els}
				}
				if c.Bool() {
					loop = func(has bool, els []Stmt) Stmt {
						f := forTo("v", n, body...)
						f.Has, f.Else = has, els
						return f
					}
				}
				var s Stmt
				switch c.Choose(3) {
				case 0:
					s = loop(false, nil)
				case 1:
					s = loop(true, []Stmt{Text{"E"}})
				case 2:
					s = loop(true, []Stmt{Print1{Lit{""}}})
				}
				l := []Stmt{s}
				switch c.Choose(5) {
				case 1:
					l = []Stmt{Text{"a"}, s}
				case 2:
					l = []Stmt{s, s, Text{"b"}}
				case 3:
					l = []Stmt{Each{V: "u", A: ArrL{ints(1, 2)}, B: []Stmt{s}, Has: true, Else: []Stmt{Text{"O"}}}}
				case 4:
					l = []Stmt{Each{V: "u", A: ArrL{}, B: []Stmt{Text{"o"}}, Has: true, Else: []Stmt{s}}}
				}
				c.checkStr(styles[0], l, Data{"nothing": nil})
			}},
			{Name: "for-kinds", Space: "for loops with absent clauses, with string/float/bool/array counters, conditions of every kind, counters that change type, counters shadowing data, nested reuse of one counter name x body variants x @else", Run: func(c *C) {
				i := Var{"i"}
				inc := Print1{Post{"++", i}}
				lt := Bin{"<", i, Lit{int64(3)}}
				loops := []For{
					{C: Var{"f"}, B: []Stmt{Text{"no"}}},
					{C: Lit{true}, B: []Stmt{Text{"a"}, Break{}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: Lit{true}, B: []Stmt{Print1{i}, Break{}}},
					{C: Bin{"<", i, Lit{int64(3)}}, Post: inc, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Lit{int64(0)}}, Post: inc, B: []Stmt{Print1{i}, Break{}}},
					{Post: inc, B: []Stmt{Break{}}},
					{B: []Stmt{Break{}}},
					{Init: Assign{"i", Lit{0.5}}, C: Bin{"<", i, Lit{3.0}}, Post: inc, B: []Stmt{Print1{i}, Text{" "}}},
					{Init: Assign{"i", Lit{3.5}}, C: Bin{">", i, Lit{0.0}}, Post: Print1{Post{"--", i}}, B: []Stmt{Print1{i}, Text{" "}}},
					{Init: Assign{"s", Lit{"a"}}, C: Bin{"!=", Var{"s"}, Lit{"aaaa"}}, Post: Assign{"s", Bin{"+", Var{"s"}, Lit{"a"}}}, B: []Stmt{Print1{Var{"s"}}, Text{" "}}},
					{Init: Assign{"x", ArrL{nil}}, C: Bin{"<", Call{Var{"x"}, "len", nil}, Lit{int64(3)}}, Post: Assign{"x", Call{Var{"x"}, "append", ints(1)}}, B: []Stmt{Print1{Var{"x"}}, Text{"/"}}},
					{Init: Assign{"q", Lit{true}}, C: Var{"q"}, Post: Assign{"q", Un{"!", Var{"q"}}}, B: []Stmt{Text{"once"}}},
					{Init: Assign{"k", Lit{int64(3)}}, C: Var{"k"}, Post: Print1{Post{"--", Var{"k"}}}, B: []Stmt{Print1{Var{"k"}}}},
					{Init: Assign{"s", Lit{"xyz"}}, C: Var{"s"}, Post: Assign{"s", Call{Var{"s"}, "slice", nil}}, B: []Stmt{Print1{Var{"s"}}}},
					{Init: Assign{"s", Lit{"xyz"}}, C: Var{"s"}, Post: Assign{"s", Tern{Bin{"==", Var{"s"}, Lit{"xyz"}}, Lit{"y"}, Lit{""}}}, B: []Stmt{Print1{Var{"s"}}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: lt, Post: Assign{"i", Lit{"s"}}, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Lit{"s"}}, C: Lit{false}, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: Var{"undef"}, Post: inc, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Var{"undef"}}, C: lt, Post: inc, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: lt, Post: Assign{"i", Var{"undef"}}, B: []Stmt{Print1{i}}},
					{Init: Assign{"i", Lit{int64(9)}}, C: lt, Post: Assign{"i", Var{"undef"}}, B: []Stmt{Print1{Var{"undef"}}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: lt, Post: inc, B: []Stmt{forTo("i", 2, Print1{i}), Text{"|"}, Print1{i}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: lt, Post: inc, B: []Stmt{Each{V: "i", A: ArrL{ints(7, 8)}, B: []Stmt{Print1{i}}}, Text{"|"}, Print1{i}}},
					// the post clause changes a variable that is not the loop's own
					{Init: Assign{"i", Lit{int64(5)}}, C: Bin{"<", Var{"n"}, Lit{int64(14)}}, Post: Print1{Post{"++", Var{"n"}}}, B: []Stmt{Print1{i}, Text{":"}, Print1{Var{"n"}}, Text{" "}}},
					{Init: Assign{"i", Lit{int64(5)}}, C: Bin{">", Var{"n"}, Lit{int64(8)}}, Post: Print1{Post{"--", Var{"n"}}}, B: []Stmt{Print1{i}, Text{":"}, Print1{Var{"n"}}, Text{" "}}},
					{C: Bin{"<", Var{"n"}, Lit{int64(14)}}, Post: Print1{Post{"++", Var{"n"}}}, B: []Stmt{Print1{Var{"n"}}, Text{" "}}},
					{Init: Assign{"i", Lit{int64(5)}}, C: Bin{"<", Var{"n"}, Lit{int64(14)}}, Post: Assign{"n", Bin{"+", Var{"n"}, Lit{int64(2)}}}, B: []Stmt{Print1{i}, Text{":"}, Print1{Var{"n"}}, Text{" "}}},
					{Init: Assign{"i", Lit{int64(0)}}, C: lt, Post: inc, B: []Stmt{For{Init: Assign{"j", Lit{int64(0)}}, C: Bin{"<", i, Lit{int64(4)}}, Post: inc, B: []Stmt{Print1{i}, Print1{Var{"j"}}, Text{" "}}}, Text{"|"}}},
					{Init: Assign{"loop", Lit{int64(0)}}, C: Lit{false}, B: nil},
					{Init: Assign{"j", Lit{int64(3)}}, C: Bin{"&", i, i}, B: nil},
				}
				k := c.Choose(len(loops) - 1)
				s := loops[k]
				if c.Bool() {
					s.Has, s.Else = true, []Stmt{Text{"E"}}
				}
				l := []Stmt{Text{"<"}, s, Text{">"}}
				d := Data{"f": false, "n": int64(11)}
				if c.Bool() {
					d["i"] = int64(1)
				}
				if c.Bool() {
					l = []Stmt{Each{V: "z", A: ArrL{ints(1, 2)}, B: append(append([]Stmt{}, l...), Print1{lp("iter")})}}
				}
				c.checkStr(c.style(), l, d)
			}},
			{Name: "non-array", Space: "every kind of value and 8 expressions iterated by @each, with and without @else, at three depths", Run: func(c *C) {
				xs := []Expr{Lit{nil}, Lit{true}, Lit{int64(3)}, Lit{2.5}, Lit{"abc"}, Lit{""}, Par{ObjL{[]string{"a"}, ints(1)}}, Var{"o"}, Var{"undef"}, Bin{"+", Lit{int64(1)}, Lit{int64(2)}}, Idx{Var{"a"}, Lit{int64(0)}}, Idx{Var{"a"}, Lit{int64(99)}}, Call{Var{"a"}, "len", nil}, Call{Var{"a"}, "join", nil}, Call{Lit{"a b"}, "split", nil}, Tern{Lit{false}, Var{"a"}, Lit{int64(0)}}, Tern{Lit{true}, Var{"a"}, Lit{int64(0)}}, Dot{Var{"o"}, "a"}, Dot{Var{"o"}, "n"}}
				s := Each{V: "v", A: xs[c.Choose(len(xs))], B: []Stmt{Print1{Var{"v"}}, Text{"."}}}
				if c.Bool() {
					s.Has, s.Else = true, []Stmt{Text{"E"}}
				}
				l := []Stmt{Text{"<"}, s, Text{">"}}
				for i := c.Choose(3); i > 0; i-- {
					l = []Stmt{Each{V: fmt.Sprint("w", i), A: ArrL{ints(1, 2)}, B: l}}
				}
				c.checkStr(c.style(), l, Data{"a": A(int64(4), int64(5)), "o": O("n", int64(1), "a", A("x"))})
			}},
			{Name: "else", Space: "loops (each over 6 kinds of empty/non-empty array, for with false/true entry condition) with @else bodies holding each control directive, assignments or a failing expression (which only show when the body runs), inside an @each/@for that goes round 3 times, with and without @if around", Run: func(c *C) {
				var ctl []Stmt
				v := Var{"v"}
				switch c.Choose(11) {
				case 0:
					ctl = []Stmt{Break{}}
				case 1:
					ctl = []Stmt{Continue{}}
				case 2:
					ctl = []Stmt{BreakIf{eq(v, 2)}}
				case 3:
					ctl = []Stmt{ContinueIf{eq(v, 2)}}
				case 4:
					ctl = []Stmt{If{C: []Expr{eq(v, 2)}, B: [][]Stmt{{Text{"i"}, Break{}}}, Else: []Stmt{Text{"j"}}, Has: true}}
				case 5:
					ctl = []Stmt{If{C: []Expr{eq(v, 3)}, B: [][]Stmt{{Text{"i"}}}, Else: []Stmt{Text{"j"}, Continue{}}, Has: true}}
				case 6:
					ctl = []Stmt{Each{V: "y", A: ArrL{ints(1, 2)}, B: []Stmt{Break{}}}}
				case 7:
					ctl = nil
				case 8: // would show if it was evaluated for nothing
					ctl = []Stmt{Assign{"z", Lit{"else"}}, Print1{Var{"z"}}}
				case 9:
					ctl = []Stmt{Print1{Bin{"/", v, Lit{int64(0)}}}}
				case 10:
					ctl = []Stmt{Assign{"w", Lit{true}}, Assign{"u", Lit{"else"}}}
				}
				els := append(append([]Stmt{Text{"e"}}, ctl...), Text{"f"})
				var in Stmt
				switch c.Choose(8) {
				case 0:
					in = Each{V: "w", A: ArrL{nil}, B: []Stmt{Text{"no"}}, Else: els, Has: true}
				case 1:
					in = Each{V: "w", A: ArrL{ints(4)}, B: []Stmt{Text{"b"}, Print1{Var{"z"}}}, Else: els, Has: true}
				case 2:
					in = Each{V: "w", A: ArrL{ints(4, 5)}, B: els, Else: []Stmt{Text{"no"}}, Has: true}
				case 3:
					in = For{Init: Assign{"u", Lit{int64(0)}}, C: Lit{false}, B: []Stmt{Text{"no"}}, Else: els, Has: true}
				case 4:
					in = For{Init: Assign{"u", Lit{int64(0)}}, C: Bin{"<", Var{"u"}, Lit{int64(2)}}, Post: Print1{Post{"++", Var{"u"}}}, B: []Stmt{Text{"b"}, Print1{Var{"z"}}}, Else: els, Has: true}
				case 5:
					in = For{Init: Assign{"u", Lit{int64(0)}}, C: Bin{"<", Var{"u"}, Lit{int64(2)}}, Post: Print1{Post{"++", Var{"u"}}}, B: els, Else: []Stmt{Text{"no"}}, Has: true}
				case 6:
					in = Each{V: "w", A: Call{ArrL{ints(1)}, "slice", ints(1)}, B: []Stmt{Text{"no"}}, Else: els, Has: true}
				case 7:
					in = Each{V: "w", A: Idx{ArrL{[]Expr{ArrL{ints(9)}, ArrL{nil}}}, Bin{"-", v, Lit{int64(1)}}}, B: []Stmt{Print1{Var{"w"}}, Print1{Var{"z"}}}, Else: els, Has: true}
				}
				l := []Stmt{Text{"("}, in, Text{")"}}
				switch c.Choose(3) {
				case 1:
					l = []Stmt{If{C: []Expr{Lit{true}}, B: [][]Stmt{l}}, Text{"'"}}
				case 2:
					l = []Stmt{If{C: []Expr{Lit{false}}, B: [][]Stmt{nil}, Else: l, Has: true}, Text{"'"}}
				}
				var o Stmt = Each{V: "v", A: ArrL{ints(1, 2, 3)}, B: append(l, Print1{lp("last")})}
				n := 3
				if in, ok := in.(Each); ok {
					if _, ok := in.A.(Idx); ok {
						n = 2
						o = Each{V: "v", A: ArrL{ints(1, 2)}, B: append(l, Print1{lp("last")})}
					}
				}
				if c.Bool() {
					o = For{Init: Assign{"v", Lit{int64(1)}}, C: Bin{"<=", v, Lit{int64(n)}}, Post: Print1{Post{"++", v}}, B: l}
				}
				c.checkStr(styles[1+c.Choose(2)*2], []Stmt{Text{"<"}, o, Text{">"}, Print1{Var{"z"}}}, Data{"z": "data"})
			}},
			{Name: "in-files", Space: "loops with controls and metadata inside layouts, inserts, components and slots of a loaded site; loops around component uses", Run: func(c *C) {
				n := c.Choose(4)
				ctl := []Stmt{Text{""}, Break{}, Continue{}, BreakIf{eq(Var{"v"}, 2)}, ContinueIf{eq(Var{"v"}, 2)}, If{C: []Expr{eq(Var{"v"}, 2)}, B: [][]Stmt{{Text{"i"}, Continue{}}}}}[c.Choose(6)]
				body := append(append([]Stmt{Print1{Var{"v"}}}, meta()...), ctl, Text{";"})
				loop := Stmt(Each{V: "v", A: Call{Var{"a"}, "slice", []Expr{Lit{int64(0)}, Lit{int64(n)}}}, B: body, Else: []Stmt{Text{"E"}}, Has: true})
				if n == 0 {
					loop = Each{V: "v", A: ArrL{nil}, B: body, Else: []Stmt{Text{"E"}}, Has: true}
				}
				d := Data{"a": A(int64(1), int64(2), int64(3))}
				f := map[string][]Stmt{}
				switch c.Choose(6) {
				case 0:
					f["lay"] = []Stmt{Text{"l"}, loop, Reserve{"r"}}
					f["p"] = []Stmt{Use{"lay"}, Insert{N: "r", B: []Stmt{loop}}}
				case 1:
					f["lay"] = []Stmt{Each{V: "z", A: Var{"a"}, B: []Stmt{Print1{lp("iter")}, Reserve{"r"}, Print1{lp("iter")}}}}
					f["p"] = []Stmt{Use{"lay"}, Insert{N: "r", B: []Stmt{Text{"x"}, Each{V: "v", A: Var{"a"}, B: body}}}}
				case 2:
					f["c"] = []Stmt{Text{"c"}, loop}
					f["p"] = []Stmt{Each{V: "q", A: Var{"a"}, B: []Stmt{Component{N: "c"}, Print1{lp("iter")}}}}
				case 3:
					f["c"] = []Stmt{Text{"c"}, Each{V: "z", A: Var{"a"}, B: []Stmt{Slot{"s", true}, Print1{lp("iter")}}}}
					f["p"] = []Stmt{Component{N: "c", Slots: []SlotUse{{N: "s", Has: true, B: []Stmt{loop}}}}}
				case 4:
					f["c"] = []Stmt{Text{"c"}, Slot{}, Print1{Var{"k"}}}
					f["p"] = []Stmt{Each{V: "q", A: Var{"a"}, B: []Stmt{Component{N: "c", Args: &ObjL{[]string{"k"}, []Expr{lp("iter")}}, Slots: []SlotUse{{B: []Stmt{loop, Print1{lp("index")}}}}}, BreakIf{eq(Var{"q"}, 2)}}}}
				case 5:
					f["p"] = []Stmt{Each{V: "q", A: Var{"a"}, B: []Stmt{loop, Print1{lp("iter")}}}}
				}
				c.checkSite(styles[0], &Site{Files: f}, d, "p")
			}},
			{Name: "ladder", Space: "loop lengths 0..64, 100, 200, 300, 1000, 10000, 100001 and around every power of two from 128 to 4096 and 65536; @break/@continue at the first, second, middle, last pass; loop nesting depth 1..24; n loops in a row", Run: func(c *C) {
				n := c.Choose(2)
				if n == 1 {
					n = ladderN(c, 100001)
				}
				at := []int{0, 1, n / 2, n - 1, n}[c.Choose(5)]
				if n > 5000 && at < n-1 {
					c.Skip()
				}
				stop := []Stmt{Text{""}, BreakIf{eq(lp("index"), at)}, ContinueIf{eq(lp("index"), at)}, If{C: []Expr{eq(lp("iter"), at)}, B: [][]Stmt{{Break{}}}}}[c.Choose(4)]
				switch c.Choose(4) {
				case 0:
					body := append(append([]Stmt{Print1{Var{"v"}}}, meta()...), stop, Text{";"})
					c.checkStr(styles[0], []Stmt{Text{"<"}, Each{V: "v", A: Var{"a"}, B: body, Else: []Stmt{Text{"E"}}, Has: true}, Text{">"}}, Data{"a": intArr(n)})
				case 1:
					if n > 300 {
						c.Skip()
					}
					l := ArrL{}
					for i := 0; i < n; i++ {
						l.E = append(l.E, Lit{int64(i)})
					}
					c.checkStr(styles[0], []Stmt{Text{"<"}, Each{V: "v", A: l, B: append(append([]Stmt{Print1{Var{"v"}}}, meta()...), stop, Text{";"})}, Text{">"}}, nil)
				case 2:
					st := []Stmt{Text{""}, BreakIf{eq(Var{"i"}, at)}, ContinueIf{eq(Var{"i"}, at)}}[c.Choose(3)]
					c.checkStr(styles[0], []Stmt{Text{"<"}, forTo("i", n, Print1{Var{"i"}}, st, Text{";"}), Text{">"}}, nil)
				case 3:
					if n > 24 {
						c.Skip()
					}
					l := []Stmt{Print1{lp("iter")}, stop, Text{"x"}}
					for i := 0; i < n; i++ {
						sz := 1
						if i < 3 {
							sz = 2
						}
						l = []Stmt{Text{"<"}, Each{V: fmt.Sprint("v", i), A: Lit{intArr(sz)}, B: append(append(append([]Stmt{}, l...), Text{"/"}), Print1{lp("iter")})}, Text{">"}}
					}
					if n == 0 {
						c.Skip()
					}
					c.checkStr(styles[0], l, nil)
				}
			}},
		},
	})
}
