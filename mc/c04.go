package main

import (
	"fmt"

	. "verifmc/ref"
)

func init() {
	x, y := Var{"x"}, Var{"y"}
	typed := []Value{nil, true, int64(5), 1.5, "st", A(int64(1)), O("k", int64(1)), false, int64(0), "", A(), O(), 0.0, A("q"), O("z", "w")}
	ifT := func(b ...Stmt) Stmt { return If{C: []Expr{Lit{true}}, B: [][]Stmt{b}} }
	ifElse := func(b ...Stmt) Stmt {
		return If{C: []Expr{Lit{false}}, B: [][]Stmt{{Text{"no"}}}, Else: b, Has: true}
	}
	ifElif := func(b ...Stmt) Stmt {
		return If{C: []Expr{Lit{false}, Lit{true}}, B: [][]Stmt{{Text{"no"}}, b}}
	}
	eachOnce := func(b ...Stmt) Stmt { return Each{V: "e1", A: ArrL{ints(1)}, B: b} }
	forOnce := func(b ...Stmt) Stmt {
		return For{Init: Assign{"f1", Lit{int64(0)}}, C: Bin{"<", Var{"f1"}, Lit{int64(1)}}, Post: Print1{Post{"++", Var{"f1"}}}, B: b}
	}
	elseOf := func(b ...Stmt) Stmt {
		return Each{V: "e2", A: ArrL{nil}, B: []Stmt{Text{"no"}}, Else: b, Has: true}
	}
	wraps := []func(...Stmt) Stmt{ifT, ifElse, ifElif, eachOnce, forOnce, elseOf,
		func(b ...Stmt) Stmt { return Braces{b} }}
	probe := func(v string) Stmt { return Print1{ArrL{[]Expr{Var{v}}}} }

	register(&Check{
		ID: "C04",
		Assumptions: []string{
			"programs whose result depends on whether the passes of a loop share one scope, or on whether the @else body of a @for sees the counter, are not compared",
			"a component argument that shadows a variable of another type may shadow or fail, it may never keep the outer value",
			"@insert and @slot bodies are not listed as blocks; assignments leaking out of them are not compared",
		},
		Families: []Family{
			{Name: "programs", Space: "all statement lists with up to 4 (quick) / 5 (thorough) statements from 7 assignments/reads of two names with int and string values, @if, @if/@else, @elseif, @each binding x or v, @for binding x or i, loop @else, every nesting x 5 data maps x text between statements everywhere, nowhere, not at the ends, not at the starts, only at the ends of bodies", Run: func(c *C) {
				max := 4
				if c.Thorough {
					max = 5
				}
				n := c.Choose(max) + 1
				g := &sgen{c: c}
				if n < max {
					g.gaps = c.Choose(5)
				}
				g.simple = func(g *sgen, loop bool) Stmt {
					switch g.c.Choose(7) {
					case 0:
						return Assign{"x", Lit{int64(1)}}
					case 1:
						return Assign{"x", Lit{int64(2)}}
					case 2:
						return Assign{"x", Lit{"s"}}
					case 3:
						return Assign{"y", x}
					case 4:
						return Print1{x}
					case 5:
						return Print1{y}
					}
					return Assign{"x", Bin{"+", x, Lit{int64(10)}}}
				}
				body := func(f func(l []Stmt) Stmt) func(g *sgen, n int, loop bool) Stmt {
					return func(g *sgen, n int, loop bool) Stmt { return f(g.list(n-1, loop)) }
				}
				g.comp = []func(g *sgen, n int, loop bool) Stmt{
					body(func(l []Stmt) Stmt { return ifT(l...) }),
					body(func(l []Stmt) Stmt { return ifElse(l...) }),
					body(func(l []Stmt) Stmt { return Each{V: "x", A: ArrL{ints(7, 8)}, B: l} }),
					body(func(l []Stmt) Stmt { return Each{V: "v", A: ArrL{ints(7, 8)}, B: l} }),
					body(func(l []Stmt) Stmt {
						return For{Init: Assign{"x", Lit{int64(4)}}, C: Bin{"<", x, Lit{int64(6)}}, Post: Print1{Post{"++", x}}, B: l}
					}),
					body(func(l []Stmt) Stmt { return forTo("i", 2, l...) }),
				}
				if n <= 3 {
					g.comp = append(g.comp, body(func(l []Stmt) Stmt { return ifElif(l...) }), body(func(l []Stmt) Stmt { return elseOf(l...) }),
						body(func(l []Stmt) Stmt {
							return For{Init: Assign{"x", Lit{int64(4)}}, C: Lit{false}, B: nil, Else: append([]Stmt{Text{"e"}}, l...), Has: true}
						}))
				}
				l := g.list(n, false)
				d := []Data{nil, {"x": int64(9)}, {"x": "d", "y": int64(1)}, {"y": int64(3)}, {"x": int64(0), "y": int64(0)}}
				nd := len(d)
				if n >= 4 {
					nd = 2
				}
				dd := d[c.Choose(nd)]
				r := Render(nil, l, dd, nil)
				if r.Fail != nil && r.Fail.Unspec && r.Fail.Why != "depends on the scope inside of loops" {
					c.Skip() // does not end
				}
				c.checkStr(styles[1], l, dd)
			}},
			{Name: "type-pairs", Space: "15x15 values of 7 types: first binding by data, assignment, @each, @for or in an enclosing block; second by assignment in the same block or in one of 7 nested blocks, as @each variable, @for init, @for post, later element of an array; value read afterwards inside and outside", Run: func(c *C) {
				a, b := typed[c.Choose(len(typed))], typed[c.Choose(len(typed))]
				d := Data{"b": b, "bb": A(b), "ab": A(a, b), "a": a, "aa": A(a)}
				set := Assign{"x", Var{"b"}}
				if c.Bool() {
					set = Assign{"x", Par{Lit{b}}}
				}
				var second []Stmt
				k := c.Choose(8 + len(wraps))
				switch {
				case k == 0:
					second = []Stmt{set}
				case k == 1:
					second = []Stmt{Each{V: "x", A: Var{"bb"}, B: []Stmt{probe("x")}}}
				case k == 2:
					second = []Stmt{For{Init: set, C: Lit{false}, B: nil, Else: []Stmt{Text{"E"}}, Has: true}}
				case k == 3:
					second = []Stmt{For{Init: Assign{"q", Lit{int64(0)}}, C: eq(Var{"q"}, 0), Post: Assign{"q", Post{"++", Var{"q"}}}, B: []Stmt{set, probe("x")}}}
				case k == 4:
					second = []Stmt{Each{V: "x", A: Var{"ab"}, B: []Stmt{probe("x")}}}
				case k == 5:
					second = []Stmt{Each{V: "x", A: Lit{A(a, b, a)}, B: []Stmt{probe("x")}}}
				case k == 6:
					second = []Stmt{For{Init: Assign{"q", Lit{int64(0)}}, C: Bin{"<", Var{"q"}, Lit{int64(2)}}, Post: Print1{Post{"++", Var{"q"}}}, B: []Stmt{probe("x"), set}}}
				case k == 7:
					second = []Stmt{ifT(Assign{"x", Var{"a"}}, ifT(set, probe("x")), probe("x"))}
				default:
					second = []Stmt{wraps[k-8](set, probe("x"))}
				}
				tail := append(second, Text{"|"}, probe("x"))
				var l []Stmt
				switch c.Choose(6) {
				case 0:
					d["x"] = a
					l = tail
				case 1:
					l = append([]Stmt{Assign{"x", Var{"a"}}}, tail...)
				case 2:
					l = []Stmt{Each{V: "x", A: Var{"aa"}, B: tail}}
				case 3:
					l = []Stmt{For{Init: Assign{"x", Var{"a"}}, C: eq(Lit{int64(1)}, 1), B: append(tail, Break{})}}
				case 4:
					l = []Stmt{Assign{"x", Var{"a"}}, ifT(append(tail, ifElse(tail...))...)}
				case 5:
					d["x"] = a
					l = []Stmt{eachOnce(forOnce(tail...))}
				}
				c.checkStr(styles[c.Choose(2)], l, d)
			}},
			{Name: "vanish", Space: "a name bound in one of 10 constructs (branch, loops, loop variable, for counter, component argument, component body, loop object) nested up to depth 3 and read at one of 4 places; nothing leaks out, not even after break/continue", Run: func(c *C) {
				depth := c.Choose(3) + 1
				read := c.Choose(4)
				rd := Print1{Var{"q"}}
				var l []Stmt
				if read == 0 {
					l = []Stmt{rd}
				}
				for i := 0; i < depth; i++ {
					bind := []Stmt{Assign{"q", Lit{int64(i)}}}
					if i > 0 {
						bind = []Stmt{Text{"."}}
					}
					in := append(append(bind, l...), Text{";"})
					var s Stmt
					switch c.Choose(10) {
					case 0:
						s = ifT(in...)
					case 1:
						s = ifElse(in...)
					case 2:
						s = ifElif(in...)
					case 3:
						s = Each{V: "q", A: ArrL{ints(4, 5)}, B: append(l, Text{";"})}
					case 4:
						s = For{Init: Assign{"q", Lit{int64(0)}}, C: Bin{"<", Var{"q"}, Lit{int64(2)}}, Post: Print1{Post{"++", Var{"q"}}}, B: append(l, Text{";"})}
					case 5:
						s = eachOnce(in...)
					case 6:
						s = forOnce(append(in, Continue{})...)
					case 7:
						s = eachOnce(append(in, Break{})...)
					case 8:
						s = elseOf(in...)
					case 9:
						s = For{Init: Assign{"q", Lit{int64(0)}}, C: Lit{false}, B: l, Else: []Stmt{Text{"E"}}, Has: true}
					}
					l = []Stmt{s}
					if i == 0 && read == 1 {
						l = append(l, rd)
					}
					if i == depth-1 && read == 2 {
						l = append(l, rd)
					}
				}
				if read == 3 {
					l = append(l, ifT(eachOnce(rd)))
				}
				d := Data{}
				if c.Bool() {
					d["q"] = int64(77)
				}
				c.checkStr(styles[c.Choose(3)], append(l, Text{"$"}), d)
			}},
			{Name: "loop-vanish", Space: "the loop object read after, before and between loops and in loop @else bodies, at nesting depth 0..2, loops over 0..2 elements ended by break/continue/normally", Run: func(c *C) {
				rd := Print1{lp("iter")}
				n := c.Choose(3)
				end := [][]Stmt{nil, {Break{}}, {Continue{}}}[c.Choose(3)]
				var s Stmt = Each{V: "v", A: Lit{intArr(n)}, B: append([]Stmt{Text{"b"}}, end...), Else: []Stmt{Text{"E"}}, Has: true}
				if c.Bool() {
					s = forTo("v", n, append([]Stmt{Text{"b"}}, end...)...)
				}
				var l []Stmt
				switch c.Choose(5) {
				case 0:
					l = []Stmt{rd, s}
				case 1:
					l = []Stmt{s, rd}
				case 2:
					l = []Stmt{ifT(s), ifT(rd)}
				case 3:
					l = []Stmt{s, forTo("i", 1, rd)}
				case 4:
					l = []Stmt{Each{V: "w", A: ArrL{nil}, B: nil, Else: []Stmt{s, rd}, Has: true}}
				}
				for i := c.Choose(3); i > 0; i-- {
					switch c.Choose(3) {
					case 0:
						l = []Stmt{ifT(l...)}
					case 1:
						l = []Stmt{Each{V: fmt.Sprint("z", i), A: ArrL{ints(1, 2)}, B: l}}
					case 2:
						l = []Stmt{forTo(fmt.Sprint("z", i), 2, l...)}
					}
				}
				c.checkStr(styles[0], l, nil)
			}},
			{Name: "reserved", Space: "assignment to loop, loop as loop variable, counter, component argument, data key, with every kind of value, at every nesting place (inside and outside of loops); names that only resemble loop are free", Run: func(c *C) {
				name := []string{"loop", "loops", "Loop", "loop_", "_loop", "LOOP", "xloop"}[c.Choose(7)]
				v := typed[c.Choose(7)]
				var s []Stmt
				switch c.Choose(7) {
				case 0:
					s = []Stmt{Assign{name, Par{Lit{v}}}, Text{"a"}, probe(name)}
				case 1:
					s = []Stmt{Each{V: name, A: ArrL{[]Expr{Par{Lit{v}}}}, B: []Stmt{probe(name)}}}
				case 2:
					s = []Stmt{For{Init: Assign{name, Par{Lit{v}}}, C: Lit{true}, B: []Stmt{probe(name), Break{}}}}
				case 3:
					s = []Stmt{Braces{[]Stmt{Assign{"ok", Lit{int64(1)}}, Assign{name, Par{Lit{v}}}, probe(name)}}}
				case 4:
					s = []Stmt{For{Init: Assign{"i", Lit{int64(0)}}, C: Bin{"<", Var{"i"}, Lit{int64(1)}}, Post: Assign{name, Par{Lit{v}}}, B: []Stmt{Text{"b"}, Assign{"i", Lit{int64(5)}}}}}
					if name != "loop" {
						c.Skip()
					}
					s = []Stmt{For{Init: Assign{"i", Lit{int64(0)}}, C: Bin{"<", Var{"i"}, Lit{int64(1)}}, Post: Assign{name, Par{Lit{v}}}, B: []Stmt{Text{"b"}}}}
				case 5:
					s = []Stmt{Text{"t"}}
				case 6:
					s = []Stmt{Print1{Lit{int64(1)}}}
				}
				for i := c.Choose(3); i > 0; i-- {
					switch c.Choose(4) {
					case 0:
						s = []Stmt{ifT(s...)}
					case 1:
						s = []Stmt{Each{V: fmt.Sprint("z", i), A: ArrL{ints(1, 2)}, B: s}}
					case 2:
						s = []Stmt{ifElse(s...)}
					case 3:
						s = []Stmt{elseOf(s...)}
					}
				}
				d := Data{"k": int64(1)}
				if c.Bool() {
					d[name] = v
				}
				c.checkStr(styles[c.Choose(2)], s, d)
			}},
			{Name: "components", Space: "page and component programs of up to 2+2 (quick) / 2+3 (thorough) statements over x, y with the component given 6 argument lists, used in 5 places: arguments and component assignments never reach the page", Run: func(c *C) {
				leaf := func(comp bool) func(g *sgen, loop bool) Stmt {
					return func(g *sgen, loop bool) Stmt {
						switch g.c.Choose(6) {
						case 0:
							return Assign{"x", Lit{int64(1)}}
						case 1:
							return Assign{"x", Lit{"s"}}
						case 2:
							return Assign{"y", x}
						case 3:
							return Print1{x}
						case 4:
							return Print1{y}
						}
						return ifT(Assign{"x", Lit{int64(6)}}, Print1{x})
					}
				}
				max := 2
				if c.Thorough {
					max = 3
				}
				args := []*ObjL{nil, {[]string{"x"}, ints(5)}, {[]string{"x"}, []Expr{Lit{"a"}}}, {[]string{"y", "x"}, []Expr{Lit{int64(4)}, Lit{int64(3)}}}, {[]string{"z"}, []Expr{Lit{nil}}}, {[]string{"y"}, []Expr{Bin{"+", x, Lit{int64(1)}}}}, {[]string{"loop"}, ints(1)}}
				g := &sgen{c: c, simple: leaf(true)}
				cl := g.list(c.Choose(max+1), false)
				g.simple = leaf(false)
				pre := g.list(c.Choose(2), false)
				post := g.list(c.Choose(2), false)
				use := Component{N: "c", Args: args[c.Choose(len(args))]}
				var mid Stmt = use
				switch c.Choose(5) {
				case 1:
					mid = ifT(use, Text{"+"}, Print1{x})
				case 2:
					mid = Each{V: "x", A: ArrL{ints(7, 8)}, B: []Stmt{use, Print1{x}}}
				case 3:
					mid = Braces{nil}
					mid = eachOnce(use, Text{"+"}, use)
				case 4:
					mid = forTo("y", 2, use, Print1{y})
				}
				d := []Data{nil, {"x": int64(9)}, {"x": "d", "y": int64(2)}}[c.Choose(3)]
				c.checkSite(styles[0], &Site{Files: map[string][]Stmt{"c": cl, "p": append(append(pre, mid), post...)}}, d, "p")
			}},
			{Name: "data-everywhere", Space: "data of each of 7 types read in 12 places (nested blocks to depth 3, loop headers, @else, layouts, inserts, components, slots), shadowed by nothing, by an inner assignment, by a loop variable", Run: func(c *C) {
				v := typed[c.Choose(7)]
				rd := []Stmt{probe("x"), Text{"."}}
				switch c.Choose(4) {
				case 1:
					rd = append(rd, ifT(Assign{"x", Par{Lit{v}}}, probe("x")), probe("x"))
				case 2:
					rd = append(rd, Each{V: "x", A: ArrL{[]Expr{Par{Lit{v}}, Par{Lit{v}}}}, B: []Stmt{probe("x")}}, probe("x"))
				case 3:
					rd = append(rd, ifElse(eachOnce(forOnce(elseOf(probe("x"))))), probe("x"))
				}
				f := map[string][]Stmt{}
				switch c.Choose(12) {
				case 0:
					f["p"] = rd
				case 1:
					f["p"] = []Stmt{ifT(rd...)}
				case 2:
					f["p"] = []Stmt{eachOnce(rd...)}
				case 3:
					f["p"] = []Stmt{forOnce(rd...)}
				case 4:
					f["p"] = []Stmt{elseOf(rd...)}
				case 5:
					f["p"] = []Stmt{Each{V: "k", A: ArrL{[]Expr{x}}, B: append(rd, probe("k"))}}
				case 6:
					f["p"], f["l"] = []Stmt{Use{"l"}, Insert{N: "r", B: rd}}, []Stmt{Text{"l"}, Reserve{"r"}, Text{"m"}}
				case 7:
					f["p"], f["l"] = []Stmt{Use{"l"}, Insert{N: "r", Arg: x}}, append([]Stmt{Text{"l"}, Reserve{"r"}}, rd...)
				case 8:
					f["p"], f["c"] = []Stmt{Component{N: "c"}, Component{N: "c", Args: &ObjL{[]string{"k"}, []Expr{x}}}}, rd
				case 9:
					f["p"], f["c"] = []Stmt{Component{N: "c", Slots: []SlotUse{{B: rd}, {N: "s", Has: true, B: rd}}}}, append([]Stmt{Slot{}, Text{","}, Slot{"s", true}}, rd...)
				case 10:
					f["p"], f["c"], f["l"] = []Stmt{Use{"l"}, Insert{N: "r", B: []Stmt{eachOnce(Component{N: "c", Slots: []SlotUse{{B: rd}}})}}}, append(rd, Slot{}), append(rd, ifT(Reserve{"r"}))
				case 11:
					f["p"] = []Stmt{eachOnce(ifElse(forOnce(rd...))), Text{"$"}, probe("x")}
				}
				c.checkSite(styles[0], &Site{Files: f}, Data{"x": v, "other": int64(1)}, "p")
			}},
			{Name: "ladder", Space: "n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024: nesting depth with an assignment at each level and reads on the way in and out; n variables in one scope (assigned or data) all read back; n re-assignments", Run: func(c *C) {
				n := ladderN(c, 1025)
				var l []Stmt
				var d Data
				k := c.Choose(7)
				switch k {
				case 0, 1, 2, 3:
					l = []Stmt{Print1{x}}
					for i := n; i > 0; i-- {
						in := append([]Stmt{Assign{"x", Lit{int64(i)}}}, l...)
						if k == 3 {
							in = append([]Stmt{}, l...)
						}
						in = append(in, Text{","}, Print1{x})
						l = []Stmt{wraps[(k+i)%6](in...)}
						if k == 1 {
							l = []Stmt{ifT(in...)}
						}
					}
					l = append([]Stmt{Assign{"x", Lit{int64(0)}}}, append(l, Text{"|"}, Print1{x})...)
				case 4:
					for i := 0; i < n; i++ {
						l = append(l, Assign{fmt.Sprintf("v%d", i), Lit{int64(i)}})
					}
					for i := n - 1; i >= 0; i-- {
						l = append(l, ifT(Print1{Var{fmt.Sprintf("v%d", i)}}, Text{","}))
					}
				case 5:
					d = Data{}
					for i := 0; i < n; i++ {
						d[fmt.Sprintf("v%d", i)] = int64(i)
						l = append(l, Print1{Var{fmt.Sprintf("v%d", i)}}, Text{","})
					}
				case 6:
					for i := 0; i < n; i++ {
						l = append(l, Assign{"x", Lit{int64(i)}}, ifT(Assign{"x", Lit{int64(-5)}}), Print1{x})
					}
				}
				c.checkStr(styles[0], l, d)
			}},
		},
	})
}
