package main

import (
	"fmt"
	"strings"

	. "verifmc/ref"
)

// slotNames collects the placeholders of a component
func slotNames(l []Stmt, into map[string]bool) {
	for _, s := range l {
		switch s := s.(type) {
		case Slot:
			into[s.N] = true
		case If:
			for _, b := range s.B {
				slotNames(b, into)
			}
			slotNames(s.Else, into)
		case Each:
			slotNames(s.B, into)
			slotNames(s.Else, into)
		case For:
			slotNames(s.B, into)
			slotNames(s.Else, into)
		}
	}
}

// badUse tells whether some use passes an undeclared slot or one slot twice
func badUse(files map[string][]Stmt, l []Stmt) (string, bool) {
	sub := func(ls ...[]Stmt) (string, bool) {
		for _, x := range ls {
			if n, bad := badUse(files, x); bad {
				return n, true
			}
		}
		return "", false
	}
	for _, s := range l {
		var n string
		var bad bool
		switch s := s.(type) {
		case If:
			n, bad = sub(append(append([][]Stmt{}, s.B...), s.Else)...)
		case Each:
			n, bad = sub(s.B, s.Else)
		case For:
			n, bad = sub(s.B, s.Else)
		case Insert:
			n, bad = sub(s.B)
		case Component:
			name := Alias(s.N, "components")
			f, ok := files[name]
			if !ok {
				return name, true
			}
			decl := map[string]bool{}
			slotNames(f, decl)
			seen := map[string]bool{}
			for _, sl := range s.Slots {
				if seen[sl.N] || !decl[sl.N] {
					return name, true
				}
				seen[sl.N] = true
			}
			for _, sl := range s.Slots {
				if n, bad = sub(sl.B); bad {
					return n, true
				}
			}
		}
		if bad {
			return n, true
		}
	}
	return "", false
}

// checkComp compares pages, or requires the refusal naming the component
func (c *C) checkComp(p PrintStyle, s *Site, d Data, pages ...string) {
	for _, pg := range pages {
		if n, bad := badUse(s.Files, s.Files[pg]); bad {
			c.mustNotLoad(siteSrc(p, s), n)
			return
		}
	}
	c.checkSite(p, s, d, pages...)
}

func init() {
	d := Data{"x": int64(5), "y": "yy", "ll": A(int64(1), int64(2)), "tt": true, "ff": false, "o": O("n", int64(3)), "u": "outer"}
	x, y, k := Var{"x"}, Var{"y"}, Var{"k"}
	args := func(kv ...any) *ObjL {
		o := &ObjL{}
		for i := 0; i+1 < len(kv); i += 2 {
			o.K = append(o.K, kv[i].(string))
			o.V = append(o.V, kv[i+1])
		}
		return o
	}
	slot := func(n string, b ...Stmt) SlotUse { return SlotUse{N: n, Has: n != "", B: b} }
	// places puts statements somewhere in a page
	nplaces := 11
	place := func(i int, f map[string][]Stmt, b ...Stmt) {
		f["lay"] = []Stmt{Text{"<"}, Reserve{"r"}, Text{">"}}
		switch i {
		case 0:
			f["p"] = b
		case 1:
			f["p"] = []Stmt{Text{"a"}, If{C: []Expr{Var{"tt"}}, B: [][]Stmt{b}}, Text{"z"}}
		case 2:
			f["p"] = []Stmt{If{C: []Expr{Var{"ff"}}, B: [][]Stmt{{Text{"no"}}}, Else: b, Has: true}}
		case 3:
			f["p"] = []Stmt{Each{V: "v", A: Var{"ll"}, B: append(b, Text{","})}}
		case 4:
			f["p"] = []Stmt{forTo("v", 2, append(b, Text{";"})...)}
		case 5:
			f["p"] = []Stmt{Use{"lay"}, Insert{N: "r", B: b}}
		case 6:
			f["p"] = []Stmt{Each{V: "v", A: ArrL{nil}, B: []Stmt{Text{"no"}}, Else: b, Has: true}}
		case 7:
			f["p"] = []Stmt{Use{"lay"}, Insert{N: "r", B: []Stmt{Each{V: "v", A: Var{"ll"}, B: b}}}}
		case 8:
			f["p"] = []Stmt{If{C: []Expr{Var{"ff"}, Var{"tt"}}, B: [][]Stmt{b, b}}}
		case 9:
			f["p"] = []Stmt{Each{V: "v", A: Var{"ll"}, B: []Stmt{forTo("w", 2, b...)}}}
		case 10:
			f["p"] = []Stmt{If{C: []Expr{Var{"ff"}}, B: [][]Stmt{b}, Else: b, Has: true}, Text{"|"}, Print1{x}}
		}
	}
	compItem := func(c *C, i int) Stmt {
		switch c.Choose(10) {
		case 0:
			return Text{fmt.Sprintf("C%d", i)}
		case 1:
			return Slot{}
		case 2:
			return Slot{"a", true}
		case 3:
			return Slot{"b", true}
		case 4:
			return Print1{k}
		case 5:
			return If{C: []Expr{k}, B: [][]Stmt{{Text{"("}, Slot{"a", true}, Text{")"}}}, Else: []Stmt{Text{"-"}}, Has: true}
		case 6:
			return If{C: []Expr{Var{"ff"}}, B: [][]Stmt{{Slot{}}}, Else: []Stmt{Slot{"b", true}, Text{"e"}}, Has: true}
		case 7:
			return Each{V: "cv", A: Var{"ll"}, B: []Stmt{Print1{Var{"cv"}}, Slot{"a", true}}}
		case 8:
			return forTo("cw", 2, Slot{}, Text{"'"})
		}
		return Print1{y}
	}
	argLists := []*ObjL{args("k", Lit{int64(1)}), args("k", Lit{int64(0)}), args("k", Lit{"s"}), args("k", Bin{"+", x, Lit{int64(1)}}, "y", Lit{"shadow"}), args("k", ArrL{ints(1, 2)}, "m", y)}
	slotSets := func(tag string) [][]SlotUse {
		a, b, e := slot("a", Text{tag + "A"}, Print1{x}), slot("b", Text{tag + "B"}), slot("", Text{tag + "D"}, Print1{y})
		return [][]SlotUse{nil, {a}, {b}, {e}, {a, b}, {b, a}, {e, a}, {a, e, b}, {slot("a")}, {slot(""), slot("b")}}
	}
	bodies := [][]Stmt{nil, {Text{" \n "}}, {Text{"t"}, Print1{y}}, {Assign{"z9", Lit{int64(1)}}, Print1{Var{"z9"}}, Text{"."}},
		{If{C: []Expr{Var{"ff"}}, B: [][]Stmt{{Text{"no"}}}, Else: []Stmt{Print1{x}}, Has: true}},
		{Each{V: "v2", A: Var{"ll"}, B: []Stmt{Print1{Var{"v2"}}, Print1{lp("last")}}}, Text{"/"}},
		{forTo("i", 3, Print1{Var{"i"}}, ContinueIf{eq(Var{"i"}, 1)}, Text{"-"})},
		{Comment{" @end "}, Text{"é}}"}}, {RawText{"\\@end", "@end"}, RawText{"\\{{ x }}", "{{ x }}"}},
		{Print1{Dot{Var{"o"}, "n"}}, Print1{ArrL{[]Expr{x, Lit{int64(2)}}}}}, {Each{V: "v2", A: ArrL{nil}, B: nil, Else: []Stmt{Text{"E"}}, Has: true}},
		{Print1{Var{"undefined9"}}}, {Text{strings.Repeat("long ", 300)}}, {Print1{Lit{"lit"}}, Text{"@"}, Text{" "}, Text{"\\"}, Text{"x"}},
		{Text{"-"}, Component{N: "inner", Args: args("q", x)}, Text{")"}},
		{Component{N: "inner", Args: args("q", Lit{int64(1)}), Slots: []SlotUse{slot("", Text{"I"})}}, Component{N: "inner", Args: args("q", Lit{int64(2)}), Slots: []SlotUse{slot("", Text{"J"}, Print1{y})}}},
		{Component{N: "inner", Args: args("q", Lit{int64(7)}), Slots: []SlotUse{slot("", Component{N: "inner", Args: args("q", Lit{int64(8)})})}}}}

	register(&Check{
		ID: "C07",
		Assumptions: []string{
			"a component used inside of another component file or of a layout file is not compared (the statement speaks of pages)",
			"whether slot bodies see the arguments of the component is open; slot bodies do not read names that are arguments",
			"an argument that shadows a variable of another type may shadow or be refused, the outer value may never show",
		},
		Families: []Family{
			{Name: "uses", Space: "component files of up to 2 (quick) / 3 (thorough) items of 10 kinds (placeholders at top level, in branches, loops, repeated) x 5 argument lists x 10 slot lists x 2 uses with different arguments/slots x 11 places", Run: func(c *C) {
				m := 2
				if c.Thorough {
					m = 3
				}
				var comp []Stmt
				for i, n := 0, c.Choose(m+1); i < n; i++ {
					comp = append(comp, compItem(c, i))
				}
				ss := slotSets("1")
				u := Component{N: "c", Args: argLists[c.Choose(len(argLists))], Slots: ss[c.Choose(len(ss))]}
				b := []Stmt{u}
				if c.Bool() {
					i := c.Choose(len(ss))
					b = append(b, Text{"+"}, Component{N: "c", Args: argLists[(i+1)%len(argLists)], Slots: slotSets("2")[i]})
				}
				f := map[string][]Stmt{"c": comp}
				pl := c.Choose(nplaces)
				place(pl, f, b...)
				if _, bad := badUse(f, f["p"]); bad && pl != 0 {
					c.Skip()
				}
				c.checkComp(styles[pl%4], &Site{Files: f}, d, "p")
			}},
			{Name: "surroundings", Space: "components that read what surrounds the use (loop variable, loop object, a variable assigned in the page or in the body, data): up to 2 of 9 kinds of item x 6 argument lists x 6 slot lists x 10 bodies around 1 or 2 uses (@each, @for, nested loops, inserts, branches on loop.first, assignments before, between and in passes)", Run: func(c *C) {
				item := func() Stmt {
					switch c.Choose(9) {
					case 0:
						return Print1{Var{"v"}}
					case 1:
						return Print1{lp("index")}
					case 2:
						return Print1{Var{"n"}}
					case 3:
						return If{C: []Expr{lp("last")}, B: [][]Stmt{{Text{"L"}}}, Else: []Stmt{Text{"-"}}, Has: true}
					case 4:
						return Slot{}
					case 5:
						return Text{"t"}
					case 6:
						return Each{V: "z", A: Var{"ll"}, B: []Stmt{Print1{Bin{"+", Var{"z"}, Var{"n"}}}}}
					case 7:
						return Braces{[]Stmt{Assign{"n", Bin{"+", Var{"n"}, Lit{int64(1)}}}}}
					}
					return Slot{"a", true}
				}
				comp := []Stmt{item()}
				if c.Bool() {
					comp = append(comp, Text{" "}, item())
				}
				var u Component
				u.N = "c"
				u.Args = []*ObjL{nil, {}, args("k", Lit{int64(1)}), args("k", Var{"v"}), args("v", Var{"n"}), args("n", Bin{"+", Var{"v"}, Var{"n"}})}[c.Choose(6)]
				sn := c.Choose(6)
				u.Slots = [][]SlotUse{nil, {slot("")}, {slot("", Text{"S"})}, {slot("", Print1{Var{"v"}})}, {slot("a", Print1{Var{"v"}}, Print1{Var{"n"}})}, {slot("", Text{"["}, Print1{lp("index")}, Text{"]"})}}[sn]
				f := map[string][]Stmt{"c": comp, "lay": {Text{"<"}, Reserve{"r"}, Text{">"}}}
				if _, bad := badUse(f, []Stmt{u}); bad {
					c.Skip()
				}
				n0 := Braces{[]Stmt{Assign{"n", Lit{int64(100)}}}}
				n1 := Braces{[]Stmt{Assign{"n", Bin{"+", Var{"n"}, Lit{int64(10)}}}}}
				each := func(b ...Stmt) Stmt { return Each{V: "v", A: Var{"ll"}, B: b} }
				sep := Text{"; "}
				switch c.Choose(10) {
				case 0:
					f["p"] = []Stmt{n0, each(u, sep)}
				case 1:
					f["p"] = []Stmt{n0, each(u, sep, u, sep)}
				case 2:
					f["p"] = []Stmt{n0, each(u, n1, sep)}
				case 3:
					f["p"] = []Stmt{n0, each(n1, u, sep)}
				case 4:
					f["p"] = []Stmt{n0, each(Each{V: "v", A: ArrL{ints(7, 8)}, B: []Stmt{u, sep}})}
				case 5:
					f["p"] = []Stmt{n0, each(If{C: []Expr{lp("first")}, B: [][]Stmt{{Text{"first "}, u}}, Else: []Stmt{u}, Has: true}, sep)}
				case 6:
					f["p"] = []Stmt{Use{"lay"}, Insert{N: "r", B: []Stmt{n0, each(u, sep)}}}
				case 7:
					f["p"] = []Stmt{n0, each(u, sep), n1, each(u, sep)}
				case 8:
					f["p"] = []Stmt{n0, each(Text{"x"}), n1, Each{V: "v", A: ArrL{ints(1, 2, 3)}, B: []Stmt{If{C: []Expr{eq(Var{"v"}, 2)}, B: [][]Stmt{{Continue{}}}}, u, sep, n1}}}
				case 9:
					if strings.Contains(styles[0].List(comp), "loop") || sn == 5 {
						c.Skip()
					}
					f["p"] = []Stmt{n0, forTo("v", 3, u, sep)}
				}
				c.checkComp(styles[0], &Site{Files: f}, d, "p", "p")
			}},
			{Name: "sequences", Space: "all sequences of up to 4 (quick) / 5 (thorough) uses from 9 kinds of use of two components (bare, arguments, slots, in loops with the loop variable as argument and slot content, in a branch), rendered twice", Run: func(c *C) {
				kinds := func(i int) Stmt {
					n := Lit{int64(i)}
					tag := fmt.Sprint("s", i)
					switch c.Choose(9) {
					case 0:
						return Component{N: "c", Args: args("k", n)}
					case 1:
						return Component{N: "c", Args: args("k", n), Slots: []SlotUse{slot("", Text{tag})}}
					case 2:
						return Component{N: "c", Args: args("k", n), Slots: []SlotUse{slot("a", Text{tag}, Print1{x}), slot("", Text{"d" + tag})}}
					case 3:
						return Component{N: "~d"}
					case 4:
						return Component{N: "components/d", Slots: []SlotUse{slot("a", Text{tag})}}
					case 5:
						return Each{V: "v", A: Var{"ll"}, B: []Stmt{Component{N: "c", Args: args("k", Bin{"+", Var{"v"}, n}), Slots: []SlotUse{slot("a", Print1{Var{"v"}}, Text{tag})}}}}
					case 6:
						return forTo("w", 2, Component{N: "~d", Args: args("k", Var{"w"}), Slots: []SlotUse{slot("a", Text{tag}, Print1{Var{"w"}})}})
					case 7:
						return If{C: []Expr{Var{"tt"}}, B: [][]Stmt{{Component{N: "c", Args: args("k", n), Slots: []SlotUse{slot("a")}}}}, Else: []Stmt{Component{N: "c", Args: args("k", Lit{int64(99)}), Slots: []SlotUse{slot("a", Text{"no"})}}}, Has: true}
					}
					return Assign{"x", n}
				}
				m := 4
				if c.Thorough {
					m = 5
				}
				var p []Stmt
				for i, n := 0, c.Choose(m)+1; i < n; i++ {
					p = append(p, kinds(i+1), Text{"\n"})
				}
				f := map[string][]Stmt{
					"c":            {Text{"<"}, Print1{k}, Text{" "}, Slot{"a", true}, Text{"|"}, Slot{}, Text{">"}},
					"components/d": {Text{"{"}, Slot{"a", true}, Text{"}"}, Slot{"a", true}, Print1{y}}, "p": p}
				c.checkComp(styles[1], &Site{Files: f}, d, "p", "p")
			}},
			{Name: "slot-bodies", Space: "17 kinds of slot body x 17 in two slots (named/default, order swapped) x a second use with other bodies x 4 layouts of the source x white space between slots", Run: func(c *C) {
				i, j := c.Choose(len(bodies)), c.Choose(len(bodies))
				a, e := slot("a", bodies[i]...), slot("", bodies[j]...)
				sl := []SlotUse{a, e}
				if c.Bool() {
					sl = []SlotUse{e, a}
				}
				st := styles[c.Choose(4)]
				st.SlotWS = []string{"", "\n\t", "  ", "\r\n"}[c.Choose(4)]
				b := []Stmt{Text{"\n"}, Component{N: "c", Slots: sl}, Text{"\n--"}, Component{N: "c", Slots: []SlotUse{slot("a", bodies[j]...)}}, Text{"$"}}
				f := map[string][]Stmt{"c": {Text{"["}, Slot{"a", true}, Text{"|"}, Slot{}, Text{"|"}, Slot{"a", true}, Text{"]"}}, "inner": {Text{"i"}, Print1{Var{"q"}}, Slot{}, Text{"i"}}}
				place([]int{0, 5, 3, 1}[c.Choose(4)], f, b...)
				c.checkComp(st, &Site{Files: f}, d, "p")
			}},
			{Name: "slot-scope", Space: "17 kinds of slot body x 8 kinds of component surrounding the placeholder (plain, branch taken or not, @each/@for of 0..2 passes, @else, after an assignment) x 3 uses", Run: func(c *C) {
				b := bodies[c.Choose(len(bodies))]
				ph := Stmt(Slot{"a", true})
				var comp []Stmt
				switch c.Choose(8) {
				case 0:
					comp = []Stmt{ph}
				case 1:
					comp = []Stmt{If{C: []Expr{k}, B: [][]Stmt{{Text{"("}, ph}}, Else: []Stmt{Text{"none"}}, Has: true}}
				case 2:
					comp = []Stmt{If{C: []Expr{k}, B: [][]Stmt{{Text{"none"}}}, Else: []Stmt{Text{"("}, ph}, Has: true}}
				case 3:
					comp = []Stmt{Each{V: "cv", A: Var{"m"}, B: []Stmt{Print1{Var{"cv"}}, ph}, Else: []Stmt{Text{"empty"}}, Has: true}}
				case 4:
					comp = []Stmt{For{Init: Assign{"ci", Lit{int64(0)}}, C: Bin{"<", Var{"ci"}, k}, Post: Print1{Post{"++", Var{"ci"}}}, B: []Stmt{Text{"~"}, ph}}}
				case 5:
					comp = []Stmt{Each{V: "cv", A: Var{"m"}, B: []Stmt{Text{"b"}}, Else: []Stmt{ph}, Has: true}, ph}
				case 6:
					comp = []Stmt{Assign{"loc", Lit{int64(4)}}, ph, Print1{Var{"loc"}}}
				case 7:
					comp = []Stmt{If{C: []Expr{k}, B: [][]Stmt{{Each{V: "cv", A: Var{"m"}, B: []Stmt{If{C: []Expr{lp("last")}, B: [][]Stmt{{ph}}, Else: []Stmt{Text{","}, ph}, Has: true}}}}}}}
				}
				f := map[string][]Stmt{"c": comp, "inner": {Text{"i"}, Print1{Var{"q"}}, Slot{}, Text{"i"}}}
				u := func(kv int64, n int) Stmt {
					return Component{N: "c", Args: args("k", Lit{kv}, "m", Lit{intArr(n)}), Slots: []SlotUse{slot("a", b...)}}
				}
				f["p"] = []Stmt{u(1, 2), Text{"\n"}, u(0, 0), Text{"\n"}, u(2, 1), Text{"\n"}, Component{N: "c", Args: args("k", Lit{int64(1)}, "m", Lit{intArr(1)})}}
				c.checkComp(styles[c.Choose(2)], &Site{Files: f}, d, "p")
			}},
			{Name: "args", Space: "every typed expression with up to 2 operators (6 types) as an argument, printed, used as a condition and loop header in the component, in a place that shadows an outer name or not", Run: func(c *C) {
				n := c.Choose(2)
				if c.Thorough {
					n = c.Choose(3)
				}
				g := &tgen{c: c, pal: c.Choose(2)}
				ty := allTypes[c.Choose(len(allTypes))]
				e := g.gen(ty, n)
				name := []string{"k", "i", "arg_1", "title"}[c.Choose(4)]
				a := Var{name}
				comp := []Stmt{Text{"<"}, Print1{a}, Text{" "}, If{C: []Expr{a}, B: [][]Stmt{{Text{"T"}}}, Else: []Stmt{Text{"F"}}, Has: true}, Slot{}}
				if ty == "arr" {
					comp = append(comp, Each{V: "ev", A: a, B: []Stmt{Print1{Var{"ev"}}, Text{";"}}})
				}
				f := map[string][]Stmt{"c": comp}
				place(c.Choose(nplaces), f, Component{N: "c", Args: args(name, e)}, Text{"/"}, Component{N: "c", Args: args(name, Lit{int64(3)}), Slots: []SlotUse{slot("", Text{"S"})}})
				dd := genData()
				for n, v := range d {
					if _, ok := dd[n]; !ok {
						dd[n] = v
					}
				}
				c.checkComp(styles[c.Choose(2)], &Site{Files: f}, dd, "p")
			}},
			{Name: "arg-order", Space: "0..4 arguments in every order with values of 7 types, each reading outer names that other arguments shadow; missing and extra arguments", Run: func(c *C) {
				names := []string{"x", "y", "k", "m"}
				n := c.Choose(5)
				var a *ObjL
				left := append([]string{}, names...)
				if n > 0 {
					a = &ObjL{}
				}
				for i := 0; i < n; i++ {
					q := c.Choose(len(left))
					a.K = append(a.K, left[q])
					left = append(left[:q:q], left[q+1:]...)
					vals := []Expr{Bin{"+", x, Lit{int64(10)}}, Bin{"+", y, Lit{"!"}}, x, Lit{nil}}
					a.V = append(a.V, vals[c.Choose(len(vals))])
				}
				comp := []Stmt{}
				for _, n := range names {
					comp = append(comp, Print1{ArrL{[]Expr{Var{n}}}}, Text{","})
					if n == "k" && c.Bool() {
						comp = []Stmt{Text{"k"}}
					}
				}
				dd := Data{"x": int64(5), "y": "yy", "k": int64(77), "m": nil}
				f := map[string][]Stmt{"c": comp, "p": {Component{N: "c", Args: a}, Text{"|"}, Print1{x}, Print1{y}, Text{"|"}, Component{N: "c", Args: args("x", x)}}}
				c.checkComp(styles[c.Choose(2)], &Site{Files: f}, dd, "p")
			}},
			{Name: "errors", Space: "undeclared slots (10 near-miss names and the default slot), slots passed twice (named/default, adjacent or not, same or other body), missing components (8 names) at 11 places, before/after healthy uses, in pages sorted before/after healthy pages; the error names the component", Run: func(c *C) {
				f := map[string][]Stmt{"cmp": {Text{"<"}, Slot{"a", true}, Slot{"bb", true}, Text{">"}}, "nod": {Slot{"a", true}}, "def": {Slot{}}}
				good := Component{N: "cmp", Slots: []SlotUse{slot("a", Text{"1"})}}
				var u Component
				switch c.Choose(4) {
				case 0:
					n := []string{"A", "aa", "b", "a ", " a", "bbb", "slot", "á", "0", "bB", ""}[c.Choose(11)]
					u = Component{N: []string{"cmp", "def"}[c.Choose(2)]}
					if u.N == "def" && n == "" {
						n = "x"
					}
					bad := slot(n, Text{"x"})
					if c.Bool() {
						bad.B = nil
					}
					u.Slots = []SlotUse{bad}
					if u.N == "cmp" {
						u.Slots = [][]SlotUse{{bad}, {slot("a", Text{"1"}), bad}, {bad, slot("a", Text{"1"})}, {slot("a"), slot("bb"), bad}}[c.Choose(4)]
					}
				case 1:
					n := []string{"a", "bb"}[c.Choose(2)]
					u = Component{N: "cmp"}
					dup := slot(n, Text{"1"})
					two := [][]Stmt{{Text{"1"}}, {Text{"2"}}, nil}[c.Choose(3)]
					u.Slots = []SlotUse{dup, slot(n, two...)}
					o := slot([]string{"bb", "a"}[b2i(n == "bb")], Text{"3"})
					switch c.Choose(4) {
					case 1:
						u.Slots = []SlotUse{dup, o, slot(n, two...)}
					case 2:
						u.Slots = []SlotUse{o, dup, slot(n, two...)}
					case 3:
						u.Slots = append(u.Slots, dup)
					}
				case 2:
					u = Component{N: "def", Slots: []SlotUse{slot("", Text{"1"}), slot("", Text{"2"})}}
					if c.Bool() {
						u.Slots = append(u.Slots, slot(""))
					}
				case 3:
					u = Component{N: []string{"nope", "Cmp", "cmp2", "cm", "~cmp", "sub/cmp", "components/cmp", "def.tw"}[c.Choose(8)]}
					if c.Bool() {
						u.Args = args("k", x)
					}
					if c.Bool() {
						u.Slots = []SlotUse{slot("a", Text{"1"})}
					}
				}
				b := []Stmt{u}
				switch c.Choose(4) {
				case 1:
					b = []Stmt{good, u}
				case 2:
					b = []Stmt{u, good}
				case 3:
					if len(u.Slots) == 0 {
						b = []Stmt{Text{"x"}, u}
					} else {
						b = []Stmt{Component{N: "cmp", Slots: []SlotUse{slot("bb", Text{"q"})}}, Component{N: u.N}, u}
					}
				}
				place(c.Choose(nplaces), f, b...)
				switch c.Choose(3) {
				case 1:
					f["aaa"] = []Stmt{good}
				case 2:
					f["zzz"] = []Stmt{good}
				}
				if _, bad := badUse(f, f["p"]); !bad {
					c.Skip()
				}
				c.checkComp(styles[c.Choose(2)], &Site{Files: f}, d, "p")
			}},
			{Name: "names", Space: "component names (nested, alias ~, dots, spaces, non-ASCII) with decoys x page names x both quote styles x 4 extensions x 4 spellings of the directory; alias and full name mixed in one page", Run: func(c *C) {
				n := []string{"c", "~c", "~a/b", "components/c", "a/b/c", "my comp", "çomp", "c.v2", "C", "c-1_x", "~card.tw", "x/~y", "~~t"}[c.Choose(13)]
				pg := []string{"p", "pages/home", "a/p", "zz.q", "components/p"}[c.Choose(5)]
				ext := []string{".tw.html", ".tw", ".html", ".x"}[c.Choose(4)]
				sp := []string{"site2", "site2/", "./site2", "site2/../site2"}[c.Choose(4)]
				p := styles[0]
				if c.Bool() {
					p.Quote = '"'
				}
				full := Alias(n, "components")
				s := &Site{Files: map[string][]Stmt{
					full: {Text{"<"}, Slot{"a", true}, Text{">"}, Print1{k}},
					pg:   {Component{N: n, Args: args("k", x), Slots: []SlotUse{slot("a", Text{"one"})}}, Component{N: full, Args: args("k", Lit{int64(2)}), Slots: []SlotUse{slot("a", Text{"two"})}}, Component{N: n, Args: args("k", Lit{int64(3)})}}}}
				for _, dn := range []string{"c", "components/a", "b", "a/b", "card", "layouts/c"} {
					if _, ok := s.Files[dn]; !ok && dn != pg {
						s.Files[dn] = []Stmt{Text{"decoy " + dn}}
					}
				}
				files := siteSrc(p, s)
				want := Render(s, s.Files[pg], d, nil)
				c.Begin(fmt.Sprintf("%s in %s ext %s render %s", showFiles(files), sp, ext, pg))
				t, err := c.loadAs("site2", sp, ext, files)
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				c.expect(render(t, pg, GoMap(d)), want)
			}},
			{Name: "pages", Space: "three pages (one with a layout) using one or two components, each page with every combination of 4 slot lists and 2 arguments; component file sorted before/between/after the pages; 3 render orders with repetitions", Run: func(c *C) {
				cn := []string{"a0", "p2x", "zz"}[c.Choose(3)]
				f := map[string][]Stmt{cn: {Text{"<"}, Print1{k}, Slot{"a", true}, Text{"|"}, Slot{}, Text{">"}}, "lay": {Text{"L"}, Reserve{"r"}, Text{"M"}}}
				for _, p := range []string{"p1", "p2", "p3"} {
					sl := [][]SlotUse{nil, {slot("a", Text{p + "a"})}, {slot("", Text{p + "d"}, Print1{x})}, {slot("", Text{p}), slot("a", Print1{y}, Text{p})}}[c.Choose(4)]
					u := Component{N: cn, Args: args("k", []Expr{Lit{p}, x}[c.Choose(2)]), Slots: sl}
					f[p] = []Stmt{u, Text{"\n"}, Component{N: cn, Args: args("k", Lit{int64(0)})}}
					if p == "p2" {
						f[p] = []Stmt{Use{"lay"}, Insert{N: "r", B: f[p]}}
					}
				}
				perm := [][]string{{"p1", "p2", "p3", "p1"}, {"p3", "p2", "p1", "p3"}, {"p2", "p1", "p2", "p3"}}[c.Choose(3)]
				c.checkComp(styles[0], &Site{Files: f}, d, perm...)
			}},
			{Name: "after-use", Space: "12 kinds of text/statement following a use with or without slots (white space and new lines are kept, @slot-like text, comments, braces, directives) x 4 places", Run: func(c *C) {
				after := []Stmt{Text{""}, Text{" "}, Text{"\n"}, Text{"\n\n  "}, Text{" x"}, Text{"\t\r\n"}, Comment{" c "}, Print1{x}, RawText{"\\@slot", "@slot"}, Text{"@slo"}, If{C: []Expr{Var{"tt"}}, B: [][]Stmt{{Text{"i"}}}}, Each{V: "e", A: Var{"ll"}, B: []Stmt{Print1{Var{"e"}}}}}
				a1, a2 := after[c.Choose(len(after))], after[c.Choose(len(after))]
				u := Component{N: "c"}
				if c.Bool() {
					u.Args = args("k", x)
				}
				switch c.Choose(3) {
				case 1:
					u.Slots = []SlotUse{slot("a", Text{"S"})}
				case 2:
					u.Slots = []SlotUse{slot("", Text{" "}), slot("a", Text{"\n"})}
				}
				st := styles[c.Choose(4)]
				st.SlotWS = []string{"", "\n "}[c.Choose(2)]
				f := map[string][]Stmt{"c": {Text{"["}, Slot{"a", true}, Slot{}, Text{"]\n"}}}
				place([]int{0, 1, 3, 5}[c.Choose(4)], f, u, a1, a2, u, a1)
				c.checkComp(st, &Site{Files: f}, d, "p")
			}},
			{Name: "ladder", Space: "n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024: n uses of one component with n arguments values and slot bodies; n slots in one component with all / every second passed in reversed order; n arguments; n components; nesting of n slot bodies (to 24); n pages", Run: func(c *C) {
				n := ladderN(c, 1025)
				f := map[string][]Stmt{"c": {Text{"<"}, Print1{k}, Slot{"a", true}, Text{"|"}, Slot{}, Text{">"}}}
				var p []Stmt
				pages := []string{"p"}
				switch m := c.Choose(7); m {
				case 0:
					for i := 0; i < n; i++ {
						u := Component{N: "c", Args: args("k", Lit{int64(i)})}
						if i%3 != 0 {
							u.Slots = append(u.Slots, slot("a", Text{fmt.Sprint("a", i)}))
						}
						if i%4 != 0 {
							u.Slots = append(u.Slots, slot("", Text{fmt.Sprint("d", i)}))
						}
						p = append(p, u)
					}
				case 1, 2:
					var comp []Stmt
					u := Component{N: "big"}
					for i := 0; i < n; i++ {
						comp = append(comp, Text{fmt.Sprintf("%d:", i)}, Slot{fmt.Sprint("s", i), true})
						if i%m == 0 {
							u.Slots = append([]SlotUse{slot(fmt.Sprint("s", i), Text{fmt.Sprint("b", i)})}, u.Slots...)
						}
					}
					f["big"] = comp
					p = []Stmt{u, Component{N: "big"}, u}
				case 3:
					a := &ObjL{}
					var comp []Stmt
					for i := 0; i < n; i++ {
						a.K = append(a.K, fmt.Sprint("k", i))
						a.V = append(a.V, Lit{int64(i)})
						comp = append(comp, Print1{Var{fmt.Sprint("k", n-1-i)}}, Text{","})
					}
					f["big"] = comp
					p = []Stmt{Component{N: "big", Args: a}}
				case 4:
					for i := 0; i < n; i++ {
						cn := fmt.Sprint("~c", i)
						f["components/c"+fmt.Sprint(i)] = []Stmt{Text{fmt.Sprint("c", i)}, Slot{}}
						p = append(p, Component{N: cn, Slots: []SlotUse{slot("", Text{fmt.Sprint("-", i)})}})
					}
				case 5:
					if n > 24 {
						c.Skip()
					}
					p = []Stmt{Text{"core"}}
					for i := 0; i < n; i++ {
						p = []Stmt{Text{"-"}, Component{N: "w", Slots: []SlotUse{slot("", p...)}}, Text{")"}}
					}
					f["w"] = []Stmt{Text{"w"}, Slot{}, Text{"W"}}
				case 6:
					pages = nil
					for i := 0; i < n; i++ {
						q := fmt.Sprint("q", i)
						f[q] = []Stmt{Component{N: "c", Args: args("k", Lit{int64(i)}), Slots: []SlotUse{slot("a", Text{q})}}}
						pages = append(pages, q)
					}
					p = []Stmt{Text{"p"}}
				}
				f["p"] = p
				c.checkComp(styles[0], &Site{Files: f}, Data{"x": int64(1)}, pages...)
			}},
		},
	})
}
