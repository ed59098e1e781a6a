package main

import (
	"fmt"
	"strings"

	. "verifmc/ref"
)

// mustFail accepts an error at load time or at render time
func (c *C) mustFail(files map[string]string, page string, d Data) {
	c.Begin(fmt.Sprintf("%s render %s", showFiles(files), page))
	t, err := c.load(files)
	if err != nil {
		c.Note("refused")
		return
	}
	if t == nil {
		return
	}
	o := render(t, page, GoMap(d))
	if o.Err == nil {
		c.Fail("rendered %q, must be an error", cut(o.S))
	} else if o.S != "" {
		c.Fail("returned output %q together with an error", cut(o.S))
	}
	c.Note("error")
}

// legalPage: the inserts are distinct and all name a reserve
func reserveNames(l []Stmt, into map[string]int) {
	for _, s := range l {
		switch s := s.(type) {
		case Reserve:
			into[s.N]++
		case If:
			for _, b := range s.B {
				reserveNames(b, into)
			}
			reserveNames(s.Else, into)
		case Each:
			reserveNames(s.B, into)
			reserveNames(s.Else, into)
		case For:
			reserveNames(s.B, into)
			reserveNames(s.Else, into)
		}
	}
}

func insertNames(l []Stmt, into map[string]int) {
	for _, s := range l {
		if s, ok := s.(Insert); ok {
			into[s.N]++
		}
	}
}

// checkLayout compares a page with a layout, or requires the refusal
func (c *C) checkLayout(p PrintStyle, s *Site, d Data, layout string, pages ...string) {
	r := map[string]int{}
	reserveNames(s.Files[layout], r)
	for _, n := range r {
		if n > 1 {
			c.Skip()
		}
	}
	bad := false
	for _, pg := range pages {
		i := map[string]int{}
		insertNames(s.Files[pg], i)
		for n, k := range i {
			if k > 1 || r[n] == 0 {
				bad = true
			}
		}
	}
	if bad {
		c.mustNotLoad(siteSrc(p, s))
		return
	}
	c.checkSite(p, s, d, pages...)
}

func init() {
	d := Data{"x": int64(5), "y": "yy", "l": A(int64(1), int64(2)), "t": true, "f": false, "o": O("n", int64(3))}
	x, y := Var{"x"}, Var{"y"}
	layoutItem := func(c *C, i int) Stmt {
		switch c.Choose(11) {
		case 0:
			return Text{fmt.Sprintf("L%d", i)}
		case 1:
			return Reserve{"a"}
		case 2:
			return Reserve{"b"}
		case 3:
			return Reserve{"aa"}
		case 4:
			return Print1{x}
		case 5:
			return If{C: []Expr{Var{"t"}}, B: [][]Stmt{{Text{"("}, Reserve{"a"}, Text{")"}}}}
		case 6:
			return If{C: []Expr{Var{"f"}}, B: [][]Stmt{{Reserve{"a"}}}, Else: []Stmt{Text{"-"}}, Has: true}
		case 7:
			return If{C: []Expr{Var{"f"}}, B: [][]Stmt{{Text{"-"}}}, Else: []Stmt{Reserve{"b"}}, Has: true}
		case 8:
			return Each{V: "lv", A: Var{"l"}, B: []Stmt{Print1{Var{"lv"}}, Reserve{"b"}}}
		case 9:
			return forTo("lw", 2, Reserve{"a"}, Text{","})
		}
		return Each{V: "lv", A: ArrL{nil}, B: nil, Else: []Stmt{Text{"e"}, Reserve{"b"}}, Has: true}
	}
	pageItem := func(c *C, i int) Stmt {
		n := []string{"a", "b", "aa"}
		switch k := c.Choose(9); k {
		case 0:
			return Text{fmt.Sprintf("P%d", i)}
		case 1, 2, 3:
			return Insert{N: n[k-1], B: []Stmt{Text{"<"}, Print1{x}, Text{">"}}}
		case 4, 5, 6:
			return Insert{N: n[k-4], Arg: Bin{"+", x, Lit{int64(1)}}}
		case 7:
			return Print1{y}
		}
		return Insert{N: "b"}
	}
	bodies := [][]Stmt{nil, {Text{" \n "}}, {Text{"t"}, Print1{y}}, {Assign{"z", Lit{int64(1)}}, Print1{Var{"z"}}, Text{"."}},
		{If{C: []Expr{Var{"f"}}, B: [][]Stmt{{Text{"no"}}}, Else: []Stmt{Print1{x}}, Has: true}},
		{Each{V: "v", A: Var{"l"}, B: []Stmt{Print1{Var{"v"}}, Print1{lp("last")}}}, Text{"/"}},
		{forTo("i", 3, Print1{Var{"i"}}, ContinueIf{eq(Var{"i"}, 1)}, Text{"-"})},
		{Comment{" @end "}, Text{"é}}"}}, {RawText{"\\@end", "@end"}, RawText{"\\{{ x }}", "{{ x }}"}},
		{Print1{Dot{Var{"o"}, "n"}}, Print1{ArrL{[]Expr{x, Lit{int64(2)}}}}}, {Each{V: "v", A: ArrL{nil}, B: nil, Else: []Stmt{Text{"E"}}, Has: true}},
		{Print1{Var{"undefined9"}}}, {Component{N: "comp", Args: &ObjL{[]string{"k"}, []Expr{x}}, Slots: []SlotUse{{N: "s", Has: true, B: []Stmt{Text{"S"}, Print1{y}}}}}},
		{Component{N: "comp", Args: &ObjL{[]string{"k"}, ints(1)}}, Component{N: "comp", Args: &ObjL{[]string{"k"}, ints(2)}}},
		{Text{strings.Repeat("long ", 300)}}, {Print1{Lit{"lit"}}, Text{"@"}, Text{" "}, Text{"\\"}, Text{"x"}}}
	comp := []Stmt{Text{"["}, Print1{Var{"k"}}, Slot{"s", true}, Text{"]"}}

	register(&Check{
		ID: "C06",
		Assumptions: []string{
			"components used inside of layout files, @insert nested in other blocks, and variables assigned by the layout or outside of the inserts are not compared",
			"'reported as errors' is satisfied by an error from NewTemplate or from the render; undefined and duplicate inserts and missing layouts have to fail at load time",
		},
		Families: []Family{
			{Name: "matching", Space: "layouts of up to 3 items (11 kinds: reserves at top level, in branches, loops, loop @else) x pages of up to 3 (quick) / 4 (thorough) items (inserts of both forms, text, code) x @use first, in the middle or last", Run: func(c *C) {
				var lay, page []Stmt
				for i, n := 0, c.Choose(4); i < n; i++ {
					lay = append(lay, layoutItem(c, i))
				}
				m := 3
				if !c.Thorough && len(lay) == 3 {
					m = 2
				}
				if c.Thorough && len(lay) < 3 {
					m = 4
				}
				n := c.Choose(m + 1)
				at := c.Choose(n + 1)
				if n > 2 && at != 0 && at != n {
					c.Skip()
				}
				for i := 0; i <= n; i++ {
					if i == at {
						page = append(page, Use{"lay"})
					}
					if i < n {
						page = append(page, pageItem(c, i))
					}
				}
				c.checkLayout(styles[1], &Site{Files: map[string][]Stmt{"lay": lay, "p": page}}, d, "lay", "p")
			}},
			{Name: "content", Space: "16 kinds of insert body x 16 in two reserves at 5 places of the layout, block form, with other pages around, x layouts", Run: func(c *C) {
				b1, b2 := bodies[c.Choose(len(bodies))], bodies[c.Choose(len(bodies))]
				ra, rb := Stmt(Reserve{"a"}), Stmt(Reserve{"b"})
				switch c.Choose(5) {
				case 1:
					ra = If{C: []Expr{Var{"t"}}, B: [][]Stmt{{ra, Text{","}}}}
				case 2:
					ra = Each{V: "lv", A: Var{"l"}, B: []Stmt{Text{"{"}, ra, Print1{lp("iter")}}}
				case 3:
					rb = forTo("lw", 2, Text{"{"}, rb, Print1{Var{"lw"}})
				case 4:
					ra, rb = rb, ra
				}
				lay := []Stmt{Text{"<h>"}, ra, Text{"<b>"}, rb, Text{"<f>"}, Print1{x}}
				p := []Stmt{Use{"lay"}, Text{"\n\n"}, Insert{N: "a", B: b1}, Text{"\nignored"}, Insert{N: "b", B: b2}, Text{"\n"}}
				c.checkSite(styles[c.Choose(4)], &Site{Files: map[string][]Stmt{"lay": lay, "p": p, "comp": comp}}, d, "p")
			}},
			{Name: "expressions", Space: "every typed expression with up to 2 operators (6 types) as the value of an insert's expression form, next to a block insert", Run: func(c *C) {
				n := c.Choose(3)
				if !c.Thorough && n == 2 {
					n = 1 + c.Choose(2)
				}
				g := &tgen{c: c, pal: c.Choose(2)}
				e := g.gen(allTypes[c.Choose(len(allTypes))], n)
				lay := []Stmt{Text{"<"}, Reserve{"a"}, Text{"|"}, Reserve{"b"}, Text{">"}}
				p := []Stmt{Use{"lay"}, Insert{N: "a", Arg: e}, Insert{N: "b", B: []Stmt{Print1{e}}}}
				c.checkSite(styles[c.Choose(2)], &Site{Files: map[string][]Stmt{"lay": lay, "p": p}}, genData(), "p")
			}},
			{Name: "errors", Space: "undefined insert (12 near-miss names), duplicate inserts (4 form pairs, adjacent or not), missing layout (6 names), layout using a layout (4 shapes), page using itself, among 0..2 healthy pages sorted before/after", Run: func(c *C) {
				f := map[string]string{"lay": "<@reserve('a')|@reserve('b')>"}
				for i := c.Choose(3); i > 0; i-- {
					f[[]string{"", "aaa", "zzz"}[i]] = "@use('lay')@insert('a', 1)"
				}
				use := "@use('lay')"
				switch c.Choose(5) {
				case 0:
					n := []string{"c", "A", "aa", "", "a ", " a", "ab", "b2", "á", "0", "title", "reserve"}[c.Choose(12)]
					in := []string{"@insert('" + n + "', 1)", "@insert('" + n + "')x@end", "@insert('" + n + "')@end"}[c.Choose(3)]
					f["p"] = []string{use + in, use + "@insert('a', 1)" + in, use + in + "@insert('b', 2)", in + use, "text" + use + "\n" + in}[c.Choose(5)]
					w := []string{n}
					c.mustNotLoad(f, w...)
				case 1:
					n := []string{"a", "b"}[c.Choose(2)]
					a := []string{"@insert('" + n + "', 1)", "@insert('" + n + "')x@end", "@insert(\"" + n + "\", 'x')"}
					mid := []string{"", "text", "@insert('" + []string{"b", "a"}[b2i(n == "b")] + "', 5)"}[c.Choose(3)]
					f["p"] = use + a[c.Choose(3)] + mid + a[c.Choose(3)]
					if c.Bool() {
						f["p"] += a[0]
					}
					c.mustNotLoad(f, n)
				case 2:
					n := []string{"nope", "Lay", "lay2", "sub/lay", "~lay", "la"}[c.Choose(6)]
					f["p"] = []string{"@use('" + n + "')", "@use('" + n + "')@insert('a', 1)", "x @use(\"" + n + "\")"}[c.Choose(3)]
					c.mustNotLoad(f, strings.Replace(n, "~", "layouts/", 1))
				case 3:
					inner := []string{"@use('lay')", "@use('lay')@insert('a', 1)", "@use('lay')@reserve('q')", "x@use('lay')@reserve('a')"}[c.Choose(4)]
					f["lay2"] = inner
					f["p"] = []string{"@use('lay2')", "@use('lay2')@insert('q', 1)", "@use('lay2')@insert('a', 1)"}[c.Choose(3)]
					c.mustFail(f, "p", d)
				case 4:
					f["p"] = []string{"@use('p')", "@use('p')@insert('a', 1)", "@use('p')@reserve('a')"}[c.Choose(3)]
					c.mustFail(f, "p", d)
				}
			}},
			{Name: "names", Space: "layout names (nested, alias ~, dots, spaces, non-ASCII, leading and doubled segments) x page names x both quote styles x 4 extensions x 4 spellings of the directory", Run: func(c *C) {
				n := []string{"lay", "~lay", "~a/b", "layouts/lay", "a/b/c", "my layout", "läy", "lay.v2", "LAY", "l-1_x", "~main.tw", "x/~y", "~~t"}[c.Choose(13)]
				pg := []string{"p", "pages/home", "a/p", "zz.q", "layouts/p"}[c.Choose(5)]
				ext := []string{".tw.html", ".tw", ".html", ".x"}[c.Choose(4)]
				sp := []string{"site2", "site2/", "./site2", "site2/../site2"}[c.Choose(4)]
				p := styles[0]
				if c.Bool() {
					p.Quote = '"'
				}
				s := &Site{Files: map[string][]Stmt{
					Alias(n, "layouts"): {Text{"<"}, Reserve{"a"}, Text{">"}, Print1{x}},
					pg:                  {Use{n}, Insert{N: "a", B: []Stmt{Text{"in"}, Print1{y}}}}}}
				// decoys
				for _, dn := range []string{"lay", "layouts/a", "b", "a/b", "main"} {
					if _, ok := s.Files[dn]; !ok && dn != pg {
						s.Files[dn] = []Stmt{Text{"decoy " + dn}}
					}
				}
				files := siteSrc(p, s)
				want := Render(s, s.Files[pg], d, nil)
				c.Begin(fmt.Sprintf("%s in %s ext %s render %s", showFiles(files), sp, ext, pg))
				t, err := c.loadAs("site2", sp, ext, files)
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				c.expect(render(t, pg, GoMap(d)), want)
			}},
			{Name: "sharing", Space: "3 pages sharing one or two layouts, each with every subset of inserts in both forms, rendered in every order and repeatedly; layout sorted before/between/after the pages; plus a page without a layout", Run: func(c *C) {
				ln := []string{"a0", "p2x", "zz"}[c.Choose(3)]
				two := c.Bool()
				f := map[string][]Stmt{ln: {Text{"<"}, Reserve{"a"}, Text{"|"}, Reserve{"b"}, Text{">"}}}
				if two {
					f["k9"] = []Stmt{Text{"{"}, Reserve{"b"}, Text{"/"}, Reserve{"a"}, Text{"}"}}
				}
				pages := []string{"p1", "p2", "p3"}
				for i, p := range pages {
					u := ln
					if two && i == 1 {
						u = "k9"
					}
					l := []Stmt{Use{u}}
					for _, n := range []string{"a", "b"} {
						switch c.Choose(3) {
						case 1:
							l = append(l, Insert{N: n, B: []Stmt{Text{p + n}, Print1{x}}})
						case 2:
							l = append(l, Insert{N: n, Arg: Lit{p + n + "e"}})
						}
					}
					f[p] = l
				}
				f["plain"] = []Stmt{Text{"plain"}, Print1{y}}
				perm := [][]string{{"p1", "p2", "p3", "plain", "p1"}, {"p3", "p2", "p1", "p3"}, {"p2", "plain", "p1", "p2", "p3"}}[c.Choose(3)]
				c.checkSite(styles[1], &Site{Files: f}, d, perm...)
			}},
			{Name: "ladder", Space: "n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024 reserves with all / every second / no insert in reversed order; contents of n repetitions; n pages on one layout", Run: func(c *C) {
				n := ladderN(c, 1025)
				k := c.Choose(6)
				var lay []Stmt
				p := []Stmt{Use{"lay"}}
				f := map[string][]Stmt{}
				pages := []string{"p"}
				switch k {
				case 0, 1, 2, 3:
					for i := 0; i < n; i++ {
						lay = append(lay, Text{fmt.Sprintf("<%d ", i)}, Reserve{fmt.Sprint("r", i)}, Text{">"})
						if k == 3 || i%(k+1) != 0 {
							continue
						}
						var in Stmt = Insert{N: fmt.Sprint("r", i), B: []Stmt{Text{fmt.Sprint("c", i)}}}
						if i%2 == 1 {
							in = Insert{N: fmt.Sprint("r", i), Arg: Lit{int64(i)}}
						}
						p = append([]Stmt{p[0], in}, p[1:]...)
					}
				case 4:
					lay = []Stmt{Reserve{"r"}}
					p = append(p, Insert{N: "r", B: []Stmt{Text{strings.Repeat("0123456789", n*10)}, Each{V: "v", A: Lit{intArr(n)}, B: []Stmt{Print1{Var{"v"}}}}}})
				case 5:
					lay = []Stmt{Reserve{"r"}, Text{"."}}
					pages = nil
					for i := 0; i < n; i++ {
						q := fmt.Sprint("q", i)
						f[q] = []Stmt{Use{"lay"}, Insert{N: "r", B: []Stmt{Text{q}}}}
						pages = append(pages, q)
					}
				}
				f["lay"] = lay
				f["p"] = p
				c.checkSite(styles[0], &Site{Files: f}, nil, pages...)
			}},
		},
	})
}
