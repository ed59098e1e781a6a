package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"sync"

	textwire "github.com/textwire/textwire/v2"

	. "verifmc/ref"
)

type tv struct {
	x Expr
	d Data
}

// truthValues are values of every kind together with ways of producing them
func truthValues() []tv {
	vals := []Value{nil, true, false, int64(0), int64(1), int64(-1), int64(2), int64(100), int64(1) << 31, int64(1) << 32, int64(1) << 40, int64(math.MinInt64), int64(math.MaxInt64), int64(-256), int64(256),
		0.0, 0.5, -0.5, 1.0, 0.1, 0.9, -0.001, 1e-300, 1e300, math.Inf(1), math.NaN(), 2.0, 256.0, 0.25,
		"", " ", "0", "false", "nil", "a", "\n", "é", "0.0", "no", "\x00",
		A(), A(int64(0)), A(nil), A(false), A(""), A(A()), O(), O("a", int64(0)), O("n", nil), O("", false), O("b", O())}
	var r []tv
	add := func(x Expr, d Data) { r = append(r, tv{x, d}) }
	for i, v := range vals {
		d := Data{"v": v}
		add(Var{"v"}, d)
		add(Idx{Var{"l"}, Lit{int64(1)}}, Data{"l": A(int64(9), v)})
		add(Dot{Var{"o"}, "p"}, Data{"o": O("p", v, "q", int64(1))})
		add(Tern{Lit{true}, Var{"v"}, Lit{int64(3)}}, d)
		if f, ok := v.(float64); ok && (Odd(v) || math.Abs(f) > 1e6) {
			continue
		}
		if v == int64(math.MinInt64) {
			continue
		}
		if s, ok := v.(string); ok && strings.ContainsAny(s, "\x00") {
			continue
		}
		if o, ok := v.(*Obj); ok && len(o.M) > 0 {
			if _, bad := o.M[""]; bad {
				continue
			}
		}
		add(Par{Lit{v}}, nil)
		_ = i
	}
	one := Lit{int64(1)}
	for _, x := range []Expr{
		Bin{"-", one, one}, Bin{"==", one, one}, Bin{"!=", one, one}, Bin{"<", one, Lit{int64(2)}}, Bin{">", one, Lit{int64(2)}},
		Un{"!", Lit{true}}, Un{"!", Un{"!", Lit{true}}}, Un{"-", one}, Un{"-", Lit{int64(0)}}, Post{"--", Par{one}}, Post{"++", Par{Lit{int64(-1)}}}, Bin{"*", Lit{0.0}, Lit{5.0}}, Bin{"-", Lit{0.5}, Lit{0.25}},
		Call{Lit{""}, "len", nil}, Call{Lit{"a"}, "len", nil}, Call{Lit{" "}, "trim", nil}, Bin{"+", Lit{""}, Lit{""}}, Bin{"+", Lit{""}, Lit{"x"}},
		Call{ArrL{nil}, "len", nil}, Call{ArrL{ints(0)}, "slice", []Expr{one}}, Call{ArrL{ints(4)}, "contains", []Expr{Lit{int64(4)}}}, Call{ArrL{ints(4)}, "contains", []Expr{Lit{int64(5)}}},
		Idx{ArrL{ints(1)}, Lit{int64(7)}}, Call{Lit{false}, "binary", nil}, Call{Lit{false}, "then", []Expr{one}}, Call{Lit{true}, "then", []Expr{Lit{false}}}, Call{Lit{""}, "first", nil}, Call{Lit{0.4}, "round", nil}, Call{Lit{0.4}, "ceil", nil},
		Un{"!", Lit{nil}},
	} {
		add(x, nil)
	}
	return r
}

// failing expressions of many kinds
var failExprs = []Expr{
	Var{"undef"}, Bin{"/", Lit{int64(1)}, Lit{int64(0)}}, Bin{"+", Lit{int64(1)}, Lit{"s"}}, Dot{Lit{"s"}, "p"},
	Call{Lit{int64(1)}, "nosuch", nil}, Idx{Lit{true}, Lit{int64(0)}}, Un{"-", Lit{"s"}}, Un{"!", Lit{int64(1)}}, Post{"++", Lit{"s"}},
	Dot{Par{ObjL{[]string{"a"}, ints(1)}}, "b"}, Call{Lit{"a"}, "repeat", []Expr{Lit{int64(-1)}}}, ArrL{[]Expr{Var{"undef"}}},
	Tern{Var{"undef"}, Lit{true}, Lit{true}}, Par{ObjL{[]string{"a"}, []Expr{Var{"undef"}}}},
}

func init() {
	tvs := truthValues()
	tru := []Expr{Lit{true}, Lit{int64(1)}, Lit{"x"}, ArrL{nil}, Var{"t"}, Bin{"<", Lit{int64(1)}, Lit{int64(2)}}}
	fal := []Expr{Lit{false}, Lit{int64(0)}, Lit{""}, Lit{nil}, Var{"f"}, Bin{">", Lit{int64(1)}, Lit{int64(2)}}, Lit{0.0}}
	tf := Data{"t": true, "f": false, "n": int64(3), "s": "str", "l": A(int64(1), int64(2))}

	// one if construct whose bodies are produced by body(i)
	ifOf := func(c *C, k int, has bool, cond func(i int) Expr, body func(i int) []Stmt) If {
		s := If{Has: has}
		for i := 0; i < k; i++ {
			s.C = append(s.C, cond(i))
			s.B = append(s.B, body(i))
		}
		if has {
			s.Else = body(k)
		}
		return s
	}

	register(&Check{
		ID:          "C02",
		Assumptions: []string{"stray directives (@else/@end without a construct) are not part of the property"},
		Families: []Family{
			{Name: "truthiness", Space: "every value of a table of 52 values of all kinds, as variable, element, property, ternary result, literal, and 30 computed values x 12 places that test a condition x layouts", Run: func(c *C) {
				v := tvs[c.Choose(len(tvs))]
				T, F := []Stmt{Text{"T"}}, []Stmt{Text{"F"}}
				l1 := ArrL{ints(1, 2)}
				var l []Stmt
				switch c.Choose(12) {
				case 0:
					l = []Stmt{If{C: []Expr{v.x}, B: [][]Stmt{T}, Else: F, Has: true}}
				case 1:
					l = []Stmt{If{C: []Expr{v.x}, B: [][]Stmt{T}}}
				case 2:
					l = []Stmt{If{C: []Expr{Lit{false}, v.x}, B: [][]Stmt{{Text{"0"}}, T}, Else: F, Has: true}}
				case 3:
					l = []Stmt{If{C: []Expr{Lit{false}, Lit{nil}, v.x, Lit{true}}, B: [][]Stmt{{Text{"0"}}, {Text{"1"}}, T, F}}}
				case 4:
					l = []Stmt{Print1{Tern{v.x, Lit{"T"}, Lit{"F"}}}}
				case 5:
					l = []Stmt{Print1{Tern{Lit{false}, Lit{"0"}, Tern{v.x, Lit{"T"}, Lit{"F"}}}}}
				case 6:
					l = []Stmt{Each{V: "w", A: l1, B: []Stmt{Text{"a"}, BreakIf{v.x}, Text{"b"}}}}
				case 7:
					l = []Stmt{Each{V: "w", A: l1, B: []Stmt{Text{"a"}, ContinueIf{v.x}, Text{"b"}}}}
				case 8:
					l = []Stmt{For{Init: Assign{"q", Lit{int64(0)}}, C: Bin{"<", Var{"q"}, Lit{int64(3)}}, Post: Print1{Post{"++", Var{"q"}}}, B: []Stmt{Text{"a"}, BreakIf{v.x}, Text{"b"}}}}
				case 9:
					l = []Stmt{For{Init: Assign{"q", Lit{int64(0)}}, C: v.x, B: []Stmt{Text{"a"}, Break{}}, Else: F, Has: true}}
				case 10:
					l = []Stmt{Each{V: "w", A: l1, B: []Stmt{If{C: []Expr{v.x}, B: [][]Stmt{{Text{"T"}, Continue{}}}, Else: F, Has: true}, Text{"."}}}}
				case 11:
					l = []Stmt{Each{V: "w", A: ArrL{[]Expr{v.x}}, B: []Stmt{If{C: []Expr{Var{"w"}}, B: [][]Stmt{T}, Else: F, Has: true}}}}
				}
				l = append(append([]Stmt{Text{"<"}}, l...), Text{">"})
				c.checkStr(c.style(), l, v.d)
			}},
			{Name: "branches", Space: "constructs of 1..5 (quick) / 1..6 branches, each condition true, false or failing, with/without @else, x kinds of true/false/failing condition x layouts", Run: func(c *C) {
				max := 5
				if c.Thorough {
					max = 6
				}
				k := c.Choose(max) + 1
				has := c.Bool()
				kind := c.Choose(7)
				s := ifOf(c, k, has, func(i int) Expr {
					switch c.Choose(3) {
					case 0:
						return tru[(kind+i)%len(tru)]
					case 1:
						return fal[(kind+i)%len(fal)]
					}
					return failExprs[(kind*2+i)%len(failExprs)]
				}, func(i int) []Stmt { return []Stmt{Text{fmt.Sprintf("B%d", i)}} })
				c.checkStr(styles[c.Choose(3)], []Stmt{Text{"<"}, s, Text{">"}}, tf)
			}},
			{Name: "side-conditions", Space: "14 kinds of failing condition after/at/before the chosen branch, in up to 4 branches; failing expressions in bodies that are not chosen", Run: func(c *C) {
				fx := failExprs[c.Choose(len(failExprs))]
				k := c.Choose(4) + 1
				chosen := c.Choose(k + 1)
				at := c.Choose(k)
				badBody := c.Choose(k + 2)
				s := ifOf(c, k, c.Bool(), func(i int) Expr {
					if i == at && i != chosen {
						return fx
					}
					if i == chosen {
						return Lit{true}
					}
					return Lit{false}
				}, func(i int) []Stmt {
					b := []Stmt{Text{fmt.Sprintf("B%d", i)}}
					if i == badBody {
						b = append(b, Print1{fx})
					}
					return b
				})
				c.checkStr(styles[c.Choose(2)], []Stmt{Text{"<"}, s, Text{">"}}, tf)
			}},
			{Name: "trees", Space: "all statement lists with up to 3 (quick) / 4 (thorough) statements built from nested @if constructs of 1..3 branches with/without @else, conditions true/false, text in all gaps, in none, not at ends, not at starts, only at the ends of bodies", Run: func(c *C) {
				max := 3
				if c.Thorough {
					max = 4
				}
				n := c.Choose(max) + 1
				g := &sgen{c: c}
				if n < max || c.Thorough {
					g.gaps = c.Choose(5)
				}
				g.simple = func(g *sgen, loop bool) Stmt { return Print1{Var{"n"}} }
				for br := 1; br <= 3; br++ {
					for e := 0; e < 2; e++ {
						br, e := br, e
						g.comp = append(g.comp, func(g *sgen, n int, loop bool) Stmt {
							sp := g.split(n-1, br+e)
							s := If{Has: e == 1}
							for i := 0; i < br; i++ {
								s.C = append(s.C, []Expr{Lit{true}, Lit{false}}[g.c.Choose(2)])
								s.B = append(s.B, g.list(sp[i], loop))
							}
							if e == 1 {
								s.Else = g.list(sp[br], loop)
							}
							return s
						})
					}
				}
				c.checkStr(styles[1], g.list(n, false), tf)
			}},
			{Name: "bodies", Space: "20 kinds of body (empty, text with directive-like prefixes, braces, comments, escapes, nested constructs) in every branch of constructs of up to 3 branches x layouts", Run: func(c *C) {
				inner := If{C: []Expr{Var{"f"}}, B: [][]Stmt{{Text{"x"}}}, Else: []Stmt{Text{"y"}}, Has: true}
				bodies := [][]Stmt{nil, {Text{"text"}}, {Text{"i"}}, {Text{" if"}}, {Text{"I"}}, {Text{"\n"}}, {Text{"}}"}}, {Text{")"}}, {Text{"("}}, {Text{"\r\n\t"}}, {Text{"@"}, Text{" e"}}, {RawText{"\\@end", "@end"}, Text{"x"}}, {RawText{"\\@else", "@else"}, Text{"x"}}, {RawText{"\\{{ 1 }}", "{{ 1 }}"}},
					{Comment{" @end @else "}}, {Print1{Var{"n"}}}, {Assign{"z", Lit{int64(1)}}, Print1{Var{"z"}}}, {inner}, {Each{V: "v", A: Var{"l"}, B: []Stmt{Print1{Var{"v"}}}, Else: []Stmt{Text{"e"}}, Has: true}}, {Text{"é"}, Print1{Lit{"@end"}}, Text{"\\"}, Text{"x"}}, {Braces{[]Stmt{Assign{"z", Lit{"@else"}}, Print1{Var{"z"}}}}}}
				k := c.Choose(3) + 1
				has := c.Bool()
				which := c.Choose(k + 2)
				b := bodies[c.Choose(len(bodies))]
				d := bodies[c.Choose(3)]
				s := ifOf(c, k, has, func(i int) Expr {
					if i == which {
						return Lit{true}
					}
					return Lit{false}
				}, func(i int) []Stmt {
					if i == which || i == k {
						return b
					}
					return d
				})
				after := []Stmt{Text{"@"}, Text{"x"}, Text{"\n"}, Text{"}}"}, Text{""}}[c.Choose(5)]
				c.checkStr(c.style(), []Stmt{Text{"<"}, s, after}, tf)
			}},
			{Name: "places", Space: "constructs of up to 3 branches with/without @else inside @each, @for, loop @else, @if, inserts, slots, components, layouts", Run: func(c *C) {
				k := c.Choose(3) + 1
				s := ifOf(c, k, c.Bool(), func(i int) Expr {
					return []Expr{Bin{"==", Var{"v"}, Lit{int64(i + 1)}}, Lit{false}, Lit{true}}[c.Choose(3)]
				}, func(i int) []Stmt { return []Stmt{Text{fmt.Sprintf("B%d", i)}} })
				body := []Stmt{Text{"<"}, s, Text{">"}}
				arr := ArrL{ints(1, 2, 3)}
				switch c.Choose(9) {
				case 0:
					c.checkStr(styles[0], []Stmt{Each{V: "v", A: arr, B: body}}, tf)
				case 1:
					c.checkStr(styles[0], []Stmt{For{Init: Assign{"v", Lit{int64(1)}}, C: Bin{"<=", Var{"v"}, Lit{int64(4)}}, Post: Print1{Post{"++", Var{"v"}}}, B: body}}, tf)
				case 2:
					c.checkStr(styles[0], []Stmt{Assign{"v", Lit{int64(2)}}, Each{V: "w", A: ArrL{nil}, B: []Stmt{Text{"no"}}, Else: body, Has: true}}, tf)
				case 3:
					c.checkStr(styles[0], []Stmt{Each{V: "v", A: arr, B: []Stmt{If{C: []Expr{Bin{">", Var{"v"}, Lit{int64(1)}}}, B: [][]Stmt{body}, Else: []Stmt{Text{"-"}}, Has: true}}}}, tf)
				case 4:
					c.checkStr(styles[0], []Stmt{Each{V: "v", A: arr, B: []Stmt{If{C: []Expr{Lit{false}}, B: [][]Stmt{{Text{"no"}}}, Else: body, Has: true}}}}, tf)
				case 5:
					c.checkSite(styles[0], &Site{Files: map[string][]Stmt{"lay": {Text{"l"}, Reserve{"a"}, Text{"m"}}, "p": {Use{"lay"}, Insert{N: "a", B: body}}}}, Data{"v": int64(2)}, "p")
				case 6:
					c.checkSite(styles[0], &Site{Files: map[string][]Stmt{"lay": append([]Stmt{Reserve{"a"}}, body...), "p": {Use{"lay"}}}}, Data{"v": int64(1)}, "p")
				case 7:
					c.checkSite(styles[0], &Site{Files: map[string][]Stmt{"c": body, "p": {Each{V: "q", A: arr, B: []Stmt{Component{N: "c", Args: &ObjL{[]string{"v"}, []Expr{Var{"q"}}}}}}}}}, nil, "p")
				case 8:
					c.checkSite(styles[0], &Site{Files: map[string][]Stmt{"c": {Text{"c"}, Slot{"s", true}, Text{"d"}}, "p": {Each{V: "v", A: arr, B: []Stmt{Component{N: "c", Slots: []SlotUse{{N: "s", Has: true, B: body}}}}}}}}, nil, "p")
				}
			}},
			{Name: "evaluated", Space: "constructs of 1..4 branches, ternaries nested up to 2 levels in both parts, @breakIf/@continueIf in loops, all with conditions, bodies and parts that record their evaluation in a custom function, every truth vector, nested up to 2 (quick) / 3 (thorough) constructs: exactly what the model evaluates is evaluated", Run: func(c *C) {
				once02.Do(func() {
					textwire.RegisterBoolFunc("obs02", func(b bool, a ...any) bool {
						log02 = append(log02, fmt.Sprint(a...))
						return b
					})
				})
				id, n := 0, 0
				obs := func(v bool) Expr {
					id++
					return Call{Lit{v}, "obs02", ints(int64(id))}
				}
				max := 2
				if c.Thorough {
					max = 3
				}
				g := &sgen{c: c}
				var tern func(d int) Expr
				tern = func(d int) Expr {
					if d == 0 {
						return obs(true)
					}
					x := Tern{C: obs(c.Bool())}
					k := c.Choose(3)
					x.T, x.E = obs(false), obs(true)
					if k == 1 {
						x.T = Par{tern(d - 1)}
					}
					if k == 2 {
						x.E = tern(d - 1)
					}
					return x
				}
				g.simple = func(g *sgen, loop bool) Stmt {
					k := c.Choose(4)
					if k > 1 && !loop {
						c.Skip()
					}
					switch k {
					case 0:
						return Print1{obs(true)}
					case 1:
						d := 1
						if n < 3 {
							d += c.Choose(2)
						}
						return Print1{tern(d)}
					case 2:
						return BreakIf{obs(c.Bool())}
					}
					return ContinueIf{tern(1)}
				}
				n = 1 + c.Choose(max)
				for br := 1; br <= 4 && (n < 3 || br < 4); br++ {
					for e := 0; e < 2; e++ {
						g.comp = append(g.comp, func(g *sgen, n int, loop bool) Stmt {
							sp := g.split(n-1, br+e)
							s := If{Has: e == 1}
							for i := 0; i < br; i++ {
								x := obs(c.Bool())
								s.C = append(s.C, x)
								s.B = append(s.B, append(g.list(sp[i], loop), Print1{obs(true)}))
							}
							if e == 1 {
								s.Else = append(g.list(sp[br], loop), Print1{obs(true)})
							}
							return s
						})
					}
				}
				g.comp = append(g.comp, func(g *sgen, n int, loop bool) Stmt {
					a := ArrL{ints(1, 2)}
					if c.Bool() {
						a = ArrL{}
					}
					return Each{V: "v", A: a, B: g.list(n-1, true), Else: []Stmt{Print1{obs(true)}}, Has: true}
				})
				l := g.list(n, false)
				src := styles[1].List(l)
				var want []string
				r := Render(nil, l, nil, map[string]map[string]func(Value, []Value) (Value, *Fail){TypeOf(true): {"obs02": func(v Value, a []Value) (Value, *Fail) {
					want = append(want, fmt.Sprint(a[0]))
					return v, nil
				}}})
				c.Begin(fmt.Sprintf("%q", src))
				log02 = nil
				c.expect(evalString(src, nil), r)
				for _, x := range want {
					if !slices.Contains(log02, x) {
						c.Fail("%s was not evaluated; evaluated: %v, must be: %v", x, log02, want)
					}
				}
				for _, x := range log02 {
					if !slices.Contains(want, x) {
						c.Fail("%s was evaluated, only these must be: %v", x, want)
					}
				}
			}},
			{Name: "ladder", Space: "n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024 branches with each single branch true (or none); nesting depth n through then/else/elseif; n constructs in a row", Run: func(c *C) {
				n := ladderN(c, 1025)
				k := c.Choose(6)
				var l []Stmt
				switch k {
				case 0, 1:
					w := []int{0, 1, n / 2, n - 2, n - 1, n}[c.Choose(6)]
					l = []Stmt{ifOf(c, n, k == 1, func(i int) Expr { return Bin{"==", Lit{int64(i)}, Lit{int64(w)}} }, func(i int) []Stmt { return []Stmt{Text{fmt.Sprintf("B%d.", i)}} })}
				case 2, 3, 4:
					t := c.Bool()
					l = []Stmt{Text{"x"}}
					for i := 0; i < n; i++ {
						a, b := []Stmt{Text{fmt.Sprintf("a%d", i)}}, []Stmt{Text{fmt.Sprintf("b%d", i)}}
						s := If{C: []Expr{Lit{t}}, B: [][]Stmt{a}, Else: b, Has: true}
						switch k {
						case 2:
							s.B[0] = append(a, l...)
						case 3:
							s.Else = append(b, l...)
						case 4:
							s.C = append(s.C, Lit{!t})
							s.B = append(s.B, append([]Stmt{Text{"e"}}, l...))
						}
						l = []Stmt{Text{"<"}, s, Text{">"}}
					}
				case 5:
					for i := 0; i < n; i++ {
						l = append(l, If{C: []Expr{Bin{"==", Bin{"%", Lit{int64(i)}, Lit{int64(3)}}, Lit{int64(0)}}, Bin{"==", Bin{"%", Lit{int64(i)}, Lit{int64(3)}}, Lit{int64(1)}}}, B: [][]Stmt{{Text{fmt.Sprint("a", i)}}, {Text{fmt.Sprint("b", i)}}}, Else: []Stmt{Text{fmt.Sprint("c", i)}}, Has: i%2 == 0})
					}
				}
				c.checkStr(styles[0], append(append([]Stmt{Text{"<"}}, l...), Text{">"}), tf)
			}},
			{Name: "very-deep", Space: "constructs nested n = 2000, 4000, 4998..5001, 9997..10001, 12000, 100000 levels deep in the then, @else and @elseif branch, mixed with loops: rendered exactly or refused with an error", Run: func(c *C) {
				ns := []int{2000, 4000, 4998, 4999, 5000, 5001, 9997, 9998, 9999, 10000, 10001, 12000, 100000}
				n := ns[c.Choose(len(ns))]
				ks := []struct{ o, e, wo, we string }{
					{"<@if(true)a", "b@end>", "<a", "b>"},
					{"<@if(false)a@else b", "@end>", "< b", ">"},
					{"<@if(f)a@elseif(t)b", "c@else d@end>", "<b", "c>"},
					{"@each(v in [1])@if(t)a", "@else@end.@end", "a", "."},
				}
				k := ks[c.Choose(len(ks))]
				c.Begin(fmt.Sprintf("%q nested %d times", k.o+k.e, n))
				o := evalString("x"+strings.Repeat(k.o, n)+"y"+strings.Repeat(k.e, n)+"z", map[string]any{"t": true, "f": false})
				want := "x" + strings.Repeat(k.wo, n) + "y" + strings.Repeat(k.we, n) + "z"
				switch {
				case o.Err != nil:
					c.Note("refused")
					if n <= 1000 || o.S != "" {
						c.Fail("failed with %v, output %q", o.Err, cut(o.S))
					}
				case o.S != want:
					c.Fail("rendered %q.. (%d bytes), must render %d bytes", cut(o.S), len(o.S), len(want))
				default:
					c.Note("value")
				}
			}},
			{Name: "conditions", Space: "every typed expression with up to 2 operators (6 types) as the condition of @if and @elseif", Run: func(c *C) {
				n := c.Choose(3)
				g := &tgen{c: c, pal: c.Choose(2)}
				x := g.gen(allTypes[c.Choose(len(allTypes))], n)
				s := If{C: []Expr{x}, B: [][]Stmt{{Text{"T"}}}, Else: []Stmt{Text{"F"}}, Has: true}
				if c.Bool() {
					s = If{C: []Expr{Lit{false}, x}, B: [][]Stmt{{Text{"0"}}, {Text{"T"}}}, Else: []Stmt{Text{"F"}}, Has: true}
				}
				c.checkStr(styles[c.Choose(3)], []Stmt{Text{"<"}, s, Text{">"}}, genData())
			}},
		},
	})
}

var (
	once02 sync.Once
	log02  []string // what the function obs02 was called with
)
