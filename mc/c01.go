package main

import (
	"fmt"
	"math"
	"strings"

	. "verifmc/ref"
)

var allBin = []string{"==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}

// binTree enumerates all trees with n binary operators over consecutive leaves
func binTree(c *C, n int, ops []string, leaf func() Expr) Expr {
	if n == 0 {
		return leaf()
	}
	l := c.Choose(n)
	op := ops[c.Choose(len(ops))]
	left := binTree(c, l, ops, leaf)
	right := binTree(c, n-1-l, ops, leaf)
	return Bin{op, left, right}
}

// shape enumerates all untyped trees with n operators of any kind
func shape(c *C, n int, leaf func() Expr) Expr {
	if n == 0 {
		return leaf()
	}
	switch k := c.Choose(15); k {
	case 0:
		return Un{"-", shape(c, n-1, leaf)}
	case 1:
		return Un{"!", shape(c, n-1, leaf)}
	case 2:
		return Post{"++", shape(c, n-1, leaf)}
	case 3:
		return Post{"--", shape(c, n-1, leaf)}
	case 4, 5, 6, 7, 8:
		op := []string{"==", "<", "+", "-", "*"}[k-4]
		l := c.Choose(n)
		a := shape(c, l, leaf)
		return Bin{op, a, shape(c, n-1-l, leaf)}
	case 9:
		l := c.Choose(n)
		m := c.Choose(n - l)
		a := shape(c, l, leaf)
		b := shape(c, m, leaf)
		return Tern{a, b, shape(c, n-1-l-m, leaf)}
	case 10:
		l := c.Choose(n)
		a := shape(c, l, leaf)
		return Idx{a, shape(c, n-1-l, leaf)}
	case 11:
		return Dot{shape(c, n-1, leaf), "n"}
	case 12:
		return Call{shape(c, n-1, leaf), "abs", nil}
	case 13:
		l := c.Choose(n)
		a := shape(c, l, leaf)
		return Call{a, "append", []Expr{shape(c, n-1-l, leaf)}}
	default:
		return ArrL{[]Expr{shape(c, n-1, leaf)}}
	}
}

func cycle(xs []Expr) func() Expr {
	i := -1
	return func() Expr { i++; return xs[i%len(xs)] }
}

func ints(v ...int64) []Expr {
	var r []Expr
	for _, x := range v {
		r = append(r, Lit{x})
	}
	return r
}

var leafVectors = [][]Expr{
	ints(7, 2, 3, 5, 1, 4), ints(1, 2, 3, 4, 5, 6), ints(20, 6, 4, 3, 2, 1), ints(2, 2, 2, 2, 2),
	{Var{"i"}, Var{"j"}, Lit{int64(2)}, Var{"k"}, Var{"i"}}, {Lit{int64(3)}, Lit{int64(0)}, Lit{int64(3)}, Lit{int64(0)}},
	{Lit{2.5}, Lit{0.5}, Lit{4.0}, Lit{1.25}, Lit{8.0}}, {Var{"s"}, Lit{"c"}, Var{"t"}, Lit{"ab"}},
	{Lit{int64(1)}, Lit{1.0}, Lit{"1"}, Lit{true}, Lit{nil}},
}

// contexts in which a whole expression can stand, as the program and the
// expected rewriting of the value
func exprContexts(x Expr) [][]Stmt {
	v := Var{"v"}
	return [][]Stmt{
		{Print1{x}},
		{Braces{[]Stmt{Assign{"v", x}, Print1{v}}}},
		{Assign{"v", x}, Text{"|"}, Print1{v}},
		{Print1{Idx{ArrL{[]Expr{Lit{int64(0)}, x}}, Lit{int64(1)}}}},
		{Print1{Dot{Par{ObjL{[]string{"q", "v"}, []Expr{Lit{int64(0)}, x}}}, "v"}}},
		{Print1{Idx{Call{ArrL{nil}, "append", []Expr{x, Lit{int64(1)}}}, Lit{int64(0)}}}},
		{If{C: []Expr{x}, B: [][]Stmt{{Text{"T"}}}, Else: []Stmt{Text{"F"}}, Has: true}},
		{If{C: []Expr{Lit{false}, x}, B: [][]Stmt{{Text{"0"}}, {Text{"T"}}}, Else: []Stmt{Text{"F"}}, Has: true}},
		{Each{V: "v", A: ArrL{[]Expr{x}}, B: []Stmt{Print1{v}}}},
		{Print1{Tern{x, Lit{"T"}, Lit{"F"}}}},
		{Print1{Tern{Lit{true}, x, Lit{"F"}}}},
		{Print1{Tern{Lit{false}, Lit{"F"}, x}}},
		{Each{V: "w", A: ArrL{ints(1, 2)}, B: []Stmt{BreakIf{x}, Text{"p"}, ContinueIf{x}, Text{"q"}}}},
		{For{Init: Assign{"w", x}, C: Bin{"==", Lit{int64(1)}, Lit{int64(2)}}, B: []Stmt{Text{"n"}}}, Text{"."}},
		{Text{"a"}, Braces{[]Stmt{Print1{x}, Print1{x}}}, Text{"b"}},
	}
}

func init() {
	bigs := []int64{0, 1, -1, 2, -2, 3, 7, -7, 10, 1 << 31, -(1 << 31), 1<<31 - 1, 1 << 32, 1<<53 + 1, -(1<<53 + 1), 3037000500, math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 62, -(1 << 62)}
	floats := []float64{0, 1, -1, 0.5, -0.5, 1.5, 2.25, 0.1, 0.2, 0.3, 3.14159, 1e15, 1e16, 123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1 << 53, 1e308, -1e308, 9007199254740993, 1e-7}
	strs := []string{"", "a", "b", "ab", "A", "é", "日本", "<", "&", "a b", "\n", "'", "\"", "0", "1", "true", "\xff", "\x00", "}}", "{{ x }}"}
	kinds := []Value{nil, true, int64(3), 2.5, "s", A(int64(1)), O("n", int64(1))}
	register(&Check{
		ID: "C01",
		Assumptions: []string{
			"left open by the statement and not compared: equality of booleans/nil/arrays/objects, % on floats, string < >, unparenthesised ternary as a then-branch, printed form of Inf/NaN/-0.0/huge floats (compared through == instead)",
			"decrementing a float is compared on values where subtracting one is exact",
		},
		Families: []Family{
			{Name: "binary-trees", Space: "all trees of up to 3 (quick) / 4 (thorough) binary operators (11 operators, every grouping written with minimal parentheses) x 9 operand vectors x token layouts", Run: func(c *C) {
				max := 3
				if c.Thorough {
					max = 4
				}
				n := c.Choose(max) + 1
				lv := leafVectors[c.Choose(len(leafVectors))]
				x := binTree(c, n, allBin, cycle(lv))
				p := styles[0]
				if n <= 2 {
					p = c.style()
				} else if n == 3 {
					p = styles[[]int{1, 5}[c.Choose(2)]]
				} else {
					p = styles[1]
				}
				c.checkStr(p, []Stmt{Print1{x}}, genData())
			}},
			{Name: "shapes", Space: "all untyped trees of up to 3 (quick) / 4 (thorough) operators of 15 kinds (prefix, postfix, binary, ternary, index, property, calls, array literal) x operand vectors", Run: func(c *C) {
				max := 3
				if c.Thorough {
					max = 4
				}
				n := c.Choose(max + 1)
				vecs := [][]Expr{{Var{"i"}, Var{"k"}, Lit{int64(2)}}, {Var{"a"}, Lit{int64(1)}, Lit{int64(0)}}, {Var{"o"}, Lit{int64(2)}}, {Var{"b"}, Lit{int64(4)}, Lit{int64(5)}, Lit{int64(6)}, Lit{int64(7)}}, {Var{"f"}, Lit{0.5}}, {Var{"ao"}, Lit{int64(1)}}, {Var{"nn"}, Var{"b"}}}
				nv := len(vecs)
				if n == 4 {
					nv = 4
				}
				x := shape(c, n, cycle(vecs[c.Choose(nv)]))
				p := styles[1]
				if n <= 2 {
					p = c.style()
				}
				c.checkStr(p, []Stmt{Print1{x}}, genData())
			}},
			{Name: "typed", Space: "all type-correct expressions with up to 3 (quick) / 4 (thorough, all layouts up to 3) operators of a 60 production grammar, 6 result types, 2 leaf palettes, token layouts", Run: func(c *C) {
				max := 3
				if c.Thorough {
					max = 4
				}
				n := c.Choose(max + 1)
				t := allTypes[c.Choose(len(allTypes))]
				g := &tgen{c: c, pal: c.Choose(2)}
				x := g.gen(t, n)
				p := styles[1]
				if n <= 2 {
					p = c.style()
				} else if n == 3 && c.Thorough {
					p = c.style()
				}
				c.checkStr(p, []Stmt{Print1{x}}, genData())
			}},
			{Name: "kept", Space: "every typed expression with up to 2 operators (6 types, 2 leaf palettes) evaluated twice, with every variable printed before, between and after: no evaluation changes an operand", Run: func(c *C) {
				n := c.Choose(3)
				t := allTypes[c.Choose(len(allTypes))]
				g := &tgen{c: c, pal: c.Choose(2)}
				x := g.gen(t, n)
				d := genData()
				var vars []Stmt
				for _, k := range (&Obj{M: d}).Keys() {
					vars = append(vars, Print1{Var{k}}, Text{"|"})
				}
				l := append([]Stmt{Print1{x}, Text{"|"}}, vars...)
				l = append(append(l, Print1{x}, Text{"|"}), vars...)
				c.checkStr(styles[1], l, d)
			}},
			{Name: "sizes", Space: "strings of length n (0, 1 and around every power of two up to 65536) and 4 second lengths, ASCII and multi-byte, in 12 expressions (concatenations, chains, comparisons, calls), evaluated twice; the operands printed afterwards", Run: func(c *C) {
				sz := []int{0, 1, 2, 3}
				for p := 4; p <= 16; p++ {
					sz = append(sz, 1<<p-1, 1<<p, 1<<p+1)
				}
				n := sz[c.Choose(len(sz))]
				m := []int{0, 1, 64, 1000}[c.Choose(4)]
				u := []string{"ab", "é"}[c.Choose(2)]
				d := Data{"x": strings.Repeat(u, n/2+1)[:n/len(u)*len(u)], "y": strings.Repeat("z", m)}
				x, y := Expr(Var{"x"}), Expr(Var{"y"})
				cat := Bin{"+", x, y}
				e := []Expr{cat, Bin{"+", y, x}, Bin{"+", cat, x}, Bin{"+", x, Par{cat}}, Bin{"+", Par{cat}, Par{cat}}, Bin{"==", cat, Bin{"+", y, x}}, Bin{"!=", x, y}, Bin{"==", cat, cat}, Call{cat, "len", nil}, Call{cat, "upper", nil}, Call{x, "repeat", []Expr{Lit{int64(2)}}}, Tern{Bin{"==", x, y}, x, cat}}[c.Choose(12)]
				bar := Text{"|"}
				c.checkStr(styles[1], []Stmt{Print1{e}, bar, Print1{e}, bar, Print1{x}, bar, Print1{y}, bar, Assign{"q", e}, Print1{Bin{"+", Var{"q"}, y}}, bar, Print1{Var{"q"}}, bar, Print1{x}}, d)
			}},
			{Name: "contexts", Space: "every typed expression with up to 2 operators in each of 15 positions a complete expression can stand in (assignment, conditions, array/object/argument/ternary positions, loop headers)", Run: func(c *C) {
				n := c.Choose(3)
				t := allTypes[c.Choose(len(allTypes))]
				g := &tgen{c: c, pal: c.Choose(2)}
				x := g.gen(t, n)
				ctx := exprContexts(x)
				l := ctx[c.Choose(len(ctx))]
				p := styles[0]
				if n < 2 {
					p = c.style()
				}
				c.checkStr(p, l, genData())
			}},
			{Name: "context-binary", Space: "every pair of binary operators a op b op c, in each of the 15 positions", Run: func(c *C) {
				x := Bin{allBin[c.Choose(11)], Bin{allBin[c.Choose(11)], Lit{int64(7)}, Var{"k"}}, Lit{int64(2)}}
				y := Bin{x.Op, Lit{int64(7)}, Bin{x.L.(Bin).Op, Var{"k"}, Lit{int64(2)}}}
				e := []Expr{x, y, Tern{x, Lit{"y"}, Lit{"n"}}, Un{"-", x}}[c.Choose(4)]
				ctx := exprContexts(e)
				c.checkStr(styles[c.Choose(2)], ctx[c.Choose(len(ctx))], genData())
			}},
			{Name: "int-arith", Space: "23x23 boundary integers x 11 operators as data and as literals; unary and postfix on each; compared by printing and by ==", Run: func(c *C) {
				a, b := bigs[c.Choose(len(bigs))], bigs[c.Choose(len(bigs))]
				k := c.Choose(15)
				var x Expr
				lit := c.Bool()
				mk := func(n string, v int64) Expr {
					if lit && v != math.MinInt64 {
						return Lit{v}
					}
					return Var{n}
				}
				switch {
				case k < 11:
					x = Bin{allBin[k], mk("x", a), mk("y", b)}
				case k == 11:
					x = Un{"-", mk("x", a)}
				case k == 12:
					x = Post{"++", Par{mk("x", a)}}
				case k == 13:
					x = Post{"--", Par{mk("x", a)}}
				case k == 14:
					x = Un{"-", Par{Un{"-", mk("x", a)}}}
				}
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, Data{"x": a, "y": b})
			}},
			{Name: "float-arith", Space: "25x25 boundary floats x 10 operators, prefix and postfix; the exact double is compared through ==", Run: func(c *C) {
				a, b := floats[c.Choose(len(floats))], floats[c.Choose(len(floats))]
				ops := []string{"+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=", "neg", "++"}
				op := ops[c.Choose(len(ops))]
				var x Expr = Bin{op, Var{"x"}, Var{"y"}}
				switch op {
				case "neg":
					x = Un{"-", Var{"x"}}
				case "++":
					x = Post{"++", Var{"x"}}
				}
				v, f := (&Interp{}).Eval(x, envOf(Data{"x": a, "y": b}))
				d := Data{"x": a, "y": b}
				if f == nil {
					if r, ok := v.(float64); ok {
						d["r"] = r
						if math.IsNaN(r) {
							x = Bin{"!=", x, x}
						} else {
							x = Bin{"==", x, Var{"r"}}
						}
					}
				}
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, d)
			}},
			{Name: "regroup", Space: "all trees of 2 and 3 binary operators + - * / (and % for integers) over 7 operand vectors of floats, integers and strings for which every regrouping, reordering or premature rounding shows, each operand a literal or a variable (all mixtures); + of strings", Run: func(c *C) {
				n := 2 + c.Choose(2)
				vecs := []struct {
					v   []Value
					ops string
				}{
					{[]Value{0.1, 0.2, 0.3, 0.7}, "+-*/"}, {[]Value{0.7, 0.1, 3.0, 0.3}, "+-*/"}, {[]Value{1e9, 1e-7, 1e-8, 3.3}, "+-*/"}, {[]Value{4503599627370496.5, 0.5, 0.5, 3.0}, "+-*/"},
					{[]Value{int64(7), int64(3), int64(2), int64(5)}, "+-*/%"}, {[]Value{int64(math.MaxInt64), int64(10), int64(10), int64(7)}, "+-*/%"}, {[]Value{int64(2), int64(9), int64(4), int64(6)}, "+-*/%"},
					{[]Value{"a", "b", "'", "\""}, "+"},
				}
				v := vecs[c.Choose(len(vecs))]
				mask := c.Choose(1 << (n + 1))
				d := Data{}
				i := -1
				x := binTree(c, n, strings.Split(v.ops, ""), func() Expr {
					i++
					if mask>>i&1 == 0 {
						return Lit{v.v[i]}
					}
					k := string(rune('p' + i))
					d[k] = v.v[i]
					return Var{k}
				})
				if n == 2 {
					c.checkStr(c.style(), []Stmt{Print1{x}}, d)
					return
				}
				c.checkStr(styles[1], []Stmt{Print1{x}}, d)
			}},
			{Name: "float-print", Space: "printed form of every multiple of 1/8 in -40..40, and of boundary floats, as data and as literal", Run: func(c *C) {
				i := c.Choose(641)
				v := float64(i-320) / 8
				x := []Expr{Var{"x"}, Lit{v}, Un{"-", Var{"x"}}, Bin{"+", Var{"x"}, Lit{0.25}}, Post{"++", Var{"x"}}, Post{"--", Var{"x"}}}[c.Choose(6)]
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, Data{"x": v})
			}},
			{Name: "strings", Space: "20x20 data strings x 11 operators", Run: func(c *C) {
				a, b := strs[c.Choose(len(strs))], strs[c.Choose(len(strs))]
				x := Bin{allBin[c.Choose(11)], Var{"x"}, Var{"y"}}
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, Data{"x": a, "y": b})
			}},
			{Name: "mixed", Space: "all 7x7 operand kinds x 11 operators, all kinds x prefix/postfix, index, property", Run: func(c *C) {
				a, b := kinds[c.Choose(len(kinds))], kinds[c.Choose(len(kinds))]
				k := c.Choose(18)
				var x Expr
				l, r := Expr(Var{"x"}), Expr(Var{"y"})
				if c.Bool() {
					l, r = Par{Lit{a}}, Par{Lit{b}}
				}
				switch {
				case k < 11:
					x = Bin{allBin[k], l, r}
				case k < 13:
					x = Un{[]string{"-", "!"}[k-11], l}
				case k < 15:
					x = Post{[]string{"++", "--"}[k-13], l}
				case k == 15:
					x = Idx{l, r}
				case k == 16:
					x = Dot{l, "n"}
				case k == 17:
					x = Tern{l, r, Lit{"else"}}
				}
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, Data{"x": a, "y": b})
			}},
			{Name: "literals", Space: "integer literals around every power of ten and the 64-bit boundary, float literals; printed, negated, compared with data", Run: func(c *C) {
				var src []string
				for i := 1; i <= 25; i++ {
					src = append(src, "1"+strings.Repeat("0", i), strings.Repeat("9", i), strings.Repeat("1", i))
				}
				src = append(src, "9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551615", "18446744073709551616", "9223372036854775817", "0.1", "0.25", "123456.789", "1.0", "0.0", "3.14159265358979", "99999999999.5", "0.000001", "2147483648", "4294967296", "10.50", "1.10", "00", "01", "007", "010", "08", "09", "0777", "0123456789", strings.Repeat("0", 40)+"12", "0"+strings.Repeat("9", 18), "00.5", "01.50", "010.25", "0.010")
				s := src[c.Choose(len(src))]
				x := []Expr{Num{s}, Un{"-", Num{s}}, Bin{"+", Num{s}, Num{s}}, ArrL{[]Expr{Num{s}, Num{s}}}, Bin{"==", Num{s}, Num{s}}, Tern{Lit{true}, Num{s}, Num{s}}, Tern{Lit{true}, Lit{int64(1)}, Num{s}}}[c.Choose(7)]
				l := []Stmt{Print1{x}}
				r := Render(nil, l, nil, nil)
				if _, f := (&Interp{}).Eval(Num{s}, NewEnv(nil)); f != nil {
					r = Result{Fail: f} // an out-of-range literal is an error wherever it stands
				}
				src1 := styles[c.Choose(2)].List(l)
				c.Begin(fmt.Sprintf("%q", src1))
				c.expect(evalString(src1, nil), r)
			}},
			{Name: "names", Space: "identifier shapes (keyword prefixes, underscores, digits, capitals) x defined/undefined x 5 expressions", Run: func(c *C) {
				names := []string{"x", "_", "_a", "a_b", "aB", "Z", "nilx", "truey", "falsely", "inner", "index", "i", "in1", "x1", "a1b2", "loops", "myLoop", "ifx", "end", "each", "NIL", "True", "verylongidentifiername_with_many_parts_0123456789"}
				n := names[c.Choose(len(names))]
				d := Data{"other": int64(1)}
				if c.Bool() {
					d[n] = int64(5)
				}
				v := Var{n}
				x := []Expr{v, Bin{"+", v, Lit{int64(1)}}, Bin{"*", Lit{int64(2)}, v}, Tern{Bin{">", v, Lit{int64(1)}}, v, Lit{int64(0)}}, Post{"++", v}, Un{"-", v}, ArrL{[]Expr{v, v}}, ObjL{[]string{n}, []Expr{v}}, Call{v, "abs", nil}, Idx{ArrL{ints(1, 2, 3, 4, 5, 6)}, v}}[c.Choose(10)]
				c.checkStr(c.style(), []Stmt{Print1{x}}, d)
			}},
			{Name: "unknown", Space: "typed expressions with up to 2 operators with one leaf replaced by an undefined name", Run: func(c *C) {
				n := c.Choose(3)
				t := allTypes[c.Choose(len(allTypes))]
				g := &tgen{c: c, pal: 1}
				x := g.gen(t, n)
				m := countLeaves(x)
				x = replaceLeaf(x, c.Choose(m), Var{"undefined1"})
				c.checkStr(styles[1], []Stmt{Print1{x}}, genData())
			}},
			{Name: "whitespace", Space: "12 expressions x every gap between tokens x 6 kinds of whitespace (one gap at a time, and all gaps)", Run: func(c *C) {
				exprs := []string{"1 + 2 * 3", "- i . abs ( ) + k", "a [ 1 + 1 ] * 2", "o . o . n - 1", "b ? 1 : z ? 2 : 3", "[ 1 , 2 , 3 ] [ 1 ]", "{ n : 1 , m : 2 } . n", "! z", "i ++", "i -- - k", "s . repeat ( 2 ) + 'x'", "( 1 + 2 ) * ( 3 - 4 )", "1 <= 2", "1 == 1", "as . join ( ', ' )", "x = 5 ; x"}
				want := []string{"7", "7", "-12", "7", "1", "2", "1", "1", "10", "5", "ababx", "-3", "1", "1", "p, q", "5"}
				// "- i . abs ( )" is (-i).abs()
				want[1] = "12"
				i := c.Choose(len(exprs))
				t := strings.Split(exprs[i], " ")
				if i == 14 {
					t = []string{"as", ".", "join", "(", "', '", ")"}
				}
				ws := []string{"", " ", "\n", "\t", "\r\n", " \n\t  \r\n "}[c.Choose(6)]
				other := []string{"", " "}[c.Choose(2)]
				gap := c.Choose(len(t) + 2) // len(t)+1: all gaps
				src := "{{"
				for j := 0; j <= len(t); j++ {
					w := other
					if gap == j || gap == len(t)+1 {
						w = ws
					}
					if j > 0 && j < len(t) && w == "" && t[j-1] == "-" && t[j] == "--" {
						w = " "
					}
					if j > 0 && j < len(t) && w == "" && t[j-1] == "--" && t[j] == "-" {
						w = " "
					}
					if (j == 0 && (t[0] == "-" || t[0] == "{")) && w == "" {
						w = " "
					}
					src += w
					if j < len(t) {
						src += t[j]
					}
				}
				src += "}}"
				c.Begin(fmt.Sprintf("%q", src))
				c.expect(evalString(src, GoMap(genData())), Result{Out: want[i]})
			}},
			{Name: "ladder", Space: "chains and nestings of n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024 of each of 20 constructs, compared with the model", Run: func(c *C) {
				n := ladderN(c, 1025)
				one := Expr(Lit{int64(1)})
				var x Expr = Lit{int64(3)}
				rep := func(f func(Expr, int) Expr) Expr {
					e := x
					for i := 0; i < n; i++ {
						e = f(e, i)
					}
					return e
				}
				k := c.Choose(20)
				switch k {
				case 0:
					x = rep(func(e Expr, i int) Expr { return Bin{"+", e, Lit{int64(i)}} })
				case 1:
					x = rep(func(e Expr, i int) Expr { return Bin{"-", e, Lit{int64(i)}} })
				case 2:
					x = rep(func(e Expr, i int) Expr { return Bin{"-", Lit{int64(i)}, e} })
				case 3:
					x = rep(func(e Expr, i int) Expr { return Par{e} })
				case 4:
					x = rep(func(e Expr, i int) Expr { return Un{"-", e} })
				case 5:
					x = Lit{true}
					x = rep(func(e Expr, i int) Expr { return Un{"!", e} })
				case 6:
					x = rep(func(e Expr, i int) Expr { return Post{"++", e} })
				case 7:
					x = rep(func(e Expr, i int) Expr {
						return Tern{Bin{"==", Var{"i"}, Lit{int64(i)}}, Lit{int64(100 + i)}, e}
					})
				case 8:
					x = rep(func(e Expr, i int) Expr { return Idx{ArrL{[]Expr{e, one}}, Lit{int64(0)}} })
				case 9:
					x = rep(func(e Expr, i int) Expr { return Dot{Par{ObjL{[]string{"n"}, []Expr{e}}}, "n"} })
				case 10:
					x = rep(func(e Expr, i int) Expr { return Call{e, "abs", nil} })
				case 11:
					a := ArrL{}
					for i := 0; i < n; i++ {
						a.E = append(a.E, Lit{int64(i)})
					}
					x = a
				case 12:
					o := ObjL{}
					for i := 0; i < n; i++ {
						o.K = append(o.K, fmt.Sprintf("k%d", i))
						o.V = append(o.V, Lit{int64(i)})
					}
					x = o
				case 13:
					a := Call{ArrL{nil}, "append", nil}
					for i := 0; i < n; i++ {
						a.A = append(a.A, Lit{int64(i)})
					}
					x = a
				case 14:
					x = Lit{strings.Repeat("ab", n)}
				case 15:
					x = Lit{"a"}
					x = rep(func(e Expr, i int) Expr { return Bin{"+", e, Lit{"b"}} })
				case 16:
					x = rep(func(e Expr, i int) Expr { return Bin{"*", Bin{"+", e, one}, one} })
				case 17:
					x = rep(func(e Expr, i int) Expr { return Bin{[]string{"+", "*", "-", "%"}[i%4], Lit{int64(i%5 + 1)}, e} })
				case 18:
					var l []Stmt
					for i := 0; i < n; i++ {
						l = append(l, Assign{fmt.Sprintf("v%d", i), Lit{int64(i * i)}})
					}
					for i := 0; i < n; i++ {
						l = append(l, Print1{Var{fmt.Sprintf("v%d", i)}}, Text{","})
					}
					c.checkStr(styles[0], l, nil)
					return
				case 19:
					var l []Stmt
					l = append(l, Assign{"v", Lit{int64(0)}})
					for i := 0; i < n; i++ {
						l = append(l, Assign{"v", Bin{"+", Var{"v"}, Lit{int64(i)}}})
					}
					c.checkStr(styles[0], []Stmt{Braces{append(l, Print1{Var{"v"}})}}, nil)
					return
				}
				c.checkStr(styles[c.Choose(2)], []Stmt{Print1{x}}, genData())
			}},
		},
	})
}

func envOf(d Data) *Env {
	e := NewEnv(nil)
	for k, v := range d {
		e.Put(k, v)
	}
	return e
}

// leaves of an expression, left to right
func mapLeaves(x Expr, f func(Expr) Expr) Expr {
	ml := func(l []Expr) []Expr {
		var r []Expr
		for _, e := range l {
			r = append(r, mapLeaves(e, f))
		}
		return r
	}
	switch x := x.(type) {
	case Par:
		return Par{mapLeaves(x.X, f)}
	case Un:
		return Un{x.Op, mapLeaves(x.X, f)}
	case Post:
		return Post{x.Op, mapLeaves(x.X, f)}
	case Bin:
		l := mapLeaves(x.L, f)
		return Bin{x.Op, l, mapLeaves(x.R, f)}
	case Tern:
		a := mapLeaves(x.C, f)
		b := mapLeaves(x.T, f)
		return Tern{a, b, mapLeaves(x.E, f)}
	case Idx:
		a := mapLeaves(x.X, f)
		return Idx{a, mapLeaves(x.I, f)}
	case Dot:
		return Dot{mapLeaves(x.X, f), x.N}
	case Call:
		a := mapLeaves(x.X, f)
		return Call{a, x.N, ml(x.A)}
	case ArrL:
		if len(x.E) > 0 {
			return ArrL{ml(x.E)}
		}
	case ObjL:
		return ObjL{x.K, ml(x.V)}
	}
	return f(x)
}

func countLeaves(x Expr) int {
	n := 0
	mapLeaves(x, func(e Expr) Expr { n++; return e })
	return n
}

func replaceLeaf(x Expr, i int, by Expr) Expr {
	n := 0
	return mapLeaves(x, func(e Expr) Expr {
		n++
		if n-1 == i {
			return by
		}
		return e
	})
}
