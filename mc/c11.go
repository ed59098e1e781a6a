package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
)

// call11 is one call of a built-in, with receiver and arguments as data or as
// literals
type call11 struct {
	recv Value
	name string
	args []Value
	lit  bool
}

func allUTF8(v Value) bool {
	switch v := v.(type) {
	case string:
		return utf8.ValidString(v)
	case *Arr:
		for _, e := range v.E {
			if !allUTF8(e) {
				return false
			}
		}
	case *Obj:
		for k, e := range v.M {
			if !utf8.ValidString(k) || !allUTF8(e) {
				return false
			}
		}
	}
	return true
}

// literal reports whether a value can be written down as a literal with
// exactly this meaning
func literal(v Value) bool {
	switch v := v.(type) {
	case string:
		return writable(v, '\'') && !strings.ContainsAny(v, "<>&") && utf8.ValidString(v)
	case int64:
		return v > math.MinInt64
	case float64:
		return !Odd(v) && math.Abs(v) > 1e-5 || v == 0 && !math.Signbit(v)
	case *Arr:
		for _, e := range v.E {
			if !literal(e) {
				return false
			}
		}
	case *Obj:
		for k, e := range v.M {
			if !literal(k) || k == "" || !literal(e) {
				return false
			}
		}
	}
	return true
}

// nanIn: NaN differs from itself, so equality says nothing
func nanIn(v Value) bool { return !Equal(v, v) }

func (c *C) builtin(k call11) {
	want, known, f := Builtin(k.recv, k.name, k.args)
	data := Data{"v": k.recv, "v0": k.recv}
	var as []string
	ok8 := allUTF8(k.recv)
	for i, a := range k.args {
		n := string(rune('a' + i))
		data[n], data[n+"0"] = a, a
		as = append(as, n)
		ok8 = ok8 && allUTF8(a)
	}
	call := "v." + k.name + "(" + strings.Join(as, ", ") + ")"
	pre := ""
	if k.lit {
		pre = "{{ v = " + Plain(Lit{k.recv}) + " }}"
		delete(data, "v")
		for _, n := range as {
			pre += "{{ " + n + " = " + Plain(Lit{data[n]}) + " }}"
			delete(data, n)
		}
	}
	gd, gd0 := GoMap(data), GoMap(data)
	if !known {
		panic("not a built-in: " + k.name)
	}
	if f != nil && !f.Unspec {
		src := pre + "{{ " + call + " }}"
		c.Begin(fmt.Sprintf("%q with %s", src, showData(data)))
		c.expect(evalString(src, gd), Result{Fail: f})
		c.unchanged(gd, gd0)
		return
	}
	// the result, its equality with the expected value, receiver and arguments afterwards
	src := pre + "{{ r = " + call + " }}[{{ r }}][{{ [v].contains(v0) }}"
	for _, n := range as {
		src += "{{ [" + n + "].contains(" + n + "0) }}"
	}
	src += "][{{ v }}]"
	same := "1"
	if nanIn(k.recv) {
		same = "0"
	}
	for _, a := range k.args {
		if nanIn(a) {
			same += "0"
		} else {
			same += "1"
		}
	}
	if f == nil {
		gd["x"], gd0["x"] = ToGo(want), ToGo(want)
		src += "[{{ [r].contains(x) }}]"
	}
	c.Begin(fmt.Sprintf("%q with %s", src, showData(data)))
	o := evalString(src, gd)
	c.unchanged(gd, gd0)
	if f != nil {
		c.Note("unspecified")
	} else {
		c.Note("value")
	}
	if o.Err != nil {
		if f == nil {
			c.Fail("failed with %q, the result is %s", o.Err, show(want))
		}
		return
	}
	if ok8 && !utf8.ValidString(o.S) {
		c.Fail("rendered %q, which is not UTF-8", cut(o.S))
	}
	tail := "][" + same + "]"
	if Odd(k.recv) {
		if !strings.Contains(o.S, tail) {
			c.Fail("rendered %q: receiver or arguments differ afterwards", cut(o.S))
		}
		return
	}
	tail += "[" + Print(k.recv) + "]"
	if f == nil {
		eq := "1"
		if nanIn(want) {
			eq = "0"
		}
		tail += "[" + eq + "]"
		if Odd(want) {
			if !strings.HasSuffix(o.S, tail) {
				c.Fail("rendered %q, must end with %q (result equal to %s, receiver unchanged)", cut(o.S), tail, show(want))
			}
		} else if w := "[" + Print(want) + tail; o.S != w {
			c.Fail("rendered %q, must render %q (result, receiver and arguments unchanged, receiver, result equal to %s)", cut(o.S), cut(w), show(want))
		}
	} else if !strings.HasSuffix(o.S, tail) {
		c.Fail("rendered %q, must end with %q (receiver unchanged)", cut(o.S), tail)
	}
}

func (c *C) unchanged(got, want map[string]any) {
	if !sameGo(got, want) {
		c.Fail("the data of the caller was changed to %v", got)
	}
}

func sameGo(a, b any) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	// NaN is not equal to itself
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

func init() {
	strs := []Value{"", "a", "abc", " a b ", "é", "日本語", "é\u0301x", "12", "-7", "1.5", "\t\n", "ABC", "ßa", "a,b,,c", "\xffa\xc3", "😀b"}
	arrs := []Value{A(), A(int64(1)), A(int64(3), int64(1), int64(2)), A("a", "é", ""), A(nil), A(A(int64(1)), A()), A(O("a", int64(1))), A(int64(1), 1.0, "1", true, nil), A(1.5, -2.5), A(A(A("x")))}
	ints := []Value{int64(0), int64(1), int64(-1), int64(7), int64(-120), int64(10), int64(99), int64(1000000), int64(math.MaxInt64), int64(math.MinInt64), int64(math.MaxInt64 - 1), int64(1) << 53}
	floats := []Value{0.0, 0.5, -0.5, 1.0, 1.5, -1.5, 2.5, 0.49999999999999994, -0.49999999999999994, 1e-7, 123.456, -99.99, 4503599627370497.5, 1e14, 1e18, math.NaN(), math.Inf(1), math.Copysign(0, -1), math.MaxFloat64}
	bools := []Value{true, false}
	recvs := map[string][]Value{"str": strs, "arr": arrs, "int": ints, "float": floats, "bool": bools}
	args := []Value{nil, true, false, int64(0), int64(1), int64(-1), int64(2), int64(3), int64(-4), int64(math.MaxInt64), int64(math.MinInt64), 1.0, -0.5, "", "a", "é", " ", ",", "..", A(), A(int64(1)), O("a", int64(1)), O()}
	var calls []call11
	types := []string{"str", "arr", "int", "float", "bool"}
	for _, t := range types {
		for _, n := range BuiltinNames[t] {
			for _, r := range recvs[t] {
				calls = append(calls, call11{recv: r, name: n})
			}
		}
	}
	text := func(c *C, alpha []string, k int) string {
		var b strings.Builder
		for i := c.Choose(k + 1); i > 0; i-- {
			b.WriteString(alpha[c.Choose(len(alpha))])
		}
		return b.String()
	}
	letters := []string{"a", "B", " ", "é", "日", "😀", "\n", "1", "\u0301", "ß", "ǆ", "ŉ", "."}
	small := int64(8)

	// universe of values for structural equality
	atoms := []Value{nil, true, false, int64(0), int64(1), 0.0, 1.0, 1.5, "", "1", "a", "0"}
	var universe []Value
	universe = append(universe, atoms...)
	universe = append(universe, A(), O())
	for _, x := range atoms {
		universe = append(universe, A(x), O("a", x), O("b", x), A(A(x)), A(O("a", x)), O("a", A(x)), O("a", O("a", x)))
	}
	for _, x := range atoms[2:8] {
		for _, y := range atoms[2:8] {
			universe = append(universe, A(x, y), O("a", x, "b", y))
		}
	}

	type step struct {
		src string
		fn  func(e []Value) []Value
	}
	cp := func(e ...Value) []Value { return append([]Value(nil), e...) }
	steps := []step{
		{"append(9)", func(e []Value) []Value { return append(cp(e...), int64(9)) }},
		{"append(7, 8)", func(e []Value) []Value { return append(cp(e...), int64(7), int64(8)) }},
		{"prepend(6)", func(e []Value) []Value { return append(cp(int64(6)), e...) }},
		{"reverse()", func(e []Value) []Value {
			r := []Value{}
			for i := range e {
				r = append(r, e[len(e)-1-i])
			}
			return r
		}},
		{"slice(1)", func(e []Value) []Value { return cp(e[min(1, len(e)):]...) }},
		{"slice(0, 2)", func(e []Value) []Value { return cp(e[:min(2, len(e))]...) }},
		{"slice(1, 2)", func(e []Value) []Value { return cp(e[min(1, len(e)):min(2, len(e))]...) }},
		{"append(a0)", nil},
		{"shuffle()", nil},
	}

	type cc struct {
		name string
		args []Value
	}
	chain := map[string][]cc{
		"str":   {{"len", nil}, {"split", nil}, {"split", []Value{""}}, {"trim", nil}, {"trimLeft", []Value{"a"}}, {"upper", nil}, {"capitalize", nil}, {"reverse", nil}, {"contains", []Value{"é"}}, {"truncate", []Value{int64(2)}}, {"truncate", []Value{int64(1), "日"}}, {"decimal", nil}, {"at", []Value{int64(-2)}}, {"first", nil}, {"last", nil}, {"repeat", []Value{int64(3)}}, {"lower", nil}, {"raw", nil}},
		"arr":   {{"len", nil}, {"join", nil}, {"join", []Value{"é"}}, {"reverse", nil}, {"slice", []Value{int64(1)}}, {"slice", []Value{int64(-1), int64(2)}}, {"contains", []Value{"b"}}, {"append", []Value{"z", int64(1)}}, {"prepend", []Value{A("b")}}},
		"int":   {{"float", nil}, {"abs", nil}, {"str", nil}, {"len", nil}, {"decimal", nil}, {"decimal", []Value{",", int64(1)}}},
		"float": {{"int", nil}, {"abs", nil}, {"ceil", nil}, {"floor", nil}, {"round", nil}, {"str", nil}},
		"bool":  {{"binary", nil}, {"then", []Value{"y"}}, {"then", []Value{A("b"), int64(0)}}, {"then", []Value{-1.5}}},
	}
	chainRecv := []Value{"", "Ab é", "日本b", " a ", A(), A("b", "a", "c"), A(int64(2), A("b"), nil), int64(-12), int64(0), 2.5, -0.75, true, false}

	near := func(x float64) []float64 {
		return []float64{x, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1))}
	}

	register(&Check{ID: "C11", Assumptions: []string{
		"left open by the contract and only checked for purity, UTF-8 and absence of crashes: surplus arguments, receivers that are not UTF-8, raw() of texts with '&' (C10), float.str() of integral floats beyond '2' or '2.0', conversions of floats outside of int64, counts beyond 2^20",
		"case conversions are those of Unicode as implemented by Go's strings package",
	}, Families: []Family{
		{Name: "all-kinds", Space: "every built-in x 2-19 receivers of its type x all argument tuples up to length 2 (thorough: 3) over 23 values of every kind, data and literals: value, structural equality with the expected value, receiver, arguments and Go data unchanged", Run: func(c *C) {
			k := calls[c.Choose(len(calls))]
			n := c.Choose(3 + b2i(c.Thorough))
			for i := 0; i < n; i++ {
				l := args
				if n == 3 {
					l = args[:14]
				}
				k.args = append(k.args, l[c.Choose(len(l))])
			}
			k.lit = c.Bool()
			if k.name == "shuffle" || k.name == "rand" {
				if len(k.recv.(*Arr).E) > 1 {
					c.Skip()
				}
			}
			if k.lit && (!literal(k.recv) || !literal(A(k.args...))) {
				c.Skip()
			}
			c.builtin(k)
		}},
		{Name: "texts", Space: "all texts up to length 4 (thorough: 5) over 13 characters (1-4 bytes wide, combining, special casing) x 13 string functions without arguments and at(-5..5)", Run: func(c *C) {
			s := text(c, letters, 3+b2i(c.Thorough))
			ns := []string{"len", "upper", "lower", "capitalize", "reverse", "first", "last", "trim", "trimLeft", "trimRight", "split", "decimal", "raw"}
			n := c.Choose(len(ns) + 11)
			k := call11{recv: s}
			if n < len(ns) {
				k.name = ns[n]
			} else {
				k.name, k.args = "at", []Value{int64(n - len(ns) - 5)}
			}
			c.builtin(k)
		}},
		{Name: "ascii", Space: "all texts of two characters U+0000..U+007F, and of three (thorough: four) out of 22 (control characters, blanks of every kind, marks, joiners, flags, quotes) x 13 functions without arguments, at(-2), truncate(2, ''), split, contains, trim of the last character, repeat(2)", Run: func(c *C) {
			var s string
			if c.Bool() {
				s = string([]byte{byte(c.Choose(128)), byte(c.Choose(128))})
			} else {
				al := []string{"a", "\r", "\n", "\t", "\v", "\f", "\x00", " ", "\u0085", "\u00a0", "\u2028", "\u200d", "\u200b", "\ufeff", "\u0301", "\ufe0f", "👍", "🏽", "🇫", "\u202e", "'", "\\"}
				for i := 0; i < 3+b2i(c.Thorough); i++ {
					s += al[c.Choose(len(al))]
				}
			}
			ns := []string{"len", "upper", "lower", "capitalize", "reverse", "first", "last", "trim", "trimLeft", "trimRight", "split", "decimal", "raw", "at", "truncate", "split", "contains", "trim", "repeat", "trimRight"}
			n := c.Choose(len(ns))
			k := call11{recv: s, name: ns[n]}
			_, z := utf8.DecodeLastRuneInString(s)
			last := s[len(s)-z:]
			if n >= 13 {
				k.args = [][]Value{{int64(-2)}, {int64(2), ""}, {last}, {last}, {last}, {int64(2)}, {last}}[n-13]
			}
			c.builtin(k)
		}},
		{Name: "texts-4", Space: "all texts of length 4 over 9 characters x {len, capitalize, reverse, first, last, truncate(1..3)}", Run: func(c *C) {
			s := ""
			for i := 0; i < 4; i++ {
				s += letters[c.Choose(9)]
			}
			ns := []string{"len", "capitalize", "reverse", "first", "last", "truncate", "truncate", "truncate"}
			n := c.Choose(len(ns))
			k := call11{recv: s, name: ns[n]}
			if k.name == "truncate" {
				k.args = []Value{int64(n - 4), ""}
			}
			c.builtin(k)
		}},
		{Name: "counts", Space: "texts up to length 5 over 3 character widths x truncate/at/repeat/decimal x counts -8..8 x ellipsis, separators; repeat and truncate up to 70 and around powers of two", Run: func(c *C) {
			if c.Bool() {
				n := []int64{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 65536}[c.Choose(22)]
				s := []string{"a", "é", "日x", "12"}[c.Choose(4)]
				switch c.Choose(4) {
				case 0:
					c.builtin(call11{recv: s, name: "repeat", args: []Value{n}})
				case 1:
					c.builtin(call11{recv: strings.Repeat(s, 300), name: "truncate", args: []Value{n}})
				case 2:
					c.builtin(call11{recv: strings.Repeat(s, 300), name: "at", args: []Value{-n}})
				case 3:
					c.builtin(call11{recv: int64(-5), name: "decimal", args: []Value{s, n}})
				}
				return
			}
			s := text(c, []string{"a", "é", "日"}, 5)
			n := int64(c.Choose(int(2*small+1))) - small
			switch c.Choose(7) {
			case 0:
				c.builtin(call11{recv: s, name: "truncate", args: []Value{n}})
			case 1:
				c.builtin(call11{recv: s, name: "truncate", args: []Value{n, []Value{"", "é", "--"}[c.Choose(3)]}})
			case 2:
				c.builtin(call11{recv: s, name: "at", args: []Value{n}})
			case 3:
				c.builtin(call11{recv: s, name: "repeat", args: []Value{n}})
			case 4:
				c.builtin(call11{recv: "42", name: "decimal", args: []Value{s, n}})
			case 5:
				c.builtin(call11{recv: n * 1001, name: "decimal", args: []Value{s}})
			case 6:
				c.builtin(call11{recv: n * 37, name: "decimal", args: []Value{s, n}})
			}
		}},
		{Name: "text-arguments", Space: "split, trim, trimLeft, trimRight, contains: all texts up to length 4 (thorough: 5) x all arguments up to length 2 over 4 characters", Run: func(c *C) {
			al := []string{"a", "é", "日", " "}
			s := text(c, al, 4+b2i(c.Thorough))
			a := text(c, al, 2)
			n := []string{"split", "trim", "trimLeft", "trimRight", "contains"}[c.Choose(5)]
			c.builtin(call11{recv: s, name: n, args: []Value{a}})
		}},
		{Name: "slices", Space: "all (length 0..7, start -9..9, end absent or -9..9), plus boundary integers and arrays up to length 70", Run: func(c *C) {
			var n int64
			if c.Bool() {
				n = int64(c.Choose(8))
				k := call11{recv: upTo(int(n)), name: "slice", args: []Value{int64(c.Choose(19) - 9)}}
				if e := c.Choose(20); e < 19 {
					k.args = append(k.args, int64(e-9))
				}
				c.builtin(k)
				return
			}
			n = []int64{0, 3, 16, 17, 70}[c.Choose(5)]
			bs := []int64{0, 1, -1, n - 1, n, n + 1, n / 2, -n, math.MaxInt64, math.MinInt64, math.MaxInt32, 1 << 32, -1 << 32, 1<<32 + 1, math.MaxInt64 - n}
			c.builtin(call11{recv: upTo(int(n)), name: "slice", args: []Value{bs[c.Choose(len(bs))], bs[c.Choose(len(bs))]}})
		}},
		{Name: "sizes", Space: "arrays and texts (3 widths) of n = 1..64, 100, 200, 300, 1000 (thorough: 10000) and around every power of two to 2048 (4096), and around 65536 with fewer built-ins: every built-in of their type with the arguments the size makes interesting", Run: func(c *C) {
			most := 2049
			if c.Thorough {
				most = 10000
			}
			n := ladderN(c, 65537)
			big := n > most
			if big && n < 65535 {
				c.Skip()
			}
			m := int64(n)
			at := []int64{0, 1, m / 2, m - 2, m - 1, m, m + 1, -1, -m, -m - 1}
			if big {
				at = []int64{0, m - 1, m, -m}
			}
			const pick = "position"
			fill := func(k call11) call11 {
				for i, a := range k.args {
					if a == pick {
						k.args[i] = at[c.Choose(len(at))]
					}
				}
				return k
			}
			if c.Bool() {
				var r *Arr
				switch c.Choose(3 - 2*b2i(big)) {
				case 0:
					r = upTo(n)
				case 1: // equal elements
					r = A()
					for i := 0; i < n; i++ {
						r.E = append(r.E, "x")
					}
				case 2:
					r = A()
					for i := 0; i < n; i++ {
						r.E = append(r.E, A(int64(i), O("k", int64(i))))
					}
				}
				last := r.E[n-1]
				l := []call11{{name: "len"}, {name: "reverse"}, {name: "append", args: []Value{last}}, {name: "append", args: []Value{last, last}}, {name: "prepend", args: []Value{last}}, {name: "contains", args: []Value{last}}, {name: "contains", args: []Value{"none"}}, {name: "slice", args: []Value{pick}}, {name: "slice", args: []Value{pick, pick}}, {name: "join", args: []Value{", "}}, {name: "join"}}
				if big {
					l = []call11{l[0], l[1], l[5], l[7]}
				}
				k := fill(l[c.Choose(len(l))])
				k.recv = r
				c.builtin(k)
				return
			}
			u := []string{"a", "é", "日b"}[c.Choose(3-b2i(big))]
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(u)
				if i%7 == 3 {
					b.WriteString(", ")
				}
			}
			t := b.String()
			l := []call11{{name: "len"}, {name: "reverse"}, {name: "upper"}, {name: "lower"}, {name: "capitalize"}, {name: "split"}, {name: "split", args: []Value{", "}}, {name: "split", args: []Value{""}}, {name: "trim"}, {name: "trim", args: []Value{u}}, {name: "trimLeft", args: []Value{u}}, {name: "trimRight", args: []Value{u}}, {name: "first"}, {name: "last"}, {name: "raw"}, {name: "contains", args: []Value{t}}, {name: "contains", args: []Value{u + ","}}, {name: "contains", args: []Value{t + u}}, {name: "at", args: []Value{pick}}, {name: "truncate", args: []Value{pick}}, {name: "truncate", args: []Value{pick, u}}, {name: "repeat", args: []Value{int64(2)}}, {name: "decimal"}}
			if big {
				l = []call11{l[0], l[1], l[5], l[13], l[18], l[19]}
			}
			k := fill(l[c.Choose(len(l))])
			k.recv = t
			c.builtin(k)
		}},
		{Name: "equality", Space: "contains() as structural equality: all ordered pairs out of 170 values (scalars, arrays and objects nested up to depth 2) x position of the element", Run: func(c *C) {
			x, y := universe[c.Choose(len(universe))], universe[c.Choose(len(universe))]
			r := A(y)
			switch c.Choose(3) {
			case 1:
				r = A(int64(77), y, "q")
			case 2:
				r = A(A(x), y)
			}
			c.builtin(call11{recv: r, name: "contains", args: []Value{x}})
		}},
		{Name: "integers", Space: "abs, float, str, len, decimal on every integer in -2000..2000, every power of 2 and 10 +-2 and its negation", Run: func(c *C) {
			var n int64
			switch c.Choose(3) {
			case 0:
				n = int64(c.Choose(4001)) - 2000
			case 1:
				n = int64(1)<<uint(c.Choose(64)) + int64(c.Choose(5)) - 2
			case 2:
				n = 1
				for i := c.Choose(19); i > 0; i-- {
					n *= 10
				}
				n += int64(c.Choose(5)) - 2
				if c.Bool() {
					n = -n
				}
			}
			k := call11{recv: n, name: BuiltinNames["int"][c.Choose(5)]}
			c.builtin(k)
		}},
		{Name: "floats", Space: "int, abs, ceil, floor, round, str on all k/16 with |k| <= 1600, all k/100 with |k| <= 1000, n+0.5 and its two neighbours for every power of two up to 2^52, both signs", Run: func(c *C) {
			var x float64
			switch c.Choose(4) {
			case 0:
				x = float64(c.Choose(3201)-1600) / 16
			case 1:
				x = float64(c.Choose(2001)-1000) / 100
			case 2:
				x = near(math.Ldexp(1, c.Choose(53)) + []float64{-0.5, 0, 0.5, 1.5}[c.Choose(4)])[c.Choose(3)]
				if c.Bool() {
					x = -x
				}
			case 3:
				x = near(math.Ldexp(1, -c.Choose(30)))[c.Choose(3)]
				if c.Bool() {
					x = -x
				}
			}
			n := BuiltinNames["float"][c.Choose(6)]
			if n == "str" && x == math.Trunc(x) && math.Abs(x) < 1e15 && !(x == 0 && math.Signbit(x)) {
				src := "{{ v.str() }}"
				c.Begin(fmt.Sprintf("%q with v=%v", src, x))
				o := evalString(src, map[string]any{"v": x})
				if s := FloatText(x); o.Err != nil || o.S != s && o.S != strings.TrimSuffix(s, ".0") {
					c.Fail("rendered %v, must be %q or the same without the fraction", o, s)
				}
				return
			}
			c.builtin(call11{recv: x, name: n})
		}},
		{Name: "chains", Space: "all compositions of 3 (thorough: 4) built-ins with fixed arguments from 13 receivers, each result the receiver of the next; compared with the model", Run: func(c *C) {
			r := chainRecv[c.Choose(len(chainRecv))]
			v := r
			src := "v"
			for i := 0; i < 3+b2i(c.Thorough); i++ {
				l := chain[TypeOf(v)]
				if l == nil || len(l) == 0 {
					break
				}
				k := l[c.Choose(len(l))]
				w, _, f := Builtin(v, k.name, k.args)
				if f != nil {
					c.Skip()
				}
				var as []string
				for _, a := range k.args {
					as = append(as, Plain(Lit{a}))
				}
				src += "." + k.name + "(" + strings.Join(as, ", ") + ")"
				v = w
			}
			s := "{{ r = " + src + " }}[{{ r }}][{{ [r].contains(x) }}][{{ v }}]"
			c.Begin(fmt.Sprintf("%q with v=%s", s, show(r)))
			o := evalString(s, map[string]any{"v": ToGo(r), "x": ToGo(v)})
			if Odd(v) {
				c.Note("unspecified")
				return
			}
			c.exactly("chain", o, "["+Print(v)+"][1]["+Print(r)+"]")
		}},
		{Name: "histories", Space: "all histories of up to 4 (thorough: 5, out of 6) array operations out of 9 (append, prepend, reverse, slice, shuffle ...), each on any array made so far, from 3 base arrays; afterwards every array still has the value it was given", Run: func(c *C) {
			base := []Value{A(int64(1), int64(2), int64(3)), A(), A("x", A(int64(1)))}[c.Choose(3)]
			vals := [][]Value{base.(*Arr).E}
			loose := []bool{false} // order not determined
			src := ""
			if c.Bool() {
				src = "{{ a0 = " + Plain(Lit{base}) + " }}"
			}
			n := 1 + c.Choose(4+b2i(c.Thorough))
			for i := 1; i <= n; i++ {
				r := c.Choose(len(vals))
				l := steps
				if n == 5 {
					l = steps[:6]
				}
				st := l[c.Choose(len(l))]
				src += fmt.Sprintf("{{ a%d = a%d.%s }}", i, r, st.src)
				switch st.src {
				case "append(a0)":
					vals = append(vals, append(cp(vals[r]...), A(vals[0]...)))
					loose = append(loose, loose[r])
				case "shuffle()":
					vals = append(vals, vals[r])
					loose = append(loose, len(vals[r]) > 1)
				default:
					if loose[r] && strings.HasPrefix(st.src, "slice") {
						c.Skip()
					}
					vals = append(vals, st.fn(vals[r]))
					loose = append(loose, loose[r])
				}
			}
			for i := range vals {
				src += fmt.Sprintf("<[{{ a%d.join('][') }}]{{ a%d.len() }}>", i, i)
			}
			d := map[string]any{"a0": ToGo(base)}
			c.Begin(fmt.Sprintf("%q with a0=%s", src, show(base)))
			c.States(n+1, n)
			o := evalString(src, d)
			if !reflect.DeepEqual(d["a0"], ToGo(base)) {
				c.Fail("the data of the caller was changed to %v", d["a0"])
			}
			if o.Err != nil {
				c.Fail("failed: %v", o.Err)
				return
			}
			got := strings.Split(strings.TrimSuffix(strings.TrimPrefix(o.S, "<"), ">"), "><")
			if len(got) != len(vals) {
				c.Fail("rendered %q", o.S)
				return
			}
			for i, v := range vals {
				c.elements(fmt.Sprintf("a%d", i), got[i], v, loose[i])
			}
		}},
		{Name: "random", Space: "shuffle() and rand() of all arrays up to length 4 over 4 element kinds, and length 100, six times each: a permutation / a member, the receiver unchanged", Run: func(c *C) {
			el := []Value{int64(1), "é", A(int64(1), "z"), nil}
			r := A()
			if n := c.Choose(6); n < 5 {
				for i := 0; i < n; i++ {
					r.E = append(r.E, el[c.Choose(4)])
				}
			} else {
				r = upTo(100)
			}
			src := "{{ w = v.shuffle() }}[{{ w.join('][') }}]{{ w.len() }}<{{ v.contains(v.rand()) }}|{{ v }}|{{ [v].contains(v0) }}|{{ w.len() }}"
			c.Begin(fmt.Sprintf("%q with v=%s", src, show(r)))
			for i := 0; i < 6; i++ {
				d, d0 := map[string]any{"v": ToGo(r), "v0": ToGo(r)}, map[string]any{"v": ToGo(r), "v0": ToGo(r)}
				o := evalString(src, d)
				c.unchanged(d, d0)
				if o.Err != nil {
					c.Fail("failed: %v", o.Err)
					return
				}
				has := b2i(len(r.E) > 0)
				for _, e := range r.E {
					if e == nil {
						has = 1
					}
				}
				got, rest, _ := strings.Cut(o.S, "<")
				if w := fmt.Sprintf("%d|%s|1|%d", has, Print(r), len(r.E)); rest != w {
					c.Fail("rendered %q, must be %q", rest, w)
				}
				c.elements("shuffle of "+show(r), got, r.E, true)
			}
		}},
		{Name: "every-character", Space: "every character U+0001..U+FFFF (thorough: U+10FFFF): len, reverse, first, last, at, capitalize, upper, lower, split, truncate on texts with 256 of them", Run: func(c *C) {
			hi := 0x100
			if c.Thorough {
				hi = 0x1100
			}
			b := c.Choose(hi)
			var r []rune
			for i := 0; i < 256; i++ {
				x := rune(b<<8 + i)
				if x == '&' || x >= 0xd800 && x < 0xe000 {
					continue
				}
				r = append(r, x)
			}
			if len(r) == 0 {
				c.Skip()
			}
			ns := []string{"len", "reverse", "first", "last", "capitalize", "upper", "lower", "split", "truncate", "trim", "contains"}
			n := ns[c.Choose(len(ns))]
			k := call11{recv: string(r), name: n}
			switch n {
			case "split":
				k.args = []Value{""}
			case "truncate":
				k.args = []Value{int64(len(r) - 1), "\u2026"}
			case "trim":
				k.args = []Value{string(r[:7]) + string(r[len(r)-9:])}
			case "contains":
				k.args = []Value{string(r[3:6])}
			}
			c.builtin(k)
		}},
		{Name: "capitals", Space: "capitalize of every character U+0001..U+FFFF before 'bC' (thorough: U+10FFFF)", Run: func(c *C) {
			hi := 0x100
			if c.Thorough {
				hi = 0x1100
			}
			b := c.Choose(hi)
			src := "@each(s in v){{ s.capitalize() }}|{{ s.first() }}|{{ s.len() }}|{{ s.truncate(1, '') }}/@end"
			var l []any
			want := ""
			for i := 0; i < 256; i++ {
				x := rune(b<<8 + i)
				if x >= 0xd800 && x < 0xe000 {
					continue
				}
				l = append(l, string(x)+"bC")
				want += strings.ToUpper(string(x)) + "bC|" + string(x) + "|3|" + string(x) + "/"
			}
			c.Begin(fmt.Sprintf("%q for the characters U+%04X..", src, b<<8))
			o := evalString(src, map[string]any{"v": l})
			c.exactly("characters", o, want)
		}},
		// keep last: it fills the registry of the process
		{Name: "precedence", Space: "custom functions registered under every built-in name of every type: every built-in on its receivers still gives the built-in's result or error (argument tuples up to length 1, 2 to 5 arguments of 3 kinds)", Setup: func(w *Worker) {
			for _, n := range BuiltinNames["str"] {
				textwire.RegisterStrFunc(n, func(s string, a ...any) string { return "CUSTOM" })
			}
			for _, n := range BuiltinNames["arr"] {
				textwire.RegisterArrFunc(n, func(s []any, a ...any) []any { return []any{"CUSTOM"} })
			}
			for _, n := range BuiltinNames["int"] {
				textwire.RegisterIntFunc(n, func(s int, a ...any) int { return -4242 })
			}
			for _, n := range BuiltinNames["float"] {
				textwire.RegisterFloatFunc(n, func(s float64, a ...any) float64 { return -42.42 })
			}
			for _, n := range BuiltinNames["bool"] {
				textwire.RegisterBoolFunc(n, func(s bool, a ...any) bool { return !s })
			}
		}, Run: func(c *C) {
			k := calls[c.Choose(len(calls))]
			switch n := c.Choose(6); n {
			case 0:
			case 1:
				k.args = []Value{args[c.Choose(len(args))]}
			default:
				l := []Value{int64(1), ",", A(int64(2))}
				for i, o := 0, c.Choose(9); i < n; i++ {
					k.args = append(k.args, l[o%3])
					if i == 0 {
						o /= 3
					}
				}
			}
			if k.name == "shuffle" && len(k.recv.(*Arr).E) > 1 || k.name == "rand" && len(k.recv.(*Arr).E) > 1 {
				c.Skip()
			}
			k.lit = c.Bool()
			if k.lit && (!literal(k.recv) || !literal(A(k.args...))) {
				c.Skip()
			}
			c.builtin(k)
			if !k.lit {
				d, as := map[string]any{"v": ToGo(k.recv)}, []string{}
				for i, a := range k.args {
					as = append(as, string(rune('a'+i)))
					d[as[i]] = ToGo(a)
				}
				o := evalString("{{ v."+k.name+"("+strings.Join(as, ", ")+") }}", d)
				if o.Err == nil && (strings.Contains(o.S, "CUSTOM") || o.S == "-4242" || o.S == "-42.42") {
					c.Fail("the custom function %s was called", k.name)
				}
			}
		}},
	}})
}

// elements compares "[x][y]2" with a list of elements
func (c *C) elements(what, got string, v []Value, anyOrder bool) {
	var p []string
	for _, e := range v {
		p = append(p, Print(e))
	}
	k := strings.LastIndex(got, "]")
	if k < 1 {
		c.Fail("%s is %q", what, got)
		return
	}
	g := strings.Split(got[1:k], "][")
	if len(p) == 0 {
		p = []string{""}
	}
	if anyOrder {
		sort.Strings(p)
		sort.Strings(g)
	}
	if !reflect.DeepEqual(p, g) || got[k+1:] != fmt.Sprint(len(v)) {
		c.Fail("%s is %q, must have the %d elements %q", what, got, len(v), p)
	}
}

func upTo(n int) *Arr {
	a := A()
	for i := 0; i < n; i++ {
		a.E = append(a.E, int64(i*3+1))
	}
	return a
}
