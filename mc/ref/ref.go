// Package ref is the reference model of the template language: an AST with a
// printer, an evaluator and value semantics, written from the language
// description and independent of the implementation.
package ref

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- values

// Value is nil, bool, int64, float64, string, *Arr or *Obj.
type Value any

type Arr struct{ E []Value }

type Obj struct {
	M      map[string]Value
	Struct bool // built from a Go struct: the first letter may be lower case
}

func TypeOf(v Value) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "bool"
	case int64:
		return "int"
	case float64:
		return "float"
	case string:
		return "str"
	case *Arr:
		return "arr"
	case *Obj:
		return "obj"
	}
	panic("ref: not a value")
}

func Truthy(v Value) bool {
	switch v := v.(type) {
	case nil:
		return false
	case bool:
		return v
	case int64:
		return v != 0
	case float64:
		return v != 0
	case string:
		return v != ""
	}
	return true
}

func FloatText(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatFloat(f, 'f', 1, 64)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// Print gives the text of a printed value
func Print(v Value) string {
	switch v := v.(type) {
	case nil:
		return ""
	case bool:
		if v {
			return "1"
		}
		return "0"
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return FloatText(v)
	case string:
		return v
	case *Arr:
		var p []string
		for _, e := range v.E {
			p = append(p, Print(e))
		}
		return strings.Join(p, ", ")
	case *Obj:
		var p []string
		for _, k := range v.Keys() {
			p = append(p, k+": "+Print(v.M[k]))
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	panic("ref: not a value")
}

func (o *Obj) Keys() []string {
	var ks []string
	for k := range o.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Equal is structural equality
func Equal(a, b Value) bool {
	if TypeOf(a) != TypeOf(b) {
		return false
	}
	switch a := a.(type) {
	case *Arr:
		b := b.(*Arr)
		if len(a.E) != len(b.E) {
			return false
		}
		for i := range a.E {
			if !Equal(a.E[i], b.E[i]) {
				return false
			}
		}
		return true
	case *Obj:
		b := b.(*Obj)
		if len(a.M) != len(b.M) {
			return false
		}
		for k := range a.M {
			w, ok := b.M[k]
			if !ok || !Equal(a.M[k], w) {
				return false
			}
		}
		return true
	}
	return a == b
}

// Escape is the HTML escaping of string literals
func Escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '&':
			b.WriteString("&amp;")
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- failures

// Fail is a render that has to fail (Unspec false) or whose result the
// language description leaves open (Unspec true).
type Fail struct {
	Why    string
	Unspec bool
}

func errf(why string) *Fail   { return &Fail{Why: why} }
func unspec(why string) *Fail { return &Fail{Why: why, Unspec: true} }

// ---------------------------------------------------------------- expressions

type Expr interface{}

type (
	Lit struct{ V Value }
	Num struct{ Src string } // a numeric literal given by its digits
	Var struct{ N string }
	Un  struct {
		Op string
		X  Expr
	}
	Post struct {
		Op string
		X  Expr
	}
	Bin struct {
		Op   string
		L, R Expr
	}
	Tern struct{ C, T, E Expr }
	Idx  struct{ X, I Expr }
	Dot  struct {
		X Expr
		N string
	}
	Call struct {
		X Expr
		N string
		A []Expr
	}
	ArrL struct{ E []Expr }
	ObjL struct {
		K []string
		V []Expr
	}
	Par struct{ X Expr }
)

const (
	lvTern = iota + 1
	lvEq
	lvCmp
	lvSum
	lvProd
	lvMember
	lvPrefix
	lvIndex
	lvPostfix
	lvPrim
)

func opLevel(op string) int {
	switch op {
	case "==", "!=":
		return lvEq
	case "<", ">", "<=", ">=":
		return lvCmp
	case "+", "-":
		return lvSum
	case "*", "/", "%":
		return lvProd
	}
	panic("ref: operator " + op)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// level is the loosest operator that is exposed when the expression is written
// without parentheses around it
func level(e Expr) int {
	switch e := e.(type) {
	case Tern:
		return lvTern
	case Bin:
		return opLevel(e.Op)
	case Un:
		return lvPrefix
	case Dot:
		return min(lvMember, chain(e.X))
	case Call:
		return min(lvMember, chain(e.X))
	case Idx:
		return min(lvIndex, chain(e.X))
	case Post:
		return min(lvPostfix, chain(e.X))
	case Lit:
		switch v := e.V.(type) {
		case int64:
			if v < 0 {
				return lvPrefix
			}
		case float64:
			if v < 0 || (v == 0 && math.Signbit(v)) {
				return lvPrefix
			}
		}
	}
	return lvPrim
}

// chain is the level of the subject of a suffix operator
func chain(e Expr) int {
	l := level(e)
	if l < lvMember {
		return lvPrim // it gets parentheses
	}
	return l
}

// Style is a way of writing an expression down
type Style struct {
	Sep   int // 0 one blank between tokens, 1 as tight as possible, 2 new lines, 3 tabs and CRLF
	Paren int // 0 only where needed, 1 around every operator expression, 2 around every sub-expression twice
	Quote byte
}

type toks []string

func (s Style) paren(t toks) toks {
	return append(append(toks{"("}, t...), ")")
}

func (s Style) child(e Expr, needParen bool) toks {
	t := s.toks(e)
	if needParen {
		t = s.paren(t)
	}
	if _, ok := e.(Par); ok {
		return t
	}
	switch s.Paren {
	case 1:
		if level(e) < lvPrim && !needParen {
			t = s.paren(t)
		}
	case 2:
		t = s.paren(s.paren(t))
	}
	return t
}

func (s Style) toks(e Expr) toks {
	switch e := e.(type) {
	case Par:
		return s.paren(s.toks(e.X))
	case Num:
		return toks{e.Src}
	case Var:
		return toks{e.N}
	case Lit:
		return s.lit(e.V)
	case Un:
		return append(toks{e.Op}, s.child(e.X, level(e.X) < lvPrefix)...)
	case Post:
		return append(s.suffixed(e.X, lvPostfix), e.Op)
	case Idx:
		t := append(s.suffixed(e.X, lvIndex), "[")
		return append(append(t, s.child(e.I, false)...), "]")
	case Dot:
		return append(s.suffixed(e.X, lvMember), ".", e.N)
	case Call:
		t := append(s.suffixed(e.X, lvMember), ".", e.N, "(")
		for i, a := range e.A {
			if i > 0 {
				t = append(t, ",")
			}
			t = append(t, s.child(a, false)...)
		}
		return append(t, ")")
	case Bin:
		l := opLevel(e.Op)
		t := append(s.child(e.L, level(e.L) < l), e.Op)
		return append(t, s.child(e.R, level(e.R) <= l)...)
	case Tern:
		t := append(s.child(e.C, level(e.C) <= lvTern), "?")
		t = append(t, s.child(e.T, level(e.T) <= lvTern)...)
		t = append(t, ":")
		return append(t, s.child(e.E, false)...)
	case ArrL:
		t := toks{"["}
		for i, a := range e.E {
			if i > 0 {
				t = append(t, ",")
			}
			t = append(t, s.child(a, false)...)
		}
		return append(t, "]")
	case ObjL:
		t := toks{"{"}
		for i, a := range e.V {
			if i > 0 {
				t = append(t, ",")
			}
			t = append(append(t, e.K[i], ":"), s.child(a, false)...)
		}
		return append(t, "}")
	}
	panic("ref: not an expression")
}

// suffixed writes the subject of a suffix operator
func (s Style) suffixed(x Expr, lv int) toks {
	l := level(x)
	need := l < lvMember || (l == lvPrefix && lv > lvPrefix) || needsGuard(x, lv)
	return s.child(x, need)
}

// a chain that starts with a prefix operator: -a.b is (-a).b, but -a[0] is
// -(a[0]); once a member access ended the operand of the prefix operator the
// rest of the chain applies to the whole
func needsGuard(x Expr, lv int) bool {
	switch x := x.(type) {
	case Un:
		return lv > lvPrefix
	case Lit:
		return level(x) == lvPrefix && lv > lvPrefix
	}
	return false
}

func (s Style) lit(v Value) toks {
	switch v := v.(type) {
	case nil:
		return toks{"nil"}
	case bool:
		if v {
			return toks{"true"}
		}
		return toks{"false"}
	case int64:
		if v < 0 {
			if v == math.MinInt64 {
				panic("ref: the smallest integer has no literal")
			}
			return toks{"-", strconv.FormatInt(-v, 10)}
		}
		return toks{strconv.FormatInt(v, 10)}
	case float64:
		neg := v < 0 || (v == 0 && math.Signbit(v))
		t := strconv.FormatFloat(math.Abs(v), 'f', -1, 64)
		if !strings.Contains(t, ".") {
			t += ".0"
		}
		if neg {
			return toks{"-", t}
		}
		return toks{t}
	case string:
		return toks{s.str(v)}
	case *Arr:
		var e []Expr
		for _, x := range v.E {
			e = append(e, Lit{x})
		}
		return s.toks(ArrL{e})
	case *Obj:
		o := ObjL{}
		for _, k := range v.Keys() {
			o.K = append(o.K, k)
			o.V = append(o.V, Lit{v.M[k]})
		}
		return s.toks(o)
	}
	panic("ref: no literal")
}

func (s Style) str(v string) string {
	q := s.Quote
	if q == 0 {
		q = '\''
	}
	return StrLit(v, q)
}

// StrLit writes a string literal
func StrLit(v string, q byte) string {
	return string(q) + strings.ReplaceAll(v, string(q), "\\"+string(q)) + string(q)
}

func wordByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
}

func mustSeparate(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	switch {
	case wordByte(x) && wordByte(y):
		return true
	case x == '-' && y == '-', x == '+' && y == '+':
		return true
	case y == '=' && (x == '<' || x == '>' || x == '!' || x == '='):
		return true
	case x == '.' && y >= '0' && y <= '9', x >= '0' && x <= '9' && a[0] >= '0' && a[0] <= '9' && b == "." && false:
		return true
	}
	return false
}

func (s Style) join(t toks) string {
	var b strings.Builder
	for i, x := range t {
		if i > 0 {
			switch s.Sep {
			case 0:
				b.WriteByte(' ')
			case 1:
				if mustSeparate(t[i-1], x) {
					b.WriteByte(' ')
				}
			case 2:
				b.WriteByte('\n')
			case 3:
				b.WriteString("\t\r\n")
			case 4: // the usual way: blanks around binary operators and after commas
				switch {
				case t[i-1] == "(", t[i-1] == "[", x == ")", x == "]", x == ",", t[i-1] == ".", x == ".", x == "(" && i > 1 && t[i-2] == ".", x == "[" && (wordByte(t[i-1][len(t[i-1])-1])):
					if mustSeparate(t[i-1], x) {
						b.WriteByte(' ')
					}
				default:
					b.WriteByte(' ')
				}
			}
		}
		b.WriteString(x)
	}
	return b.String()
}

// Expr writes an expression
func (s Style) Expr(e Expr) string { return s.join(s.child(e, false)) }

// Plain writes an expression in the usual way
func Plain(e Expr) string { return Style{Sep: 4}.Expr(e) }

// Odd reports values whose printed text the language description leaves open:
// infinities, NaN, negative zero and floats beyond 1e15
func Odd(v Value) bool {
	switch v := v.(type) {
	case float64:
		return math.IsNaN(v) || math.Abs(v) >= 1e15 || (v == 0 && math.Signbit(v)) || (v != 0 && math.Abs(v) < 1e-9)
	case *Arr:
		for _, e := range v.E {
			if Odd(e) {
				return true
			}
		}
	case *Obj:
		for _, e := range v.M {
			if Odd(e) {
				return true
			}
		}
	}
	return false
}

// ToGo converts to the plain Go value
func ToGo(v Value) any {
	switch v := v.(type) {
	case *Arr:
		r := make([]any, len(v.E))
		for i, e := range v.E {
			r[i] = ToGo(e)
		}
		return r
	case *Obj:
		r := map[string]any{}
		for k, e := range v.M {
			r[k] = ToGo(e)
		}
		return r
	}
	return v
}

// GoMap converts a data map
func GoMap(m map[string]Value) map[string]any {
	if m == nil {
		return nil
	}
	r := map[string]any{}
	for k, v := range m {
		r[k] = ToGo(v)
	}
	return r
}

func A(e ...Value) *Arr { return &Arr{E: e} }

func O(kv ...any) *Obj {
	o := &Obj{M: map[string]Value{}}
	for i := 0; i+1 < len(kv); i += 2 {
		o.M[kv[i].(string)] = kv[i+1]
	}
	return o
}
