package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// The registry is process wide.  In the instrumented build every case starts
// from a fresh one; otherwise every case has names of its own.

var serial20 int

func fresh20() func(name string) string {
	if instrumented {
		resetLib()
		return func(n string) string { return n }
	}
	serial20++
	k := serial20
	return func(n string) string { return fmt.Sprintf("%sq%d", n, k) }
}

var types20 = []string{"str", "arr", "int", "float", "bool"}

// words20 name the type in the error of a missing function
var words20 = map[string]string{"str": "STR", "arr": "ARR", "int": "INT", "float": "FLOAT", "bool": "BOOL", "obj": "OBJ", "nil": "NIL"}

// call20 is one call that a function received
type call20 struct {
	typ  string
	recv any
	args []any
}

// register20 registers a function that passes everything on
func register20(typ, name string, f func(call20) any) error {
	switch typ {
	case "str":
		return textwire.RegisterStrFunc(name, func(s string, a ...any) string { return f(call20{"str", s, a}).(string) })
	case "arr":
		return textwire.RegisterArrFunc(name, func(s []any, a ...any) []any {
			r, _ := f(call20{"arr", s, a}).([]any)
			return r
		})
	case "int":
		return textwire.RegisterIntFunc(name, func(s int, a ...any) int { return f(call20{"int", s, a}).(int) })
	case "float":
		return textwire.RegisterFloatFunc(name, func(s float64, a ...any) float64 { return f(call20{"float", s, a}).(float64) })
	case "bool":
		return textwire.RegisterBoolFunc(name, func(s bool, a ...any) bool { return f(call20{"bool", s, a}).(bool) })
	}
	panic("c20: no type " + typ)
}

// result20 is a result that tells functions apart: k-th function
func result20(typ string, k int) any {
	switch typ {
	case "str":
		return fmt.Sprintf("fn%d", k)
	case "arr":
		return []any{"fn", k}
	case "int":
		return 1000 + k
	case "float":
		return float64(k) + 0.5
	}
	return k%2 == 0
}

func shown20(typ string, k int) string {
	switch typ {
	case "str":
		return fmt.Sprintf("fn%d", k)
	case "arr":
		return fmt.Sprintf("fn, %d", k)
	case "int":
		return fmt.Sprint(1000 + k)
	case "float":
		return fmt.Sprintf("%d.5", k)
	}
	return fmt.Sprint(b2i(k%2 == 0))
}

var lits20 = map[string]string{"str": "'s'", "arr": "[1]", "int": "7", "float": "1.5", "bool": "true", "obj": "{a: 1}", "nil": "nil"}
var vars20 = map[string]any{"str": "x", "arr": []any{"e"}, "int": 3, "float": 2.5, "bool": false, "obj": map[string]any{"k": 1}, "nil": nil}

func data20() map[string]any {
	d := map[string]any{}
	for t, v := range vars20 {
		d["v"+t] = v
	}
	return d
}

// plain20 compares what a function received with the value of the template
func plain20(want Value, got any) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case int64:
		switch g := got.(type) {
		case int:
			return int64(g) == w
		case int64:
			return g == w
		}
		return false
	case float64:
		g, ok := got.(float64)
		return ok && (math.Float64bits(g) == math.Float64bits(w) || g != g && w != w)
	case *Arr:
		g, ok := got.([]any)
		if !ok || len(g) != len(w.E) {
			return false
		}
		for i := range g {
			if !plain20(w.E[i], g[i]) {
				return false
			}
		}
		return true
	case *Obj:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w.M) {
			return false
		}
		for k, e := range w.M {
			v, ok := g[k]
			if !ok {
				// how fields of structs are written is not said
				for n, x := range g {
					if strings.EqualFold(n, k) && !ok {
						v, ok = x, true
					}
				}
			}
			if !ok || !plain20(e, v) {
				return false
			}
		}
		return true
	}
	return false
}

// forms20 are the ways in which a value is the receiver or an argument: text
// before, the expression, text after (%s is the literal)
var forms20 = []struct{ name, pre, x, post string }{
	{"variable", "", "V", ""}, {"property", "", "oV.k", ""}, {"index", "", "lV[1]", ""}, {"key", "", "oV['k']", ""}, {"parenthesised", "", "(V)", ""},
	{"assigned", "{{ aV = V }}", "aV", ""}, {"ternary", "", "(true ? V : V)", ""}, {"loop variable", "@each(eV in [V])", "eV", "@end"}, {"deep", "", "[{q: [V]}][0].q[0]", ""}, {"object literal", "", "{k: V}.k", ""},
}

// uses20 are the uses of a value X (V: the same value as data)
var uses20 = []string{
	"{{ X }}", "a{{ X }}b{{ X }}", "{{ x = X; x }}", "@dump(X)", "@dump(1, X, 's')", "@if(X)y@else n@end", "@if(false)a@elseif(X)b@else c@end", "{{ X ? 'y' : 'n' }}", "{{ true ? X : 1 }}", "{{ !(X) }}", "{{ -(X) }}",
	"{{ X == V }}", "{{ X != V }}", "{{ V == X }}", "{{ X < V }}", "{{ X >= V }}", "{{ X + X }}", "{{ X + 1 }}", "{{ X * 2 }}", "{{ X - V }}", "{{ X / 2 }}", "{{ X % 7 }}", "{{ X + 1.5 }}", "{{ X * 0.5 }}", "{{ X + 's' }}", "{{ 's' + X }}",
	"{{ [X, 1] }}", "{{ {k: X} }}", "{{ {k: X}.k }}", "{{ [X][0] }}", "@each(i in X){{ i }},{{ loop.index }}{{ loop.last }}@else e@end", "@each(i in X)@dump(i)@end", "@each(i in [X, X]){{ i }}@end",
	"{{ X[0] }}", "{{ X[1] }}", "{{ X[0][0] }}", "{{ X[0].k }}", "{{ X[0].a }}", "{{ X.k }}", "{{ X.len() }}", "{{ X.upper() }}", "{{ X.raw() }}", "{{ X.append(1) }}", "{{ X.prepend(X) }}", "{{ X.reverse() }}", "{{ X.join('-') }}", "{{ X.abs() }}", "{{ X.str() }}",
	"{{ X.str() + 'z' }}", "{{ X.float() }}", "{{ X.int() }}", "{{ X.floor() }}{{ X.round() }}", "{{ X.binary() }}", "{{ X.then('a', 'b') }}", "{{ X.contains(X) }}", "{{ X.slice(0) }}", "{{ X.split('') }}", "{{ X.truncate(2) }}", "{{ X.repeat(2) }}", "{{ X.first() }}", "{{ X.at(0) }}", "{{ X.capitalize() }}", "{{ X.trim() }}", "{{ X.decimal('.', 2) }}",
	"{{ x = X; x++; x }}{{ x-- }}", "{{ x = X; x = x + X; x }}", "{{ x = V; x = X; x }}", "{{ x = X; x = V; x }}", "{{ [1, X].contains(V) }}", "{{ [V].contains(X) }}", "@breakIf(X)z", "@each(i in [1, 2])@continueIf(X)z@end", "@for(i = 0; X && i < 2; i++)@end", "{{ 'é'.repeat(X) }}", "{{ [1, 2, 3][X] }}", "{{ {a: 1}[X] }}",
}

// out20 compares the uses of a result with the uses of the same value as data
func (c *C) out20(nm func(string) string, typ, desc string, res, twin any, use int) {
	cfg20 := nm("give")
	if err := register20(typ, cfg20, func(call20) any { return res }); err != nil {
		c.Fail("registering failed: %v", err)
		return
	}
	u := uses20[use]
	call := lits20[typ] + "." + cfg20 + "()"
	src := strings.ReplaceAll(strings.ReplaceAll(u, "X", call), "V", "v")
	ref := strings.ReplaceAll(strings.ReplaceAll(u, "X", "v"), "V", "v")
	want := evalString(ref, map[string]any{"v": twin})
	got := evalString(src, map[string]any{"v": twin})
	if (want.Err == nil) != (got.Err == nil) || want.S != got.S {
		c.Fail("%q with the result %s renders %q, %v; with the value as data %q, %v", src, desc, cut(got.S), got.Err, cut(want.S), want.Err)
	} else if want.Err == nil {
		c.Note("same output")
	} else {
		c.Note("both fail")
	}
}

// in20 calls a function with a receiver and arguments and compares what it got
func (c *C) in20(nm func(string) string, rv nv, rform int, args []nv, aforms []int) {
	typ := TypeOf(rv.v)
	name := nm("take")
	var calls []call20
	if err := register20(typ, name, func(k call20) any { calls = append(calls, k); return result20(typ, 4) }); err != nil {
		c.Fail("registering failed: %v", err)
		return
	}
	data := map[string]any{}
	pre, post := "", ""
	expr := func(v nv, form int, n string) string {
		data[n], data["o"+n], data["l"+n] = v.g, map[string]any{"k": v.g}, []any{0, v.g}
		if form == len(forms20) {
			return Default.Style.Expr(Lit{v.v})
		}
		f := forms20[form]
		pre += strings.ReplaceAll(f.pre, "V", n)
		post = f.post + post
		return strings.ReplaceAll(f.x, "V", n)
	}
	r := expr(rv, rform, "r")
	var as []string
	for i, a := range args {
		as = append(as, expr(a, aforms[i], string(rune('p'+i))))
	}
	src := pre + "{{ " + r + "." + name + "(" + strings.Join(as, ", ") + ") }}" + post
	c.Begin(fmt.Sprintf("%q with %s(%v)", src, rv.name, names20(args)))
	o := evalString(src, data)
	if want := shown20(typ, 4); o.Err != nil || o.S != want {
		c.Fail("rendered %q, %v, must render %q", cut(o.S), o.Err, want)
		return
	}
	if len(calls) != 1 {
		c.Fail("the function was called %d times", len(calls))
		return
	}
	k := calls[0]
	if !plain20(rv.v, k.recv) {
		c.Fail("the function received %#v for the receiver %s", k.recv, rv.name)
	}
	if len(k.args) != len(args) {
		c.Fail("the function received %d arguments %#v", len(k.args), k.args)
		return
	}
	for i, a := range args {
		if !plain20(a.v, k.args[i]) {
			c.Fail("the function received %#v (%T) for the argument %d, %s", k.args[i], k.args[i], i, a.name)
		}
	}
	c.Note("received")
}

func lit20(v Value) bool {
	return literal(v) && !strings.Contains(Default.Style.Expr(Lit{v}), "Éa")
}

func names20(l []nv) (r []string) {
	for _, v := range l {
		r = append(r, v.name)
	}
	return
}

// the model of the registry
type reg20 map[string]int // "type name" -> k-th function

// observe20 compares all calls with the model, through every given renderer
func (c *C) observe20(m reg20, names []string, builtin func(typ, name string) string, eval func(src string) out) {
	src, want := "", ""
	for _, t := range append(append([]string(nil), types20...), "obj", "nil") {
		for _, n := range names {
			k, known := m[t+" "+n]
			shown := ""
			if known {
				shown = shown20(t, k)
			}
			if b := builtin(t, n); b != "" {
				known, shown = true, b
			}
			for _, x := range []string{lits20[t], "v" + t} {
				if known {
					src += "{{ " + x + "." + n + "() }}|"
					want += shown + "|"
					continue
				}
				c.Traces(1)
				s := "{{ " + x + "." + n + "() }}"
				o := eval(s)
				c.missing(s, o, n, t)
			}
		}
	}
	c.Traces(1)
	o := eval(src)
	if o.Err != nil || o.S != want {
		c.Fail("%q renders %q, %v, must render %q", src, o.S, o.Err, want)
	}
}

func (c *C) missing(s string, o out, name, typ string) {
	if o.Err == nil {
		c.Fail("%q renders %q, there is no such function", s, cut(o.S))
	} else if o.S != "" {
		c.Fail("%q returns output %q with the error", s, cut(o.S))
	} else if !strings.Contains(o.Err.Error(), "'"+name+"'") && !strings.Contains(o.Err.Error(), name) || !strings.Contains(strings.ToUpper(o.Err.Error()), words20[typ]) {
		c.Fail("%q: error %q does not name the function %s and the type %s", s, o.Err, name, words20[typ])
	} else {
		c.Note("unregistered")
	}
}

func noBuiltin(string, string) string { return "" }

const dir20 = "site20"

// load20 loads a page that calls nothing and pages for every call
func (c *C) load20(files map[string]string) *textwire.Template {
	c.w.fs(dir20).sync(files)
	t, err := textwire.NewTemplate(&config.Config{TemplateDir: dir20, TemplateExt: ".tw"})
	if err != nil {
		c.Fail("loading failed: %v", err)
		return nil
	}
	return t
}

// pages20 has one page per type and name
func pages20(names []string) map[string]string {
	m := map[string]string{"lay.tw": "<@reserve('b')>", "c.tw": "({{ p.N() }})"}
	for _, t := range types20 {
		for i, n := range names {
			x := "v" + t
			if i%2 == 1 {
				x = lits20[t]
			}
			m[fmt.Sprintf("%s%d.tw", t, i)] = "@use('lay')@insert('b'){{ " + x + "." + n + "() }}@end"
		}
	}
	delete(m, "c.tw")
	return m
}

func (c *C) checkPages20(t *textwire.Template, m reg20, names []string) {
	for _, ty := range types20 {
		for i, n := range names {
			c.Traces(1)
			p := fmt.Sprintf("%s%d", ty, i)
			o := render(t, p, data20())
			if k, ok := m[ty+" "+n]; ok {
				if w := "<" + shown20(ty, k) + ">"; o.Err != nil || o.S != w {
					c.Fail("page %s (%s of %s) renders %q, %v, must render %q", p, n, ty, o.S, o.Err, w)
				}
			} else {
				c.missing("page "+p, o, n, ty)
			}
		}
	}
}

var fns20 = map[string]map[string]func(Value, []Value) (Value, *Fail){
	"str": {"cs": func(r Value, a []Value) (Value, *Fail) {
		return r.(string) + "<" + fmt.Sprint(len(a)) + strings.Join(mapText20(a), "/"), nil
	}},
	"arr": {"ca": func(r Value, a []Value) (Value, *Fail) {
		return &Arr{E: append(append([]Value(nil), r.(*Arr).E...), &Arr{E: a})}, nil
	}},
	"int":   {"ci": func(r Value, a []Value) (Value, *Fail) { return r.(int64)*2 + int64(len(a)), nil }},
	"float": {"cf": func(r Value, a []Value) (Value, *Fail) { return r.(float64)/2 + float64(len(a)), nil }},
	"bool":  {"cb": func(r Value, a []Value) (Value, *Fail) { return r.(bool) == (len(a) == 1), nil }},
}

func mapText20(a []Value) (r []string) {
	for _, v := range a {
		r = append(r, TypeOf(v))
	}
	return
}

func goType20(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case string:
		return "str"
	case bool:
		return "bool"
	case int, int64:
		return "int"
	case float64:
		return "float"
	case []any:
		return "arr"
	case map[string]any:
		return "obj"
	}
	return fmt.Sprintf("%T", v)
}

// twins20 registers the functions of fns20
func twins20() error {
	var errs []error
	errs = append(errs, textwire.RegisterStrFunc("cs", func(s string, a ...any) string {
		var l []string
		for _, v := range a {
			l = append(l, goType20(v))
		}
		return s + "<" + fmt.Sprint(len(a)) + strings.Join(l, "/")
	}), textwire.RegisterArrFunc("ca", func(s []any, a ...any) []any {
		return append(append([]any(nil), s...), a)
	}), textwire.RegisterIntFunc("ci", func(i int, a ...any) int { return i*2 + len(a) }),
		textwire.RegisterFloatFunc("cf", func(f float64, a ...any) float64 { return f/2 + float64(len(a)) }),
		textwire.RegisterBoolFunc("cb", func(b bool, a ...any) bool { return b == (len(a) == 1) }))
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

var ready20 bool

func (c *C) useTwins20() {
	if instrumented {
		resetLib()
	} else if ready20 {
		return
	}
	ready20 = true
	if err := twins20(); err != nil {
		c.Fail("registering failed: %v", err)
	}
}

// programs20 have a place for an expression everywhere
func programs20() (r [][]Stmt) {
	n, s, a, b, f, o := Var{"n"}, Var{"s"}, Var{"a"}, Var{"b"}, Var{"f"}, Var{"o"}
	one := Lit{int64(1)}
	return [][]Stmt{
		{Print1{n}}, {Text{"a"}, Print1{Bin{"+", n, one}}, Text{"b"}}, {Print1{Bin{"*", Par{Bin{"-", n, one}}, Bin{"/", n, Lit{int64(2)}}}}}, {Print1{Bin{"+", s, Lit{"x"}}}}, {Print1{Bin{"==", a, a}}, Print1{Bin{"<", f, Lit{1.5}}}},
		{Print1{Un{"-", n}}, Print1{Un{"!", b}}}, {Print1{Tern{b, n, one}}}, {Print1{Par{Tern{b, Par{Tern{b, s, s}}, s}}}}, {Print1{Idx{a, one}}, Print1{Idx{ArrL{[]Expr{n, s, a}}, Lit{int64(0)}}}}, {Print1{Dot{o, "k"}}, Print1{Dot{ObjL{[]string{"q"}, []Expr{n}}, "q"}}},
		{Print1{Call{a, "join", []Expr{s}}}}, {Print1{Call{Call{s, "upper", nil}, "repeat", []Expr{n}}}}, {Print1{Call{a, "append", []Expr{n, s, a}}}}, {Print1{Call{b, "then", []Expr{s, n}}}},
		{Print1{Call{Call{a, "ca", []Expr{n}}, "ca", []Expr{Call{s, "cs", []Expr{b}}}}}}, {Print1{Call{s, "cs", []Expr{nil0, n, f, s, b, a, o}}}},
		{If{C: []Expr{b, Bin{"==", n, one}}, B: [][]Stmt{{Print1{s}}, {Print1{a}}}, Else: []Stmt{Print1{f}}, Has: true}},
		{Each{V: "x", A: a, B: []Stmt{Print1{Var{"x"}}, Print1{n}, BreakIf{b}}, Else: []Stmt{Print1{s}}, Has: true}}, {Each{V: "x", A: ArrL{[]Expr{n, n}}, B: []Stmt{ContinueIf{b}, Text{"z"}, Print1{Var{"x"}}}}},
		// two ways to end: only one of them is changed at a time
		{Assign{"c", Lit{int64(0)}}, For{Init: Assign{"i", one}, C: Bin{"<", Var{"i"}, n}, Post: Print1{Post{"++", Var{"i"}}}, B: []Stmt{Assign{"c", Bin{"+", Var{"c"}, one}}, BreakIf{Bin{">", Var{"c"}, Lit{int64(5)}}}, Print1{Var{"i"}}}, Else: []Stmt{Print1{n}}, Has: true}},
		{Assign{"y", n}, Print1{Var{"y"}}, Assign{"y", Bin{"+", Var{"y"}, n}}, Print1{Var{"y"}}}, {Braces{[]Stmt{Assign{"y", s}, Print1{Var{"y"}}}}},
	}
}

var nil0 = Lit{nil}

func puts20() []Expr {
	call := func(x Expr, n string, a ...Expr) Expr { return Call{x, n, a} }
	return []Expr{
		call(Var{"s"}, "cs"), call(Lit{"lit"}, "cs", Var{"n"}, nil0), call(Call{Var{"s"}, "trim", nil}, "cs", ObjL{[]string{"a"}, []Expr{Var{"a"}}}),
		call(Var{"a"}, "ca"), call(ArrL{[]Expr{Lit{int64(2)}, Lit{"e"}}}, "ca", Var{"s"}), call(Call{Var{"a"}, "reverse", nil}, "ca", Var{"o"}, Var{"f"}),
		call(Var{"n"}, "ci"), call(Lit{int64(3)}, "ci", Lit{int64(1)}), call(Par{Bin{"-", Var{"n"}, Lit{int64(9)}}}, "ci"),
		call(Var{"f"}, "cf"), call(Lit{2.5}, "cf", Lit{"x"}, Lit{"y"}), call(Var{"b"}, "cb"), call(Lit{false}, "cb"), call(Lit{true}, "cb", Lit{int64(1)}),
		call(Dot{Var{"o"}, "k"}, "ci"), call(Idx{Var{"a"}, Lit{int64(0)}}, "ci"), call(Var{"n"}, "cs"), call(Var{"o"}, "ca"), call(Call{Var{"n"}, "str", nil}, "cs", Call{Var{"n"}, "ci", nil}),
	}
}

func init() {
	good := goodValues()
	var recvs []nv
	for _, v := range append(append([]nv(nil), good...), nv{"long", strings.Repeat("é<", 300), strings.Repeat("é<", 300), false}, nv{"markup", "<b>&amp; \"q\" 'r' {{ x }} @end \\", "<b>&amp; \"q\" 'r' {{ x }} @end \\", false}) {
		switch TypeOf(v.v) {
		case "nil", "obj":
		default:
			recvs = append(recvs, v)
		}
	}
	// sets of two names: unrelated, and ones that are easily mixed up
	pairs := [][2]string{{"f", "g"}, {"f", "F"}, {"f", "ff"}, {"f1", "f2"}, {"len", "leng"}, {"str", "int"}, {"join", "upper"}, {"_f", "f_"}}
	shown := map[string]string{} // results of the built-ins among the names
	for _, t := range types20 {
		for _, p := range pairs {
			for _, n := range p {
				if !IsBuiltin(t, n) {
					continue
				}
				shown[t+" "+n] = "built-in"
			}
		}
	}

	checks = append(checks, &Check{ID: "C20",
		Assumptions: []string{
			"results of custom functions have the Go types of the register functions; the elements of arrays any Go value that data may have",
			"an empty array arrives as an empty []any or a nil one; integers as int or int64",
			"the names of the fields of a Go struct in a map that a function receives are compared without case",
			"built-ins are those listed in the documentation (mc/ref/builtin.go)",
			"without the instrumented build the registry is not reset and every history has names of its own",
		},
		Families: []Family{
			{Name: "histories", Space: "all sequences of at most 4 (thorough: 5) operations out of {register a function of one of the 5 types under one of 2 names, load templates, a failing load, an evaluation, a failing call}, after the last (thorough also: after every) operation all 28 calls (7 receiver types, 2 names, literal and variable) by EvaluateString and 10 pages of every set of loaded templates: the first function of a name and type answers, later ones are refused, everything else is unregistered; names f and g; sequences of at most 3 for 7 more pairs of names that are alike or names of built-ins", Run: func(c *C) {
				pk := c.Choose(len(pairs))
				depth := 4 + b2i(c.Thorough)
				if pk > 0 {
					depth = 3
				}
				n := c.Choose(depth + 1)
				var ops []int
				for i := 0; i < n; i++ {
					ops = append(ops, c.Choose(14))
				}
				every := false
				if c.Thorough {
					every = c.Bool()
				}
				c.history20(pairs[pk], ops, every)
			}},
			{Name: "retries", Space: "n = 1..40 registrations of one name for one type (5 types), or in turn for all types, calls between them: the first one stays", Run: func(c *C) {
				n := 1 + c.Choose(40)
				k := c.Choose(len(types20) + 1)
				mid := c.Bool()
				c.Begin(fmt.Sprintf("%d registrations, types %d, calls between %v", n, k, mid))
				nm := fresh20()
				f := nm("f")
				m := reg20{}
				for i := 0; i < n; i++ {
					t := types20[i%len(types20)]
					if k < len(types20) {
						t = types20[k]
					}
					c.register(m, t, f, i)
					if mid {
						c.observe20(m, []string{f}, noBuiltin, func(s string) out { return evalString(s, data20()) })
					}
				}
				c.observe20(m, []string{f}, noBuiltin, func(s string) out { return evalString(s, data20()) })
			}},
			{Name: "precedence", Space: "every built-in name x every receiver type x {registered for that type, for all types} x 3 receivers: registering works once and fails the second time; the built-in answers where the type has it, the function elsewhere; also with arguments", Run: func(c *C) {
				var all []string
				seen := map[string]bool{}
				for _, t := range types20 {
					for _, n := range BuiltinNames[t] {
						if !seen[n] {
							seen[n] = true
							all = append(all, n)
						}
					}
				}
				name := all[c.Choose(len(all))]
				t := types20[c.Choose(len(types20))]
				allTypes := c.Bool()
				after := c.Bool()
				args := []string{"", "1", "'e'", "1, 2"}[c.Choose(4)]
				if !instrumented {
					c.Skip()
				}
				c.Begin(fmt.Sprintf("%s for %s, all types %v, call first %v, arguments %q", name, t, allTypes, after, args))
				srcs := []string{"{{ " + lits20[t] + "." + name + "(" + args + ") }}", "{{ v" + t + "." + name + "(" + args + ") }}", "@each(i in [v" + t + "]){{ i." + name + "(" + args + ") }}@end"}
				resetLib()
				var before []out
				for _, s := range srcs {
					before = append(before, evalString(s, data20()))
				}
				if !after {
					resetLib()
				}
				m := reg20{}
				for i, u := range types20 {
					if u == t || allTypes {
						c.register(m, u, name, i)
						c.register(m, u, name, i+5)
					}
				}
				for i, s := range srcs {
					c.Traces(1)
					o := evalString(s, data20())
					if IsBuiltin(t, name) {
						c.Note("built-in")
						if name == "rand" || name == "shuffle" {
							if o.Err != nil || strings.Contains(o.S, "fn") {
								c.Fail("%q renders %q, %v with a function registered", s, o.S, o.Err)
							}
						} else if o.S != before[i].S || (o.Err == nil) != (before[i].Err == nil) {
							c.Fail("%q renders %q, %v with a function registered, %q, %v before", s, o.S, o.Err, before[i].S, before[i].Err)
						}
						continue
					}
					c.Note("custom")
					if before[i].Err == nil {
						c.Fail("%q renders %q without such a function", s, before[i].S)
					}
					if w := shown20(t, m[t+" "+name]); o.Err != nil || o.S != w {
						c.Fail("%q renders %q, %v, must render %q", s, o.S, o.Err, w)
					}
				}
			}},
			{Name: "received", Space: fmt.Sprintf("every value of the five types out of a pool of %d as the receiver in %d forms (literal, variable, property, index, assigned, loop variable, ...); every pair of an argument out of %d values and a form; all pairs (thorough: triples) of arguments: the function receives the plain Go values", len(recvs), len(forms20)+1, len(good)), Run: func(c *C) {
				switch c.Choose(3) {
				case 0: // receiver and one argument in all forms
					rv := recvs[c.Choose(len(recvs))]
					rf := c.Choose(len(forms20) + 1)
					n := c.Choose(2)
					if rf == len(forms20) && !lit20(rv.v) {
						c.Skip()
					}
					var args []nv
					var fs []int
					if n == 1 {
						args, fs = []nv{rv}, []int{rf}
					}
					c.in20(fresh20(), rv, rf, args, fs)
				case 1: // an argument in all forms
					rv := recvs[[]int{1, 2, 9, 13, len(recvs) - 3}[c.Choose(5)]]
					a := good[c.Choose(len(good))]
					f := c.Choose(len(forms20) + 1)
					if f == len(forms20) && !lit20(a.v) {
						c.Skip()
					}
					c.in20(fresh20(), rv, 0, []nv{a}, []int{f})
				case 2:
					rv := recvs[[]int{1, 2, 9, 13, len(recvs) - 3}[c.Choose(5)]]
					var args []nv
					var fs []int
					for i := 2 + b2i(c.Thorough); i > 0; i-- {
						args = append(args, good[c.Choose(len(good))])
						fs = append(fs, 0)
					}
					c.in20(fresh20(), rv, 0, args, fs)
				}
			}},
			{Name: "received types", Space: fmt.Sprintf("values of %d Go types, each in every wrapper out of %d (thorough: in two), as argument and, where they are of one of the five types, as receiver", len(leaves12()), len(wraps12)), Run: func(c *C) {
				ls := leaves12()
				x := wrapType(c, ls[c.Choose(len(ls))], c.Choose(2+b2i(c.Thorough)))
				k := c.Choose(x.n)
				b, _ := x.pair(k)
				v := nv{x.name, b.g, b.m, false}
				asRecv := c.Bool()
				if asRecv {
					if t := TypeOf(b.m); t == "nil" || t == "obj" {
						c.Skip()
					}
					c.in20(fresh20(), v, 0, nil, nil)
					return
				}
				c.in20(fresh20(), nv{"7", 7, int64(7), false}, 0, []nv{v, v}, []int{0, 1})
			}},
			{Name: "results", Space: fmt.Sprintf("results out of a pool of %d values of the types str, int, float, bool and arr x %d uses: the same as with that Go value as data", len(recvs), len(uses20)), Run: func(c *C) {
				rv := recvs[c.Choose(len(recvs))]
				u := c.Choose(len(uses20))
				typ := TypeOf(rv.v)
				res := ToGo(rv.v)
				if typ == "int" {
					res = int(rv.v.(int64))
				}
				c.Begin(fmt.Sprintf("result %s in %q", rv.name, uses20[u]))
				c.out20(fresh20(), typ, rv.name, res, res, u)
			}},
			{Name: "array results", Space: fmt.Sprintf("arrays of 0..2 elements out of %d good and %d unsupported Go values (quick: no unsupported ones and every third second one in the pairs), and of one value of each of %d Go types in every wrapper (thorough: in two), as the result x %d uses (thorough: %d): the same as with that Go value as data; the result is left unchanged", len(good), len(badValues()), len(leaves12()), 22, len(uses20)), Run: func(c *C) {
				var res, twin []any
				desc := ""
				if c.Bool() {
					ls := leaves12()
					x := wrapType(c, ls[c.Choose(len(ls))], c.Choose(2+b2i(c.Thorough)))
					b, tw := x.pair(c.Choose(x.n))
					res, twin, desc = []any{b.g}, []any{tw}, x.name
				} else {
					l1, l2 := append(goodValues(), badValues()...), append(goodValues(), badValues()...)
					n := c.Choose(3)
					for i := 0; i < n; i++ {
						k := c.Choose(len(l1))
						if !c.Thorough && n == 2 && (l1[k].bad || i == 1 && k%3 > 0) {
							c.Skip()
						}
						res, twin = append(res, l1[k].g), append(twin, l2[k].g)
						desc += l1[k].name + " "
					}
				}
				few := []int{0, 2, 3, 11, 16, 26, 27, 30, 31, 32, 33, 35, 36, 37, 39, 42, 43, 44, 45, 57, 66, 70}
				u := 0
				if c.Thorough {
					u = c.Choose(len(uses20))
				} else {
					u = few[c.Choose(len(few))]
				}
				c.Begin(fmt.Sprintf("result [%s] in %q", desc, uses20[u]))
				c.out20(fresh20(), "arr", desc, res, twin, u)
				if len(desc) > 0 && !strings.Contains(desc, "self") && !deep20(res) && !sameGo20(res, twin) {
					c.Fail("the result of the function was changed to %#v", res)
				}
			}},
			{Name: "places", Space: fmt.Sprintf("%d programs x every place of an expression x %d calls of custom functions x 2 data: against the reference interpreter, as a string, a page, an insert and a slot body", len(programs20()), len(puts20())), Run: func(c *C) {
				ps := programs20()
				p := ps[c.Choose(len(ps))]
				put := puts20()[c.Choose(len(puts20()))]
				all := append([][]Stmt{p}, exprPositions(p, put)...)
				l := all[c.Choose(len(all))]
				k := c.Choose(2)
				how := c.Choose(4)
				d := Data{"n": int64(2), "s": "ab<", "a": A(int64(1), "e"), "b": true, "f": 2.5, "o": O("k", int64(4))}
				if k == 1 {
					d = Data{"n": int64(4), "s": "", "a": A(int64(5)), "b": false, "f": -0.5, "o": O("k", int64(0))}
				}
				site := &Site{Files: map[string][]Stmt{"p": l}}
				switch how {
				case 2:
					site.Files = map[string][]Stmt{"p": {Use{"lay"}, Insert{N: "b", B: l}}, "lay": {Text{"<"}, Reserve{"b"}, Text{">"}}}
				case 3:
					site.Files = map[string][]Stmt{"p": {Component{N: "c", Slots: []SlotUse{{N: "b", Has: true, B: l}}}}, "c": {Text{"<"}, Slot{N: "b", Has: true}, Text{">"}}}
				}
				files := siteSrc(Default, site)
				c.Begin(fmt.Sprintf("%s with %s", showFiles(files), showData(d)))
				c.useTwins20()
				want := Render(site, site.Files["p"], d, fns20)
				if how == 0 {
					c.expect(evalString(files["p"], GoMap(d)), want)
					return
				}
				t, err := c.load(files)
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				c.expect(render(t, "p", GoMap(d)), want)
			}},
			{Name: "files", Space: "a function of each type, called in a page, layout, component, insert, slot body, component argument, loop, on literals and variables, by String, Response-free renders, EvaluateString and EvaluateFile, registered before the load, after it, or between two loads", Run: func(c *C) {
				t := types20[c.Choose(len(types20))]
				x := []string{"v" + t, lits20[t]}[c.Choose(2)]
				when := c.Choose(4)
				place := c.Choose(9)
				nm := fresh20()
				n := nm("f")
				call := x + "." + n + "()"
				files := map[string]string{"p.tw": "{{ " + call + " }}"}
				switch place {
				case 1:
					files = map[string]string{"p.tw": "@use('l')", "l.tw": "{{ " + call + " }}"}
				case 2:
					files = map[string]string{"p.tw": "@use('l')@insert('a', " + call + ")", "l.tw": "@reserve('a')"}
				case 3:
					files = map[string]string{"p.tw": "@use('l')@insert('a'){{ " + call + " }}@end", "l.tw": "@reserve('a')"}
				case 4:
					files = map[string]string{"p.tw": "@component('c', {a: " + call + "})", "c.tw": "{{ a }}"}
				case 5:
					files = map[string]string{"p.tw": "@component('c', {a: " + x + "})", "c.tw": "{{ a." + n + "() }}"}
				case 6:
					files = map[string]string{"p.tw": "@component('c')@slot('s'){{ " + call + " }}@end@end", "c.tw": "@slot('s')"}
				case 7:
					files = map[string]string{"p.tw": "@each(i in [" + x + "]){{ i." + n + "() }}@end"}
				case 8:
					files = map[string]string{"p.tw": "{{ y = " + x + "; y." + n + "() }}"}
				}
				c.Begin(fmt.Sprintf("%v, type %s, registered %d", files, t, when))
				m := reg20{}
				var early *textwire.Template
				if when == 0 {
					c.register(m, t, n, 3)
				}
				early = c.load20(files)
				if when > 0 && early != nil {
					c.missing("p", render(early, "p", data20()), n, t)
				}
				if when == 1 {
					c.register(m, t, n, 3)
				}
				late := c.load20(files)
				if when == 2 {
					c.register(m, t, n, 3)
				}
				if when == 3 {
					evalString("{{ 1 }}", nil)
					c.register(m, t, n, 3)
				}
				c.register(m, t, n, 6)
				for i, tp := range []*textwire.Template{early, late} {
					if tp == nil {
						continue
					}
					if o := render(tp, "p", data20()); o.Err != nil || o.S != shown20(t, 3) {
						c.Fail("load %d renders %q, %v, must render %q", i, o.S, o.Err, shown20(t, 3))
					}
				}
				if place == 0 || place > 6 {
					if o := evalString(files["p.tw"], data20()); o.Err != nil || o.S != shown20(t, 3) {
						c.Fail("EvaluateString renders %q, %v", o.S, o.Err)
					}
					p, _ := filepath.Abs(filepath.Join(dir20, "p.tw"))
					if s, err := textwire.EvaluateFile(p, data20()); err != nil || s != shown20(t, 3) {
						c.Fail("EvaluateFile renders %q, %v", s, err)
					}
				}
			}},
			{Name: "unregistered", Space: "names (near a registered name in case, length, by a suffix or prefix, built-ins of other types, names of variables, properties and functions) x 7 receiver types x {literal, variable, property, result of a built-in, result of a custom function} x {no function, functions of all other types, of all types under near names}: the error names function and type, also in pages", Run: func(c *C) {
				t := append(append([]string(nil), types20...), "obj", "nil")[c.Choose(7)]
				names := []string{"f", "F", "fn", "nf", "f1", "_f", "lenn", "Len", "append1", "vint", "k", "toString", "String", "length", "size", "join", "upper", "binary", "ceil", "decimal"}
				n := names[c.Choose(len(names))]
				form := c.Choose(4)
				state := c.Choose(3)
				args := []string{"", "1", "'a', [nil]"}[c.Choose(3)]
				page := c.Bool()
				if IsBuiltin(t, n) {
					c.Skip()
				}
				if !instrumented && state > 0 {
					c.Skip()
				}
				c.Begin(fmt.Sprintf("%s of %s, form %d, state %d, arguments %q, page %v", n, t, form, state, args, page))
				fresh20()
				m := reg20{}
				for i, u := range types20 {
					if state == 1 && u != t {
						c.register(m, u, n, i)
					}
					if state == 2 {
						for j, x := range []string{n + "x", "x" + n, strings.ToUpper(n), strings.ToLower(n), n[:len(n)-1], " " + n, n + " ", ""} {
							if x != n {
								c.register(m, u, x, 10*i+j)
							}
						}
					}
				}
				x := []string{lits20[t], "v" + t, "o.k", "[" + lits20[t] + "].reverse()[0]"}[form]
				d := data20()
				d["o"] = map[string]any{"k": vars20[t]}
				s := "a\n{{ " + x + "." + n + "(" + args + ") }}"
				if !page {
					c.missing(s, evalString(s, d), n, t)
					return
				}
				tp, err := c.load(map[string]string{"p": s})
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				c.missing(s, render(tp, "p", d), n, t)
			}},
			{Name: "names", Space: "names registered for one type (1, 63..65, 255..257, 10000 letters; digits, underscores, upper case, directive-like and property-like names) and called; each second registration fails; names that cannot be called can be registered once as well", Run: func(c *C) {
				names := []string{"f", "F", "_", "__x", "x_1", "a1b2", "camelCase", "SNAKE_CASE", "Len", "iff", "eachIn", "inn", "trueish", "nilly", "loopy", "loop", "e", "E1", strings.Repeat("n", 63), strings.Repeat("n", 64), strings.Repeat("n", 65), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257), strings.Repeat("n", 10000), strings.Repeat("ab", 70)}
				odd := []string{"", " ", "a b", "1a", "é", "a.b", "a()", "@if", "\x00", "in", "true", "nil", "a-b", "*", "%d", "\xff"}
				t := types20[c.Choose(len(types20))]
				k := c.Choose(len(names) + len(odd))
				nm := fresh20()
				m := reg20{}
				if k >= len(names) {
					n := odd[k-len(names)]
					if !instrumented {
						n = nm(n)
					}
					c.Begin(fmt.Sprintf("%q for %s", n, t))
					c.register(m, t, n, 1)
					c.register(m, t, n, 2)
					for _, u := range types20 {
						if u != t {
							c.register(m, u, n, 3)
							break
						}
					}
					return
				}
				n := nm(names[k])
				c.Begin(fmt.Sprintf("%s for %s", cut(n), t))
				c.register(m, t, n, 1)
				c.register(m, t, n, 2)
				ev := func(s string) out { return evalString(s, data20()) }
				c.observe20(m, []string{n}, noBuiltin, ev)
				c.observe20(m, []string{n + "x"}, noBuiltin, ev)
			}},
			{Name: "changing", Space: fmt.Sprintf("%d programs that call functions of the 5 types on literals, variables, nested values, in loops, several times x {string, page rendered twice, two templates} x the functions leave what they receive alone, or change it (everything, only the values of keys and elements, only the innermost, only added, only removed or swapped; at once or at the next call), or change what they returned: the same output", len(changing20)), Run: func(c *C) {
				src := changing20[c.Choose(len(changing20))]
				how := 1 + c.Choose(4)
				way := c.Choose(5)
				where := c.Choose(2)
				c.Begin(fmt.Sprintf("%q, way %d, %d, where %d", src, how, way, where))
				run := func(how int) (r []string) {
					nm := fresh20()
					see, get := nm("see"), nm("get")
					var kept []any
					seen := 0
					for _, t := range types20 {
						register20(t, see, func(k call20) any {
							seen++
							txt := canon20(k.recv) + canon20(k.args)
							if how == 2 {
								for _, x := range kept {
									spoil20(x, way)
								}
								kept = []any{k.recv, k.args}
							}
							if how == 1 || how == 3 {
								spoil20(k.recv, way)
								spoil20(k.args, way)
							}
							if how == 3 {
								kept = append(kept, k.recv, k.args)
							}
							switch t {
							case "str":
								return txt
							case "arr":
								return []any{txt}
							case "int":
								return len(txt)
							case "float":
								return float64(len(txt)) + 0.5
							}
							return len(txt)%2 == 0
						})
					}
					var last []any
					n := 0
					register20("arr", get, func(k call20) any {
						if how == 4 && last != nil {
							spoil20(last, way)
						}
						n++
						last = []any{n, []any{"q"}, map[string]any{"k": []any{n}}}
						return last
					})
					s := strings.ReplaceAll(strings.ReplaceAll(src, "see(", see+"("), "get(", get+"(")
					data := func() map[string]any {
						return map[string]any{"v": []any{1, []any{2, 20}, map[string]any{"a": 3, "b": []any{4}}}, "w": map[string]any{"k": []any{5, map[string]any{"z": nil}}}, "ints": []int{7, 8}, "n": 9}
					}
					if where == 0 {
						for i := 0; i < 2; i++ {
							o := evalString(s, data())
							r = append(r, fmt.Sprintf("%q %v", o.S, o.Err != nil))
						}
					} else if t, err := c.load(map[string]string{"p": s, "q": "{{ v }}" + s}); err == nil {
						for _, p := range []string{"p", "p", "q", "p"} {
							o := render(t, p, data())
							r = append(r, fmt.Sprintf("%q %v", o.S, o.Err != nil))
						}
					} else {
						c.Fail("loading failed: %v", err)
					}
					if seen == 0 && n == 0 {
						c.Fail("no function was called")
					}
					return
				}
				a, b := run(0), run(how)
				for i := range a {
					c.Traces(1)
					if i < len(b) && a[i] != b[i] {
						c.Fail("render %d is %s with functions that change what they receive or return, %s without", i, cut(b[i]), cut(a[i]))
					}
					if strings.HasSuffix(a[i], "true") {
						c.Fail("fails: %s", a[i])
					}
				}
				c.Note("compared")
			}},
			{Name: "stateful", Space: "functions whose result depends on the number of the call x 5 types x receivers (variable, literal, property, element, assigned variable, loop variable, parenthesised) x 3 argument lists x 14 places with 1..6 calls (bodies of loops, several prints, assignments, @if bodies, conditions, arrays, objects, concatenations, inserts, slots, components in loops) x string API and loaded pages rendered twice", Run: func(c *C) {
				t := types20[c.Choose(len(types20))]
				r := []string{"v" + t, lits20[t], "o.v", "ar[1]", "z", "w", "(v" + t + ")"}[c.Choose(7)]
				args := []string{"", "1", "v" + t + ", 'a'"}[c.Choose(3)]
				how := c.Choose(2)
				nm := fresh20()
				f := nm("f")
				call := r + "." + f + "(" + args + ")"
				type pl struct {
					src   string
					n     int
					files map[string]string
				}
				loop := func(b string, _ int) string { return "@each(w in l)" + b + "@end" }
				pls := []pl{
					{"{{ " + call + " }},", 1, nil},
					{"{{ " + call + " }},{{ " + call + " }},", 2, nil},
					{loop("{{ "+call+" }},", 3), 3, nil},
					{"@for(i = 0; i < 4; i++){{ " + call + " }},@end", 4, nil},
					{loop(loop("{{ "+call+" }},", 3), 3), 9, nil},
					{loop("{{ x = "+call+" }}{{ x }},{{ x }},", 3), -3, nil},
					{loop("@if(true){{ "+call+" }},@end", 3), 3, nil},
					{loop("{{ true ? "+call+" : "+call+" }},", 3), 3, nil},
					{"{{ [" + call + "] }},{{ [" + call + "][0] }},", 2, nil},
					{loop("{{ {a: "+call+"}.a }},", 3), 3, nil},
					{"@each(q in [" + call + ", " + call + "]){{ q }},@end", 2, nil},
					{"@use('lay')@insert('a'){{ " + call + " }},@end@insert('b')" + loop("{{ "+call+" }},", 3) + "@end", 4, map[string]string{"lay": "@reserve('a')@reserve('b')"}},
					{loop("@component('c', {q: "+call+"})", 3) + "@component('c', {q: " + call + "})", 4, map[string]string{"c": "{{ q }},"}},
					{loop("@component('c')@slot{{ "+call+" }},@end@end", 3), 6, map[string]string{"c": "@slot" + "@slot"}},
				}
				k := pls[c.Choose(len(pls))]
				if k.files != nil && how == 0 {
					c.Skip()
				}
				src := k.src
				if r == "z" {
					if strings.HasPrefix(src, "@use") {
						c.Skip()
					}
					src = "{{ z = v" + t + " }}" + src
				}
				d := data20()
				d["w"] = vars20[t]
				d["o"] = map[string]any{"v": vars20[t]}
				d["ar"] = []any{vars20[t], vars20[t]}
				d["l"] = []any{vars20[t], vars20[t], vars20[t]}
				c.Begin(fmt.Sprintf("%s: %q, way %d", t, src, how))
				calls := 0
				if err := register20(t, f, func(call20) any { calls++; return result20(t, calls) }); err != nil {
					c.Fail("registering failed: %v", err)
					return
				}
				render1 := func() out { return evalString(src, d) }
				if how == 1 {
					files := map[string]string{"p": src}
					for n, b := range k.files {
						files[n] = b
					}
					tp, err := c.load(files)
					if err != nil {
						c.Fail("loading failed: %v", err)
						return
					}
					render1 = func() out { return render(tp, "p", d) }
				}
				for i := 0; i < 2; i++ {
					from := calls
					o := render1()
					want := ""
					n := k.n
					if n < 0 {
						n = -n
					}
					for j := 1; j <= n; j++ {
						v := shown20(t, from+j)
						want += v + ","
						if k.n < 0 {
							want += v + ","
						}
					}
					if o.Err != nil || o.S != want {
						c.Fail("rendering %d gives %q, %v, must give %q", i+1, o.S, o.Err, want)
						return
					}
					if calls != from+n {
						c.Fail("rendering %d made %d calls, must be %d", i+1, calls-from, n)
						return
					}
					c.Note("rendered")
				}
			}},
			{Name: "ladder", Space: "n = 0..64, 100, 127..129, 255..257, 300, 1000: n registered functions; n arguments; arrays and objects of n elements in and out; strings of n and 100 n bytes in and out; values nested n deep in and out; chains of n calls; n calls in a loop; after the registration n loads, n failing loads, n renders, n failing renders, n refused registrations: the function is still there", Run: func(c *C) {
				more := []int{100, 127, 128, 129, 255, 256, 257, 300, 1000}
				n := c.Choose(65 + len(more))
				if n > 64 {
					n = more[n-65]
				}
				how := c.Choose(13)
				c.Begin(fmt.Sprintf("%d, way %d", n, how))
				nm := fresh20()
				c.ladder20(nm, n, how)
			}},
		}})
}

// changing20 are programs whose output shows every value that they use
var changing20 = []string{
	"{{ v.see(w) }}{{ v }}{{ w }}@dump(v, w)", "{{ v.see(v, v) }}{{ v.see(v) }}{{ v }}", "{{ ints.see(ints) }}{{ ints }}", "{{ n.see(v, w) }}{{ v }}{{ w }}{{ n }}", "{{ 's'.see(v, w.k) }}{{ w.k }}@dump(w)", "{{ 1.5.see(v[1], v[2]) }}{{ v }}", "{{ true.see(w.k[1]) }}@dump(w)",
	"@each(i in [1, 2, 3]){{ [1, [2], {a: 3}].see([4, [5]], {b: [6]}, i) }}@end", "@for(i = 0; i < 3; i++){{ 's'.see([1, [2]], {a: {b: 1}}) }}@end", "@each(i in [v[1], v[2].b]){{ 's'.see(i, v) }}@dump(i)@end{{ v }}", "@each(i in [[1], [2]]){{ i.see(i) }}{{ i }}@end", "@each(i in v[1]){{ v.see() }}{{ i }}@end",
	"{{ x = v }}{{ x.see() }}{{ x }}{{ v }}", "{{ x = [v, w] }}{{ x.see() }}{{ x[0].see(x) }}@dump(x)@dump(v)", "{{ x = {a: v} }}{{ x.a.see(x) }}@dump(x)", "{{ v.append(w).see() }}{{ v }}@dump(w)", "{{ v.reverse().see(v.slice(1)) }}{{ v }}{{ v.slice(1) }}", "{{ v.see().see(v) }}{{ v }}",
	"{{ x = [1].get() }}{{ [1].get() }}{{ [1].get() }}{{ x }}@dump(x)", "{{ [[1].get(), [2].get(), [3].get()] }}", "@each(i in [1].get()[1]){{ i }}{{ [1].get() }}@end", "{{ x = [1].get() }}{{ x.see([2].get()) }}{{ x }}", "{{ [1].get()[0] == [1].get()[0] }}{{ x = [[1].get(), [2].get()[1]] }}{{ [3].get() }}@dump(x)", "{{ [0].get().append([1].get()) }}{{ [0].get().see() }}",
	"{{ 1.see(w) }}{{ 1.see(w) }}@dump(w)", "{{ 1.see(v[2]) }}{{ 1.see(v[2], v) }}@dump(v)", "{{ x = {a: 1, b: {c: 2}} }}{{ 1.see(x) }}{{ 1.see(x.b) }}{{ 1.see(x) }}@dump(x)", "@each(i in [w, w]){{ 1.see(i) }}@dump(i)@end{{ 1.see(w) }}", "{{ [v, v].see(v) }}{{ v }}{{ [v, w].len() }}", "{{ v[1].see(v) }}{{ v[1] }}{{ v[2].b.see(v) }}{{ v[2].b }}@dump(v)", "@if(v.see(v)){{ v }}@end@dump(v)", "{{ true ? v.see() : 1 }}{{ v }}", "{{ x = w.k.see(w) }}{{ x }}{{ w.k }}@dump(w)", "{{ [v.see(), v.see()] }}{{ v }}",
}

// canon20 shows a value with the keys of maps in order
func canon20(v any) string {
	switch v := v.(type) {
	case []any:
		s := "("
		for _, e := range v {
			s += canon20(e) + " "
		}
		return s + ")"
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + canon20(v[k]) + " "
		}
		return s + "}"
	}
	return fmt.Sprint(v)
}

// spoil20 changes a value: way 0 everything that can be changed in it, 1 the elements and
// the values of the keys, 2 only what is nowhere else than in the innermost containers,
// 3 adds keys and appends, 4 removes keys and swaps elements
func spoil20(v any, way int) {
	switch v := v.(type) {
	case []any:
		for i := range v {
			spoil20(v[i], way)
			if way < 2 || way == 2 && !container20(v[i]) {
				v[i] = "spoilt"
			}
		}
		if n := len(v); way == 4 && n > 1 {
			v[0], v[n-1] = v[n-1], v[0]
		}
		if cap(v) > len(v) {
			_ = append(v, "spoilt")
		}
	case map[string]any:
		for k := range v {
			spoil20(v[k], way)
			if way < 2 || way == 2 && !container20(v[k]) {
				v[k] = "spoilt"
			}
			if way == 4 {
				delete(v, k)
			}
		}
		if way == 0 || way == 3 {
			v["spoilt"] = 1
		}
	}
}

func container20(v any) bool {
	switch v.(type) {
	case []any, map[string]any:
		return true
	}
	return false
}

func (c *C) register(m reg20, t, n string, k int) {
	err := register20(t, n, func(call20) any { return result20(t, k) })
	_, dup := m[t+" "+n]
	switch {
	case dup && err == nil:
		c.Fail("registering %q for %s again succeeded", cut(n), t)
	case !dup && err != nil:
		c.Fail("registering %q for %s failed: %v", cut(n), t, err)
	case dup:
		c.Note("refused")
	default:
		c.Note("registered")
		m[t+" "+n] = k
	}
}

func deep20(l []any) bool { // cannot be compared
	for _, v := range l {
		if strings.Contains(fmt.Sprintf("%T", v), "self") || strings.Contains(fmt.Sprintf("%T", v), "func") || strings.Contains(fmt.Sprintf("%T", v), "chan") {
			return true
		}
		if _, ok := v.([]any); ok {
			return true
		}
	}
	return false
}

func sameGo20(a, b any) bool {
	return reflect.DeepEqual(a, b) || strings.Contains(fmt.Sprintf("%#v", a), "NaN") || strings.Contains(fmt.Sprintf("%T", a), "func") || uncomparable20(reflect.ValueOf(a), 0)
}

// uncomparable20: functions and channels are equal to nothing
func uncomparable20(v reflect.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	switch v.Kind() {
	case reflect.Func, reflect.Chan:
		return !v.IsNil()
	case reflect.Float64, reflect.Float32:
		return v.Float() != v.Float()
	case reflect.Interface, reflect.Pointer:
		return !v.IsNil() && uncomparable20(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if uncomparable20(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if uncomparable20(v.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if uncomparable20(v.Field(i), depth+1) {
				return true
			}
		}
	case reflect.UnsafePointer:
		return true
	}
	return false
}

func (c *C) history20(pair [2]string, ops []int, every bool) {
	c.Begin(fmt.Sprintf("names %v, operations %v", pair, ops))
	nm := fresh20()
	names := []string{nm(pair[0]), nm(pair[1])}
	for i, n := range pair {
		for _, t := range types20 {
			if !instrumented && IsBuiltin(t, n) {
				names[i] = n + nm("x")
			}
		}
	}
	ev := func(s string) out { return evalString(s, data20()) }
	bs := map[string]string{}
	for _, t := range types20 {
		for _, n := range names {
			if IsBuiltin(t, n) {
				o1 := ev("{{ " + lits20[t] + "." + n + "() }}")
				o2 := ev("{{ v" + t + "." + n + "() }}")
				if o1.Err != nil || o2.Err != nil {
					bs[t+" "+n] = "fails"
				} else {
					bs[t+" "+n] = "works"
				}
			}
		}
	}
	// built-ins keep answering; their results depend on the receiver
	custom := func(t, n string) bool { return bs[t+" "+n] == "" }
	m := reg20{}
	var loads []*textwire.Template
	look := func() {
		view := reg20{}
		for k, v := range m {
			view[k] = v
		}
		var ns []string
		for _, n := range names {
			ok := true
			for _, t := range types20 {
				ok = ok && custom(t, n)
			}
			if ok {
				ns = append(ns, n)
			} else {
				c.withBuiltin20(m, n)
			}
		}
		if len(ns) > 0 {
			c.observe20(view, ns, noBuiltin, ev)
		}
		for _, t := range loads {
			if t != nil && len(ns) == 2 {
				c.checkPages20(t, m, names)
			}
		}
	}
	for i, o := range ops {
		switch {
		case o < 10:
			c.register(m, types20[o/2], names[o%2], i)
		case o == 10:
			loads = append(loads, c.load20(pages20(names)))
		case o == 11:
			c.w.fs("bad20").sync(map[string]string{"x.tw": "{{ ("})
			if _, err := textwire.NewTemplate(&config.Config{TemplateDir: "bad20", TemplateExt: ".tw"}); err == nil {
				c.Fail("loaded a broken file")
			}
		case o == 12:
			if o := ev("{{ 1 + 1 }}{{ vint.abs() }}"); o.Err != nil || o.S != "23" {
				c.Fail("renders %q, %v", o.S, o.Err)
			}
		case o == 13:
			ev("{{ 'x'." + nm("zz") + "() }}")
			if _, err := os.Stat(dir20); err != nil {
				c.w.fs(dir20)
			}
		}
		if every && i+1 < len(ops) {
			look()
		}
	}
	look()
}

// withBuiltin20 observes a name that some of the types have as a built-in
func (c *C) withBuiltin20(m reg20, n string) {
	for _, t := range append(append([]string(nil), types20...), "obj", "nil") {
		s := "{{ v" + t + "." + n + "() }}"
		c.Traces(1)
		o := evalString(s, data20())
		if IsBuiltin(t, n) {
			if strings.Contains(o.S, "fn") {
				c.Fail("%q renders %q, the built-in has to answer", s, o.S)
			}
			want, _, f := Builtin(value20(t), n, nil)
			if (f != nil) != (o.Err != nil) {
				c.Fail("%q renders %q, %v; the built-in fails: %v", s, o.S, o.Err, f != nil)
			} else if f == nil {
				if txt := plainText20(want); txt != "?" && o.S != txt {
					c.Fail("%q renders %q, the built-in gives %q", s, o.S, txt)
				}
			}
			continue
		}
		if k, ok := m[t+" "+n]; ok {
			if o.Err != nil || o.S != shown20(t, k) {
				c.Fail("%q renders %q, %v, must render %q", s, o.S, o.Err, shown20(t, k))
			}
			continue
		}
		c.missing(s, o, n, t)
	}
}

func value20(t string) Value {
	switch t {
	case "str":
		return "x"
	case "arr":
		return A("e")
	case "int":
		return int64(3)
	case "float":
		return 2.5
	}
	return false
}

func plainText20(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return fmt.Sprint(v)
	}
	return "?"
}

func (c *C) ladder20(nm func(string) string, n, how int) {
	ev := func(s string, d map[string]any) out { return evalString(s, d) }
	same := func(o out, want string) {
		if o.Err != nil || o.S != want {
			c.Fail("renders %q, %v, must render %q", cut(o.S), o.Err, cut(want))
		}
	}
	switch how {
	case 0: // functions
		m := reg20{}
		src, want := "", ""
		for i := 0; i < n; i++ {
			t := types20[i%len(types20)]
			name := fmt.Sprintf("%sn%d", nm("f"), i/7)
			c.register(m, t, name, i)
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t, name, _ := strings.Cut(k, " ")
			src += "{{ v" + t + "." + name + "() }}|"
			want += shown20(t, m[k]) + "|"
		}
		same(ev(src, data20()), want)
		for _, k := range ks {
			t, name, _ := strings.Cut(k, " ")
			c.register(m, t, name, n+1)
		}
		same(ev(src, data20()), want)
	case 1: // arguments
		var got call20
		register20("str", nm("f"), func(k call20) any { got = k; return "r" })
		var as []string
		for i := 0; i < n; i++ {
			as = append(as, fmt.Sprint(i))
		}
		same(ev("{{ 's'."+nm("f")+"("+strings.Join(as, ", ")+") }}", nil), "r")
		if len(got.args) != n {
			c.Fail("received %d arguments", len(got.args))
			return
		}
		for i, a := range got.args {
			if !plain20(int64(i), a) {
				c.Fail("argument %d is %#v", i, a)
			}
		}
	case 2, 3, 4: // values in and out
		var v Value
		switch how {
		case 2:
			a, o := A(), O()
			for i := 0; i < n; i++ {
				a.E = append(a.E, int64(i))
				o.M[fmt.Sprint("k", i)] = int64(i)
			}
			v = A(a, o)
		case 3:
			v = A(strings.Repeat("é", n), strings.Repeat("x", 100*n))
		case 4:
			v = A(int64(1))
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					v = A(v)
				} else {
					v = A(O("k", v))
				}
			}
		}
		var got call20
		register20("arr", nm("f"), func(k call20) any { got = k; return ToGo(v) })
		dump := func(x string) string {
			if how == 4 && n > 129 { // takes the third power of the depth
				return ""
			}
			return "@dump(" + x + ")"
		}
		want := ev("{{ v }}"+dump("v")+"{{ v.len() }}", map[string]any{"v": ToGo(v)})
		if want.Err != nil {
			c.Fail("the data does not render: %v", want.Err)
			return
		}
		x := "v." + nm("f") + "(v, o)"
		same(ev("{{ "+x+" }}"+dump(x)+"{{ "+x+".len() }}", map[string]any{"v": ToGo(v), "o": map[string]any{"v": ToGo(v)}}), want.S)
		if !plain20(v, got.recv) || len(got.args) != 2 || !plain20(v, got.args[0]) || !plain20(O("v", v), got.args[1]) {
			c.Fail("received something else")
		}
	case 5: // chains
		register20("int", nm("f"), func(k call20) any { return k.recv.(int) + 1 })
		same(ev("{{ 0"+strings.Repeat("."+nm("f")+"()", n)+" }}", nil), fmt.Sprint(n))
	case 6: // nesting
		if n > 300 {
			c.Skip()
		}
		register20("int", nm("f"), func(k call20) any {
			s := k.recv.(int)
			for _, a := range k.args {
				switch a := a.(type) {
				case int:
					s += a
				case int64:
					s += int(a)
				}
			}
			return s
		})
		s := "1"
		for i := 0; i < n; i++ {
			s = "1." + nm("f") + "(" + s + ")"
		}
		same(ev("{{ "+s+" }}", nil), fmt.Sprint(n+1))
	case 7: // loops
		calls := 0
		register20("int", nm("f"), func(k call20) any { calls++; return k.recv.(int) * 2 })
		want := ""
		for i := 0; i < n; i++ {
			want += fmt.Sprint(2*i, ",")
		}
		same(ev(fmt.Sprintf("@for(i = 0; i < %d; i++){{ i.%s() }},@end", n, nm("f")), nil), want)
		if calls != n {
			c.Fail("%d calls, must be %d", calls, n)
		}
	default: // n events between the registration and the call
		m := reg20{}
		for i, t := range types20 {
			c.register(m, t, nm("f"), i)
		}
		src, want := "", ""
		for i, t := range types20 {
			src += "{{ v" + t + "." + nm("f") + "() }}|"
			want += shown20(t, i) + "|"
		}
		files := map[string]string{"p": src, "q": "@if(true)\n{{ nope }}@end"}
		t, err := c.load(files)
		if err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
		for i := 0; i < n; i++ {
			switch how {
			case 8:
				t, err = c.load(files)
			case 9:
				_, err2 := c.load(map[string]string{"p": src, "q": "{{ 1 + }}"})
				if err2 == nil {
					c.Fail("a wrong file loads")
					return
				}
			case 10:
				if o := render(t, "p", data20()); o.S != want {
					same(o, want)
					return
				}
			case 11:
				ev("{{ vint.nope() }}", data20())
				if o := render(t, "q", data20()); o.Err == nil {
					c.Fail("rendered %q", o.S)
				}
			case 12:
				for k, ty := range types20 {
					if register20(ty, nm("f"), func(call20) any { return result20(ty, k+1) }) == nil {
						c.Fail("registered again")
						return
					}
				}
			}
		}
		if err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
		same(ev(src, data20()), want)
		same(render(t, "p", data20()), want)
		if t, err = c.load(files); err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
		same(render(t, "p", data20()), want)
	}
}
