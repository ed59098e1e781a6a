package main

import (
	"errors"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"

	. "verifmc/ref"
)

// The calls of a history work on one loaded set of templates.  The result of
// each is compared with the result of the same call made as the first one of
// a process of its own.

const dir16 = "site16"

var long16 = strings.Repeat("0123456789abcdef", 20)

var files16 = map[string]string{
	"lay":       "<@reserve('title')>{{ x }}[@reserve('body')]",
	"page":      "@use('lay')@insert('title', s)@insert('body')@component('card', {a: x})@slot B{{ x }}@end@end@each(i in l){{ i }}{{ loop.index }}@end{{ y = x + 1; y }}@end",
	"card":      "({{ a }}@slot{{ a + 1 }})",
	"other":     "@use('lay')@insert('body')@component('card', {a: s})@component('card', {a: 1})@slot@end@end@end",
	"bare":      "{{ x }}",
	"deep/er/p": "{{ x }}@component('card', {a: 5})",
	"Page":      "upper{{ x }}",
	"setter":    "{{ y = 'set'; z = {q: 1}; x = 'local'; i = 9; a = 8; u = nil }}@each(j in [1, 2]){{ j }}@end@for(k = 0; k < 2; k++){{ k }}@end@component('card', {a: 7})",
	"ry":        "{{ y }}", "rx": "a\n{{ x }}", "ri": "\n\n{{ i }}", "ra": "{{ a }}", "rj": "{{ j }}", "rk": "{{ k }}", "rl": "{{ loop }}", "rq": "{{ q }}",
	"fail":  "out{{ x }}\n{{ x / 0 }}",
	"bad":   "{{ a }}\n{{ a.nope() }}",
	"failc": "pre\n@component('bad', {a: x})",
	"failu": "@use('lay')\n@insert('title')\n\n{{ un }}@end",
	"floop": "@each(i in [1, 2, 3])@for(j = 0; j < 2; j++){{ y = [i] }}{{ 6 / (3 - i) }}@end@end",
	"obj":   "{{ o }}@dump(o, l, s){{ [o, l] }}",
	"mut":   "{{ l = l.append(9); l = l.reverse(); l.prepend(o) }}{{ x++ }}{{ x = x + 1; x }}{{ s = s.upper(); s }}{{ f = f - 1.0; f-- }}{{ o = {b: o}; o }}",
	"lit":   "{{ 1.5-- }}{{ 2++ }}{{ -3 }}{{ [1, 2].append(3) }}{{ [3, 1].reverse() }}{{ {a: 1} }}{{ 'x<' }}{{ 2.5.floor() }}{{ nil }}{{ true }}{{ 7.5 - 1 }}",
	"brk":   "@each(i in l)@breakIf(i == x){{ i }}@continue z@end@for(i = 0; i < 3; i++){{ i }}@break@end",
	"funcs": "{{ s.up16() }}{{ l.keep16() }}{{ l }}{{ [l, o].keep16(o, l) }}{{ x.boom16() }}",
	"err":   "Oops {{ 1 + 1 }}",
	"err2":  "Oops\n{{ nope }}",
}

func data16(k int) map[string]any {
	switch k {
	case 0:
		return nil
	case 3:
		return map[string]any{"x": "str", "s": 5, "l": []string{"p", "q"}, "o": 1.5, "f": 2.5, "a": true, "y": []int{1}, "u": 1}
	case 4:
		return map[string]any{"x": 1, "bad": make(chan int)}
	case 5:
		return map[string]any{"x": 1, "loop": 2}
	}
	return map[string]any{"x": k, "s": fmt.Sprintf("s<%d", k), "l": []int{k, k + 1}, "o": map[string]any{"b": k, "a": []any{k, map[string]any{"q": k}}}, "f": float64(k) + 0.5}
}

func funcs16() {
	textwire.RegisterStrFunc("up16", func(s string, _ ...any) string { return strings.ToUpper(s) + "!" })
	// keeps and changes what it is given
	var kept []any
	textwire.RegisterArrFunc("keep16", func(a []any, args ...any) []any {
		kept = append(kept, a, args)
		for i := range a {
			a[i] = fmt.Sprint("k", i)
		}
		for _, x := range args {
			switch x := x.(type) {
			case map[string]any:
				x["new"] = 1
			case []any:
				for i := range x {
					x[i] = nil
				}
			}
		}
		return a
	})
	textwire.RegisterIntFunc("boom16", func(i int, _ ...any) int {
		if i == 2 {
			panic("boom")
		}
		return i
	})
}

type op16 struct {
	name string
	resp bool
	do   func(t *textwire.Template) string
}

// guard turns a panic of the custom function or the writer into a result
func guard(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprint(r) != "boom" {
				panic(r)
			}
			s = "panicked as asked for"
		}
	}()
	return f()
}

func obsString(t *textwire.Template, page string, data map[string]any) string {
	s, err := t.String(page, data)
	if err != nil {
		return fmt.Sprintf("%q %v line %d path %s message %q", s, err.Error(), err.Line(), err.Filepath(), err.Message())
	}
	return fmt.Sprintf("%q", s)
}

func str16(page string, k int) op16 {
	return op16{fmt.Sprintf("String(%s, data %d)", page, k), false, func(t *textwire.Template) string {
		return guard(func() string { return obsString(t, page, data16(k)) })
	}}
}

// badWriter fails or panics after some writes
type badWriter struct {
	recorder
	boom bool
}

func (w *badWriter) Write(b []byte) (int, error) {
	if w.boom {
		panic("boom")
	}
	w.n++
	return 0, errors.New("broken pipe")
}

func resp16(page string, k, writer int) op16 {
	return op16{fmt.Sprintf("Response(%s, data %d%s)", page, k, []string{"", ", failing writer", ", panicking writer"}[writer]), true, func(t *textwire.Template) string {
		return guard(func() string {
			w := &badWriter{boom: writer == 2}
			var rw http.ResponseWriter = w
			if writer == 0 {
				rw = &w.recorder
			}
			err := t.Response(rw, page, data16(k))
			return fmt.Sprintf("%q %d %v %v", w.body.String(), w.code, w.head, err)
		})
	}}
}

func eval16(src string, k int) op16 {
	return op16{fmt.Sprintf("EvaluateString(%q, data %d)", cut(src), k), false, func(*textwire.Template) string {
		return guard(func() string { s, err := textwire.EvaluateString(src, data16(k)); return fmt.Sprintf("%q %v", s, err) })
	}}
}

func file16(name string, k int) op16 {
	return op16{fmt.Sprintf("EvaluateFile(%s, data %d)", name, k), false, func(*textwire.Template) string {
		p, _ := filepath.Abs(filepath.Join(dir16, name+siteExt))
		s, err := textwire.EvaluateFile(p, data16(k))
		return fmt.Sprintf("%q %v", s, err)
	}}
}

// the first ones make up the longer histories
var ops16 = []op16{
	str16("page", 1), str16("page", 2), str16("fail", 1), resp16("fail", 1, 0), eval16("{{ x }}", 1), str16("none", 1), resp16("page", 1, 0), eval16("{{ x / 0 }}", 2), str16("setter", 0), str16("ry", 0), file16("bare", 2), str16("other", 1),
	str16("failc", 2), str16("bare", 1), str16("bare", 3), str16("rx", 0), resp16("none", 1, 0), eval16("a {{ # }}", 1), str16("failu", 1), str16("obj", 1), str16("mut", 1), str16("mut", 2), str16("lit", 0), str16("brk", 1),
	// the rest is used in pairs
	eval16("@if(true)\n@each(i in l)@for(j = 0; j < 1; j++)@if(false)@else{{ nope }}@end@end@end@end", 1), eval16("{{ [1, {a: s.repeat(-x)}].len() + (true ? -s : 1) }}", 1),
	str16("page", 0), str16("page", 3), str16("lay", 1), str16("deep/er/p", 1), str16("Page", 1), str16("page", 4), str16("page", 5), str16("ri", 0), str16("ra", 0), str16("rj", 0), str16("rk", 0), str16("rl", 0), str16("rq", 0), str16("floop", 1), str16("obj", 2), str16("obj", 0), str16("brk", 2),
	str16("funcs", 1), str16("funcs", 2), resp16("funcs", 2, 0), resp16("page", 1, 1), resp16("page", 2, 2), resp16("fail", 1, 1), resp16("fail", 2, 2), resp16("fail", 0, 0), resp16("err", 0, 0), resp16("err2", 0, 0), str16("err", 1), str16("err2", 1), resp16("page", 4, 0),
	eval16("{{ y = 1; i = 2; y }}", 1), eval16("{{ y }}", 0), eval16("{{ y }}", 1), eval16("{{ x }}", 2), eval16("{{ x }}", 3), eval16("{{ X }}", 1), eval16(" {{ x }}", 1), eval16("{{ x }} ", 1), eval16("{{ s }}", 1), eval16(long16+"{{ x }}", 1), eval16(long16+"{{ s }}", 1), eval16(long16+"{{ z }}", 1), eval16("{{ s }}"+long16, 1), eval16("{{ x }}"+long16, 1),
	eval16("", 1), eval16("@dump(o)", 1), eval16("{{ s.up16() }}{{ l.keep16(o) }}{{ l }}", 2), eval16("{{ x.boom16() }}", 2), eval16("@component('card', {a: 1})", 1), eval16("@use('lay')@insert('title', 1)", 1), eval16("{{ x }}", 4), eval16("@if(x == 1)a@else b@end", 1), eval16("@if(x == 1)a@else b@end", 2), eval16("a\n{{ nope }}", 1), eval16("a\n{{ s.nope() }}", 1),
	file16("bare", 1), file16("fail", 1), file16("lit", 1), file16("absent", 1), file16("page", 1),
}

const core16 = 24

var cfgs16 = []config.Config{{ErrorPagePath: "err"}, {}, {DebugMode: true}, {ErrorPagePath: "err2"}, {ErrorPagePath: "none"}, {ErrorPagePath: "err", DebugMode: true}}

func open16(k int) *textwire.Template {
	cfg := cfgs16[k]
	cfg.TemplateDir, cfg.TemplateExt = dir16, siteExt
	t, err := textwire.NewTemplate(&cfg)
	if err != nil {
		fatal("C16: the templates do not load:", err)
	}
	return t
}

func (w *Worker) place16() {
	m := map[string]string{}
	for n, s := range files16 {
		m[n+siteExt] = s
	}
	w.fs(dir16).sync(m)
}

func b2s(b bool, yes, no string) string {
	if b {
		return yes
	}
	return no
}

type state16 struct {
	alone map[[2]int]string
	t     *textwire.Template // of the build without resets
	cfg   int
}

func setup16(w *Worker) {
	w.place16()
	w.famState = &state16{alone: map[[2]int]string{}, cfg: -1}
	if !instrumented {
		funcs16()
	}
}

// alone gives the result of a call in a process of its own
func (w *Worker) alone(cfg, op int) string {
	st := w.famState.(*state16)
	k := [2]int{cfg, op}
	if s, ok := st.alone[k]; ok {
		return s
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "helper", "c16", "-cfg", strconv.Itoa(cfg), "-op", strconv.Itoa(op))
	cmd.Dir, _ = os.Getwd()
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		st.alone[k] = fmt.Sprint("the process ended with ", err)
	} else {
		st.alone[k] = string(b)
	}
	return st.alone[k]
}

// fresh16 gives loaded templates, in the initial state where that is possible
func (w *Worker) fresh16(cfg int) *textwire.Template {
	if instrumented {
		resetLib()
		funcs16()
		return open16(cfg)
	}
	st := w.famState.(*state16)
	if st.cfg != cfg {
		st.t, st.cfg = open16(cfg), cfg
	}
	return st.t
}

// cfg16 chooses a configuration; only the instrumented build can unset the error page
func (c *C) cfg16() int {
	if instrumented {
		return c.Choose(len(cfgs16))
	}
	return []int{0, 3, 4, 5}[c.Choose(4)]
}

func showOps(l []int) string {
	var p []string
	for _, o := range l {
		p = append(p, ops16[o].name)
	}
	return strings.Join(p, "; ")
}

// history runs calls one after the other and compares each
func (c *C) history(cfg int, l []int) {
	t := c.w.fresh16(cfg)
	c.States(len(l), len(l))
	for i, o := range l {
		want := c.w.alone(cfg, o)
		got := ops16[o].do(t)
		c.Traces(1)
		if got != want {
			from := 0
			if i > 8 {
				from = i - 8
			}
			c.Fail("%s as the first call gives %s; after %d calls (the last ones: %s) it gives %s", ops16[o].name, cut(want), i, showOps(l[from:i]), cut(got))
			return
		}
	}
	c.Note("histories")
}

// ------------------------------------------------------- other programs again

func altValue(v Value) Value {
	switch v := v.(type) {
	case int64:
		return v + 1
	case float64:
		return v + 0.5
	case string:
		return v + "!"
	case bool:
		return !v
	case *Arr:
		var l []Value
		for _, e := range v.E {
			l = append(l, altValue(e))
		}
		return A(append(l, l...)...)
	case *Obj:
		m := map[string]Value{}
		for k, e := range v.M {
			m[k] = altValue(e)
		}
		m["extra"] = int64(1)
		return &Obj{M: m}
	}
	return v
}

func swapType(v Value) Value {
	switch v := v.(type) {
	case int64:
		return fmt.Sprint("t", v)
	case string:
		return 2.5
	case bool:
		return A(v)
	case *Arr:
		return int64(len(v.E))
	}
	return true
}

func (c *C) again16(files map[string]string, pages []string, d Data, desc string) {
	alt, swap := Data{}, Data{}
	for k, v := range d {
		alt[k], swap[k] = altValue(v), swapType(v)
	}
	datas := []Data{d, alt, nil, swap}
	if len(d) == 0 {
		datas = []Data{d, {"v": int64(1), "x": "s", "i": int64(4)}}
	}
	c.Begin("repeatedly, with several data, on one loaded set: " + desc)
	load := func() *textwire.Template {
		t, err := c.load(files)
		if err != nil {
			return nil
		}
		return t
	}
	type call struct {
		page string
		d    int
	}
	var calls []call
	var want []string
	for _, p := range pages {
		for k := range datas {
			t := load()
			if t == nil {
				c.Note("does not load")
				return
			}
			calls = append(calls, call{p, k})
			want = append(want, obsString(t, p, GoMap(datas[k])))
		}
	}
	t := load()
	n := 0
	do := func(i, after int) bool {
		n++
		got := obsString(t, calls[i].page, GoMap(datas[calls[i].d]))
		if got != want[i] {
			c.Fail("%s with %s gives %s on freshly loaded templates; after a render of %s with %s, as call %d, it gives %s", calls[i].page, showData(datas[calls[i].d]), cut(want[i]), calls[after].page, showData(datas[calls[after].d]), n, cut(got))
			return false
		}
		return true
	}
	// every call after every call
	for i := range calls {
		for j := range calls {
			if !do(i, j) || !do(j, i) {
				return
			}
		}
	}
	c.Traces(n)
	c.States(n, n)
	c.Note("repeated")
}

// againFamilies runs families of other checks under again16
func againFamilies() []Family {
	var l []Family
	add := func(id string, thorough bool, names ...string) {
		for _, f := range findCheck(id).Families {
			for _, n := range names {
				if f.Name == n {
					run := f.Run
					l = append(l, Family{Name: "again-" + id + "-" + n, ThoroughOnly: thorough, Setup: f.Setup,
						Space: "the programs of " + id + " " + n + " as templates of a loaded set: every pair of calls (page x data: given, other values, none, other types) in sequence; each result as on freshly loaded templates",
						Run:   func(c *C) { c.again = c.again16; run(c) }})
				}
			}
		}
	}
	add("C02", false, "places")
	add("C03", false, "metadata", "non-array", "else", "in-files")
	add("C04", false, "data-everywhere")
	add("C06", false, "content")
	add("C07", false, "slot-scope")
	add("C02", true, "bodies", "branches")
	add("C03", true, "deep-control", "nested-metadata")
	add("C04", true, "vanish", "components", "type-pairs")
	add("C06", true, "matching", "sharing")
	add("C07", true, "sequences", "uses", "slot-bodies", "arg-order")
	return l
}

// ---------------------------------------------------------------- the caller

type rec16 struct {
	N    int
	S    string
	Tags []string
	Sub  *rec16
	M    map[string]any
	priv int
}

// build16 makes data; every call gives equal but separate values
func build16(k int) map[string]any {
	inner := map[string]any{"q": k, "list": []any{k, "z"}}
	n := k
	backing := make([]int, 4, 8)
	backing[0] = k
	return map[string]any{
		"x": k, "s": fmt.Sprint("s", k), "m": map[string]any{"in": inner, "a": 1}, "l": []any{inner, k}, "ints": backing[:2], "p": &n, "r": rec16{k, "r", []string{"t", fmt.Sprint(k)}, &rec16{N: k}, inner, 1}, "rp": &rec16{N: k, Tags: []string{"u"}, M: map[string]any{"k": k}}, "mm": map[string][]int{"w": {k}},
	}
}

// changes to data of build16(1), as a caller makes them between two calls
var edits16 = []func(m map[string]any){
	func(m map[string]any) { m["x"] = 7 },
	func(m map[string]any) { m["x"] = "other type" },
	func(m map[string]any) { delete(m, "s") },
	func(m map[string]any) { m["new"] = 3 },
	func(m map[string]any) { m["m"].(map[string]any)["in"].(map[string]any)["q"] = 50 },
	func(m map[string]any) { delete(m["m"].(map[string]any), "a") },
	func(m map[string]any) { m["l"].([]any)[1] = "changed" },
	func(m map[string]any) { m["ints"].([]int)[0] = 60 },
	func(m map[string]any) { m["ints"] = m["ints"].([]int)[:3] },
	func(m map[string]any) { *m["p"].(*int) = 70 },
	func(m map[string]any) { m["r"].(rec16).Tags[0] = "changed" },
	func(m map[string]any) { m["r"].(rec16).Sub.N = 80 },
	func(m map[string]any) { m["rp"].(*rec16).S = "changed" },
	func(m map[string]any) { m["rp"].(*rec16).M["k"] = 90 },
	func(m map[string]any) { m["mm"].(map[string][]int)["w"][0] = 100 },
	func(m map[string]any) { m["mm"].(map[string][]int)["v"] = nil },
	func(m map[string]any) { m["x"] = [2]int{5, 6} },
	func(m map[string]any) { clear(m) },
}

var reads16 = []string{"{{ x }}", "{{ s }}", "{{ m }}", "{{ l }}", "{{ ints }}", "{{ p }}", "{{ r }}", "{{ rp }}", "{{ mm }}", "{{ m.a }}{{ l[1] }}", "{{ new }}", "@each(v in l){{ v }}@end", "@dump(m, r)", "{{ q = m.in.list; q = 1 }}", "{{ ints = ints.append(5, 6, 7); ints.reverse() }}{{ ints }}", "{{ l.slice(0, 1).append(8).prepend(9) }}{{ l }}", "{{ x = x + 1 }}{{ x }}", "{{ l.keep16(m, l, r) }}{{ l }}{{ m }}", "{{ m.in.list.keep16() }}{{ m }}", "@component('card', {a: m})", "@component('card', {a: l})@slot{{ l }}@end@end", "@use('lay')@insert('title', m)@insert('body'){{ l = l.reverse(); l }}@end"}

const many16 = 60

var vals16 = []func() any{
	func() any { return 5 }, func() any { return -7 }, func() any { return 0 }, func() any { return 2.5 }, func() any { return "" }, func() any { return "ab<é" }, func() any { return "x y" }, func() any { return true }, func() any { return false }, func() any { return nil },
	func() any { return []int{3, 1} }, func() any { return []string{"q", "p", "p"} }, func() any { return []any{} }, func() any { return []any{nil, 1.5} }, func() any { return map[string]any{"k": 1, "K": "u"} }, func() any { return map[string]any{"z": []int{1}} }, func() any { return struct{ K, Z any }{2, "zz"} },
}

// types16 are templates that show v
func types16() (l []string) {
	seen := map[string]bool{"shuffle": true, "rand": true}
	for _, ns := range BuiltinNames {
		for _, n := range ns {
			if seen[n] {
				continue
			}
			seen[n] = true
			l = append(l, "{{ v."+n+"() }}", "{{ v."+n+"(w) }}", "{{ v."+n+"(s) }}", "{{ v."+n+"(v, v) }}")
		}
	}
	sort.Strings(l)
	for _, op := range strings.Fields("+ - * / % == != < > <= >=") {
		l = append(l, "{{ v "+op+" v }}", "{{ v "+op+" w }}", "{{ s "+op+" v }}")
	}
	return append(l, "{{ v }}", "{{ -v }}", "{{ !v }}", "{{ v++ }}", "{{ v-- }}", "{{ v ? 'T' : 'F' }}", "{{ v[0] }}", "{{ v['k'] }}", "{{ v.k }}", "{{ v.z }}", "{{ [1, 2, 3, 4, 5, 6][v] }}", "{{ {k: 7}[v] }}", "{{ [v] }}", "{{ {a: v} }}", "@if(v)T@else F@end", "@if(false)@elseif(v)T@end", "@each(x in v){{ x }}{{ loop.index }}@else E@end", "@each(x in [v, v]){{ x }}@end", "@for(i = v; i < 8; i++){{ i }},@end", "@for(i = 0; i < v; i++){{ i }},@end", "@each(x in [1, 2])@breakIf(v){{ x }}@end", "@each(x in [1, 2])@continueIf(v){{ x }}@end", "@dump(v)", "{{ w = v; w }}", "{{ q = v; q }}{{ v }}", "{{ v = 1; v }}", "@component('card', {a: v})", "@component('card', {v: v, a: 1})", "@component('card', {a: 1})@slot{{ v }}@end@end", "@use('lay')@insert('t', v)", "@use('lay')@insert('t'){{ v }}@end", "{{ s.up16(v) }}{{ v.up16() }}", "{{ v.keep16(v) }}{{ v }}", "{{ v.boom16() }}", "{{ v.nope() }}", "{{ [v, v].contains(v) }}", "{{ [1].append(v) }}", "{{ s.repeat(v) }}", "{{ s + v.str() }}")
}

func init() {
	helpers["c16"] = func(a map[string]string) {
		funcs16()
		k, _ := strconv.Atoi(a["cfg"])
		op, _ := strconv.Atoi(a["op"])
		os.Stdout.WriteString(ops16[op].do(open16(k)))
	}
	nops := len(ops16)
	fams := []Family{
		{Name: "pairs", Space: fmt.Sprintf("all ordered pairs of %d calls (String, Response, EvaluateString, EvaluateFile: successful, failing at load lookups, evaluation, conversion, with failing and panicking writers and custom functions, sources equal up to white space, case, a long prefix or suffix) x 6 configurations (error page good/failing/absent/none, debug), each pair from a fresh state, then the first call again; every result (output, message, line, path) compared with the result of the call as the first one of a process of its own", nops),
			Setup: setup16, Run: func(c *C) {
				cfg := c.cfg16()
				a := c.Choose(nops)
				b := c.Choose(nops)
				if cfg != 0 && !ops16[a].resp && !ops16[b].resp {
					c.Skip()
				}
				l := []int{a, b, a}
				c.Begin(fmt.Sprintf("configuration %d %+v: %s", cfg, cfgs16[cfg], showOps(l)))
				c.history(cfg, l)
			}},
		{Name: "histories", Space: fmt.Sprintf("all sequences of 3 (quick) / 4 (thorough, 18 calls) out of %d calls with a custom error page (thorough: sequences of 3 in all 6 configurations), from a fresh state", core16),
			Setup: setup16, Run: func(c *C) {
				n := 3
				cfg := 0
				m := core16
				if c.Thorough {
					cfg = c.cfg16()
					if cfg == 0 && c.Bool() {
						n, m = 4, 18
					}
				}
				var l []int
				for i := 0; i < n; i++ {
					l = append(l, c.Choose(m))
				}
				c.Begin(fmt.Sprintf("configuration %d %+v: %s", cfg, cfgs16[cfg], showOps(l)))
				c.history(cfg, l)
			}},
		{Name: "walks", Space: "without a reset in between: one walk in which every call follows every other call, per configuration; and each call 1..10, 30, 64, 100, 257 times in a row followed by all calls",
			Setup: setup16, Run: func(c *C) {
				cfg := c.cfg16()
				k := c.Choose(nops + 1)
				var l []int
				if k == nops {
					for i := 0; i < nops; i++ {
						for j := 0; j < nops; j++ {
							l = append(l, i, j)
						}
					}
					c.Begin(fmt.Sprintf("configuration %d %+v: every call after every call", cfg, cfgs16[cfg]))
					c.history(cfg, l)
					return
				}
				n := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 30, 64, 100, 257}[c.Choose(14)]
				for i := 0; i < n; i++ {
					l = append(l, k)
				}
				for i := 0; i < nops; i++ {
					l = append(l, i)
				}
				c.Begin(fmt.Sprintf("configuration %d %+v: %d times %s, then all calls", cfg, cfgs16[cfg], n, ops16[k].name))
				c.history(cfg, l)
			}},
		{Name: "caller", Space: fmt.Sprintf("%d templates x %d templates rendered with one and the same data map (all kinds of containers, shared parts, spare capacity), unchanged or changed by the caller in one of %d ways between the two calls, as page and through EvaluateString: every result as with data built from scratch, the data as they were", len(reads16), len(reads16), len(edits16)),
			Setup: func(w *Worker) {
				if instrumented {
					resetLib()
				}
				funcs16()
			},
			Run: func(c *C) {
				i, j := c.Choose(len(reads16)), c.Choose(len(reads16))
				e := c.Choose(len(edits16) + 1)
				api := c.Choose(3)
				if api > 0 && (strings.Contains(reads16[i], "@use") || strings.Contains(reads16[j], "@use") || strings.Contains(reads16[i], "@comp") || strings.Contains(reads16[j], "@comp")) {
					c.Skip()
				}
				edit := func(m map[string]any) {
					if e > 0 {
						edits16[e-1](m)
					}
				}
				c.Begin(fmt.Sprintf("%q, change %d of the data, %q (calls %d)", reads16[i], e, reads16[j], api))
				files := map[string]string{"p": reads16[i], "q": reads16[j], "lay": "<@reserve('title')>{{ x }}[@reserve('body')]", "card": "({{ a }}@slot{{ a }})", "err": "E"}
				t, err := c.load(files)
				if err != nil {
					c.Note("does not load")
					return
				}
				do := func(n, src string, d map[string]any, string_ bool) string {
					if string_ {
						s, err := textwire.EvaluateString(src, d)
						return fmt.Sprintf("%q %v", s, err)
					}
					return obsString(t, n, d)
				}
				d2 := build16(1)
				edit(d2)
				want1 := do("p", reads16[i], build16(1), api == 2)
				want2 := do("q", reads16[j], d2, api > 0)
				want3 := do("p", reads16[i], build16(2), api == 2)
				d := build16(1)
				twin := build16(1)
				check := func(call, want, got string) {
					c.Traces(1)
					if got != want {
						c.Fail("%s: with data built from scratch %s, with the shared data %s", call, cut(want), cut(got))
					}
					c.untouched(d, twin)
				}
				c.Note(b2s(strings.Contains(want1, "ERROR"), "fails", "renders"))
				check("first", want1, do("p", reads16[i], d, api == 2))
				edit(d)
				edit(twin)
				check("second", want2, do("q", reads16[j], d, api > 0))
				check("second again", want2, do("q", reads16[j], d, api > 0))
				check("first with other data", want3, do("p", reads16[i], build16(2), api == 2))
				c.untouched(d, twin)
			}},
		{Name: "many", Space: fmt.Sprintf("each of %d calls 70000 times (failing ones 140000; thorough 500000 and a million) from a fresh state, then all calls: counters and tables of fixed size", many16), ThoroughOnly: !instrumented,
			Setup: setup16, Run: func(c *C) {
				op := c.Choose(many16)
				n := 70000
				if c.Thorough {
					n = 500000
				}
				c.Begin(fmt.Sprintf("%d times %s, then all calls", n, ops16[op].name))
				t := c.w.fresh16(0)
				want := c.w.alone(0, op)
				if strings.Contains(want, "ERROR") && !ops16[op].resp {
					n *= 2 // failing calls may leave something behind
				}
				for i := 0; i < n; i++ {
					if i%500 == 0 {
						c.Alive()
					}
					if got := ops16[op].do(t); got != want {
						c.Fail("as the first call gives %s; as call %d it gives %s", cut(want), i+1, cut(got))
						return
					}
				}
				c.Traces(n)
				c.States(n, n)
				for i := range ops16 {
					if got, want := ops16[i].do(t), c.w.alone(0, i); got != want {
						c.Fail("%s as the first call gives %s; afterwards it gives %s", ops16[i].name, cut(want), cut(got))
						return
					}
				}
				c.Note("held")
			}},
		{Name: "leftovers", Space: fmt.Sprintf("%d places at which a render fails, is left by @break/@continue or panics x 5 faults x %d constructs around it (x %d around these) x 1 or 3 times, before each of %d templates that use nested scopes, loops, components, layouts and failing constructs, as page and through EvaluateString: each result as without the calls before", len(breakers16), len(around16), len(around16), len(probes16)), Run: (*C).left16},
		{Name: "types", Space: fmt.Sprintf("%d templates (every built-in, operator, access, directive on one variable v) rendered on one loaded set with %d values of v of all types, every ordered pair of values in sequence, by String, EvaluateString and EvaluateFile: each result as in a fresh state", len(types16()), len(vals16)),
			Run: func(c *C) {
				src := types16()[c.Choose(len(types16()))]
				api := c.Choose(3)
				c.Begin(fmt.Sprintf("%q with every value after every value, by %s", src, []string{"String", "EvaluateString", "EvaluateFile"}[api]))
				fresh := func() (*textwire.Template, bool) {
					if instrumented {
						resetLib()
						funcs16()
					}
					t, err := c.load(map[string]string{"p": src, "card": "({{ a }}{{ v }}@slot)", "lay": "<@reserve('t')>"})
					if err != nil {
						c.Fail("loading failed: %v", err)
					}
					return t, err == nil && t != nil
				}
				path := absSite("p")
				do := func(t *textwire.Template, k int) string {
					d := map[string]any{"v": vals16[k](), "w": 3, "s": "t"}
					switch api {
					case 0:
						return obsString(t, "p", d)
					case 1:
						s, err := textwire.EvaluateString(src, d)
						return fmt.Sprintf("%q %v", s, err)
					}
					s, err := textwire.EvaluateFile(path, d)
					return fmt.Sprintf("%q %v", s, err)
				}
				if api > 0 && (strings.Contains(src, "@use") || strings.Contains(src, "@comp")) {
					c.Skip()
				}
				var want []string
				for k := range vals16 {
					t, ok := fresh()
					if !ok {
						return
					}
					want = append(want, do(t, k))
				}
				t, ok := fresh()
				if !ok {
					return
				}
				for i := range vals16 {
					for j := range vals16 {
						for _, k := range []int{i, j} {
							c.Traces(1)
							if got := do(t, k); got != want[k] {
								c.Fail("with v = %#v: %s in a fresh state, %s after calls with other values (the last ones %#v and %#v)", vals16[k](), cut(want[k]), cut(got), vals16[i](), vals16[j]())
								return
							}
						}
					}
				}
				c.States(len(vals16)*len(vals16), len(vals16)*len(vals16)*2)
				c.Note("repeated")
			}},
		{Name: "twins", Space: "two sources of the same length n (40..70000) that differ in one place (at the first, 16th, 255th, 256th, 512th, 4096th byte, at every eighth, at the last byte) of text, string literal, comment, code or spread over many lines; evaluated in turns by EvaluateString, by EvaluateFile from two files, from one file rewritten in place with the time of its last change restored, and as pages of a site loaded again: each shows its own content",
			Run: func(c *C) {
				n := []int{40, 100, 128, 250, 257, 300, 513, 600, 1025, 1500, 4097, 5000, 70000}[c.Choose(13)]
				at := []int{0, 16, 255, 256, 512, 4096, n / 8, n / 4, n * 3 / 8, n / 2, n * 5 / 8, n * 3 / 4, n * 7 / 8, n - 1}[c.Choose(14)]
				if at >= n {
					c.Skip()
				}
				kind := c.Choose(5)
				mk := func(b byte) (src, out string) {
					t := []byte(strings.Repeat("x", n))
					if kind == 4 {
						for i := 30; i < n; i += 31 {
							t[i] = '\n'
						}
					}
					t[at] = b
					s := string(t)
					switch kind {
					case 0, 4:
						return s, s
					case 1:
						return "{{ '" + s + "' }}", s
					case 2:
						return "{{-- " + s + " --}}{{ '" + string(b) + "' }}", string(b)
					case 3:
						// the difference is an operand in long code
						return "{{ 1" + strings.Repeat(" ", at) + "+ " + string(b) + strings.Repeat(" ", n-at) + "}}", string(b + 1)
					}
					return "", ""
				}
				how := c.Choose(4)
				c.Begin(fmt.Sprintf("%d bytes, kind %d, differing at %d, way %d", n, kind, at, how))
				a, wa := mk('1')
				b, wb := mk('2')
				if instrumented {
					resetLib()
				}
				fs := c.w.fs("twins")
				p := filepath.Join("twins", "f")
				p2 := filepath.Join("twins", "g")
				abs1, _ := filepath.Abs(p)
				abs2, _ := filepath.Abs(p2)
				if how == 1 {
					fs.sync(map[string]string{"f": a, "g": b})
				}
				for i, k := range []int{0, 1, 0, 1, 1, 0} {
					src, want := a, wa
					if k == 1 {
						src, want = b, wb
					}
					var o out
					switch how {
					case 0:
						o = evalString(src, nil)
					case 1:
						o.S, o.Err = textwire.EvaluateFile([]string{abs1, abs2}[k], nil)
					case 2:
						fs.sync(map[string]string{"f": src})
						o.S, o.Err = textwire.EvaluateFile(abs1, nil)
					case 3:
						t, err := c.load(map[string]string{"p": src})
						if err != nil {
							c.Fail("%v", err)
							return
						}
						o = render(t, "p", nil)
					}
					c.Traces(1)
					if o.Err != nil || o.S != want {
						c.Fail("call %d gives %q, %v; it has to give %q", i+1, cut(o.S), o.Err, cut(want))
						return
					}
				}
				c.Note("told apart")
			}},
		{Name: "config", Space: "6 configurations given as a struct: not changed by loading nor by any call",
			Setup: setup16, Run: func(c *C) {
				k := c.cfg16()
				op := c.Choose(nops)
				c.Begin(fmt.Sprintf("configuration %d, %s", k, ops16[op].name))
				want := c.w.alone(k, op)
				if instrumented {
					resetLib()
					funcs16()
				}
				cfg := cfgs16[k]
				cfg.TemplateDir, cfg.TemplateExt = dir16, siteExt
				was := cfg
				t, err := textwire.NewTemplate(&cfg)
				if err != nil {
					c.Fail("%v", err)
					return
				}
				if cfg != was {
					c.Fail("loading changed the configuration from %+v to %+v", was, cfg)
				}
				got := ops16[op].do(t)
				if got != want {
					c.Fail("gives %s, in a process of its own %s", cut(got), cut(want))
				}
				if cfg != was {
					c.Fail("rendering changed the configuration from %+v to %+v", was, cfg)
				}
				c.Note("compared")
			}},
	}
	register(&Check{ID: "C16", Families: append(append(fams, small16()), againFamilies()...), Assumptions: []string{
		"the result of a call in a process of its own is taken as the result the call has to have (its correctness is the subject of the other checks)",
		"fresh state between histories: all package variables of the library get their initial values (instrumented build); the first results are those of real processes",
	}})
}
