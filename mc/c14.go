package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// A probe is one complete use of the library from files and data to a result.
// Everything that can be observed goes into one string.
type probe14 struct {
	files map[string]string // nil: string API
	src   string
	pages []string
	data  func() map[string]any
	debug bool   // Response with debug mode
	resp  bool   // Response instead of String
	label string // what the data is
}

func (p probe14) String() string {
	d := ""
	if p.label != "" {
		d = " with data " + p.label
	} else if p.data != nil {
		d = fmt.Sprintf(" with data %s", cut(showGo(p.data())))
	}
	if p.files == nil {
		return fmt.Sprintf("%q%s", cut(p.src), d)
	}
	how := "String"
	if p.resp {
		how = fmt.Sprintf("Response (debug %v)", p.debug)
	}
	return fmt.Sprintf("%s %s %v%s", showFiles(p.files), how, p.pages, d)
}

func showGo(m map[string]any) string { return fmt.Sprintf("%v", m) }

type recorder struct {
	head http.Header
	body bytes.Buffer
	code int
	n    int // number of writes
}

func (r *recorder) Header() http.Header {
	if r.head == nil {
		r.head = http.Header{}
	}
	return r.head
}
func (r *recorder) Write(b []byte) (int, error) { r.n++; return r.body.Write(b) }
func (r *recorder) WriteHeader(c int)           { r.code = c }

const dir14 = "site14"

// do runs a probe; the files are in place already
func (p probe14) do() string {
	var data map[string]any
	if p.data != nil {
		data = p.data()
	}
	if p.files == nil {
		s, err := textwire.EvaluateString(p.src, data)
		return fmt.Sprintf("%q %v", s, err)
	}
	t, err := textwire.NewTemplate(&config.Config{TemplateDir: dir14, TemplateExt: siteExt, ErrorPagePath: "err", DebugMode: p.debug})
	if err != nil {
		return fmt.Sprintf("load: %v", err)
	}
	var b strings.Builder
	for _, n := range p.pages {
		if p.data != nil {
			data = p.data()
		}
		if p.resp {
			var r recorder
			err := t.Response(&r, n, data)
			fmt.Fprintf(&b, "%s: %q %d %v %v\n", n, r.body.String(), r.code, r.head, err)
		} else {
			s, err := t.String(n, data)
			if err != nil {
				fmt.Fprintf(&b, "%s: %q %v %d %q %q\n", n, s, err.Error(), err.Line(), err.Filepath(), err.Message())
			} else {
				fmt.Fprintf(&b, "%s: %q\n", n, s)
			}
		}
	}
	return b.String()
}

func (w *Worker) place14(p probe14) {
	if p.files == nil {
		return
	}
	m := map[string]string{}
	for n, s := range p.files {
		m[n+siteExt] = s
	}
	w.fs(dir14).sync(m)
}

// ------------------------------------------------------------------ programs

var keys14 = [][]string{{"b", "a"}, {"a", "B", "b"}, {"k2", "k10", "k1", "K"}, {"é", "z", "aa", "a", "_"}, {"h", "g", "f", "e", "d", "c", "b", "a", "i"}}

// goShape builds a Go value with objects of several keys; n chooses the keys
func shape14(c *C, depth int) func() any {
	leaf := []any{1, "s<", true, nil, 1.5}
	k := c.Choose(b2i(depth > 0)*6 + 1)
	switch k {
	case 1, 2, 3, 4, 5:
		if depth < 2 && !c.Thorough && k > 2 {
			c.Skip()
		}
		ks := keys14[k-1]
		in := func() any { return 7 }
		if depth > 1 {
			in = shape14(c, depth-1)
		}
		wrap := 0
		if depth > 1 {
			wrap = c.Choose(3)
		}
		return func() any {
			m := map[string]any{}
			for i, x := range ks {
				m[x] = leaf[i%len(leaf)]
			}
			m[ks[0]] = in()
			m[ks[len(ks)-1]] = in()
			switch wrap {
			case 1:
				return []any{m, in(), m}
			case 2:
				return map[string]any{"q": m, "p": in(), "r": []map[string]any{m}}
			}
			return m
		}
	case 6:
		// typed maps and structs
		return func() any {
			return struct {
				B, A, C int
				M       map[string]int
				P       *map[string][]string
			}{1, 2, 3, map[string]int{"y": 1, "x": 2, "z": 3}, &map[string][]string{"n": {"1"}, "m": {"2", "3"}}}
		}
	}
	return func() any { return 7 }
}

var uses14 = []string{
	"{{ v }}", "@dump(v)", "@dump(v, v, w)", "{{ [v, w] }}", "{{ {z: v, a: w, m: [v]} }}", "@each(x in [v, w]){{ x }}@dump(x)@end", "{{ y = v; y }}", "{{ [v].join('-') }}", "{{ [v, w].contains(w) }}{{ [v].contains(v) }}{{ [w].contains({}) }}", "{{ [v, w].reverse() }}", "{{ [v, w].slice(1) }}", "{{ [w].append(v).prepend(v) }}", "@dump([{b: v, a: w}])", "{{ 'x'.show14(v, w) }}", "{{ [v].same14() }}", "@if(v){{ v }}@end",
}

// a value that fails, with a text of its own
var bad14 = []string{"1", "u%d", "1 / 0", "'x'.nope%d()", "-'s%d'", "[u%d]", "{z: u%d, y: v%d}", "'t'.len%d", "i = 1", "1 + 's%d'", "5.repeat(%d)", "('x' == %d)"}

func failing14(k, i int) string {
	return strings.ReplaceAll(bad14[k], "%d", fmt.Sprint(i))
}

var litCtx14 = []string{"{{ %s }}", "{{ x = %s }}", "@dump(%s)", "{{ [1, %s] }}", "@if(%s)a@end", "{{ 'x'.show14(%s) }}", "@each(y in [%s]){{ y }}@end", "{{ %s.a }}", "{{ {q: %s} }}"}

var compFiles14 = []string{
	"<{{ a }}|{{ b }}|{{ c }}>", "<@slot|@slot('x')|@slot('y')>", "<@slot('y'){{ a }}@slot('x')@slot>", "<>", "@slot('x')d@end{{ b }}@slot('z')", "{{ a }}{{ nope }}{{ b }}",
}

// pieces of pages for the layout probes
var inserts14 = []string{"@insert('a', 'A')", "@insert('b')B{{ o }}@end", "@insert('x', 'X')", "\n@insert('y')Y@end", "@insert('z', 1 / 0)", "@insert('a')\n{{ ua }}@end", "@insert('b', ub)", "\n@insert('c'){{ 'x'.nope() }}@end"}

var layouts14 = []string{"[@reserve('a')][@reserve('b')][@reserve('c')]", "@reserve('b'){{ o }}@reserve('a')", "@if(true)@reserve('c')@end@reserve('y')", "none", "@reserve('a'){{ un }}@reserve('b')"}

var fileKinds14 = []string{"ok {{ o }}", "{{ # }}", "\n@if(true)", "@component('zz%d')", "\n\n@use('zz%d')", "@use('lay')@insert('un%d', 1)", "@use('lay')@insert('d', 1)@insert('d', 2)", "@use('bad')@insert('a','')", "@component('bad2')", "@component('comp')@slot('u%d')@end@slot('v%d')@end@end", "@component('comp')@slot('x')1@end@slot('x')2@end@slot('y')1@end@slot('y')2@end@end", "@reserve('r')@reserve('s')", "{{ u%d }}", "@use('err')@insert('q%d', '')@insert('p%d', '')", "@component('comp', {b: u%d, a: w%d})@end"}

var dataBad14 = []func() any{
	func() any { return 1 },
	func() any { return make(chan int) },
	func() any { return func() {} },
	func() any { return complex(1, 2) },
	func() any {
		return map[string]any{"q": make(chan string), "p": func(int) {}, "r": 1, "s": complex64(1)}
	},
	func() any { return []any{1, struct{ Z, Y any }{make(chan bool), complex(1, 1)}} },
	func() any {
		return map[string]map[string]any{"m": {"b": 1i, "a": func() int { return 0 }}, "l": {"x": 1, "y": make(chan byte)}}
	},
	func() any { return map[string][]any{"f": {1, func() {}}, "e": {2i}} },
}

func obj14() map[string]any {
	return map[string]any{"o": map[string]any{"d": 1, "b": 2, "c": []any{map[string]any{"y": 1, "x": 2}}}, "v": map[string]any{"n": 1, "m": 2}, "w": 3, "i": 1}
}

// oddNames14 and manyKinds14: the same construct several times, with names
// that are blank, nearly the same, long or not ASCII
var oddNames14 = [][]string{
	{" ", "  ", "   ", "    ", "\t", ""},
	{"u1", "u2", "u10", "u11", "U1", "u-1"},
	{"t ", " t", "T", "tt", "t.t", "t/t"},
	{"é", "e", "É", "日", "日本", "\u00a0"},
	{"loop", "nil", "true", "global", "index", "1"},
}

var manyKinds14 = []struct {
	page, each string
	data, file bool
}{
	{page: "@use('lay')%s", each: "\n@insert('%s', %d)"},
	{page: "@use('lay')%s", each: "\n@insert('%s')%d{{ o.nope() }}@end"},
	{page: "@component('comp', {t: 1})%s\n@end", each: "\n@slot('%s')%d@end"},
	{page: "%s", each: "\n@component('%s', {t: %d})"},
	{page: "@component('comp', {t: 1%s})", each: ",\n'%s': %d.nope()"},
	{page: "{{ {t: 1%s} }}", each: ",\n'%s': %d"},
	{page: "@use('lay')%s", each: "\n@reserve('%s')%d"},
	{page: "{{ o }}%s", each: "{{ '%s' }}%d", data: true},
	{page: "{{ o }}%s", each: "{{ '%s' }}%d", file: true},
}

// gen14 enumerates the probes
func gen14(c *C) probe14 {
	switch c.Choose(12) {
	case 11: // many of a kind with unusual names
		l := oddNames14[c.Choose(len(oddNames14))]
		k := manyKinds14[c.Choose(len(manyKinds14))]
		n := []int{2, 4, len(l)}[c.Choose(3)]
		var b, d strings.Builder
		f := map[string]string{"lay": "[@reserve('t')]", "comp": "<@slot('t')>{{ t }}", "page": ""}
		data := map[string]any{"o": obj14()["o"]}
		for i, x := range l[:n] {
			fmt.Fprintf(&b, k.each, x, i)
			fmt.Fprintf(&d, "@reserve('%s')@slot('%s')", x, x)
			if k.data {
				data[x] = i
			}
			if k.file && strings.TrimSpace(x) != "" {
				f["d/"+x] = fmt.Sprintf("\n{{ %d.nope() }}", i)
			}
		}
		f["page"] = fmt.Sprintf(k.page, b.String())
		if c.Bool() {
			f["lay"], f["comp"] = d.String(), d.String()
		}
		return probe14{files: f, pages: []string{"page"}, data: func() map[string]any { return data }, resp: c.Bool()}
	case 8: // names that are nearly right
		k := c.Choose(len(near14))
		n := near14[k]
		name := n.names[c.Choose(len(n.names))]
		l := misspell(name)
		m := l[c.Choose(len(l))]
		p := probe14{data: nearData14}
		if n.file == "" {
			p.src = fmt.Sprintf(n.src, m)
			return p
		}
		p.files = map[string]string{"page": fmt.Sprintf(n.src, m), "lay": "[@reserve('titleA')@reserve('TITLEA')@reserve('titleB')]", "comp": "<@slot('sideA')@slot('SIDEA')@slot('sideB')>", "cards/a": "A", "cards/A": "AA", "cards/b": "B", "Page": "P", "err": "E"}
		p.pages = []string{"page"}
		if n.file == "name" {
			p.pages = []string{m}
			p.files["page"] = "x"
			p.resp = c.Bool()
			p.debug = p.resp
		}
		return p
	case 9: // every built-in name on every kind of value
		g := c.Choose(len(goodValues()))
		f := funcNames14[c.Choose(len(funcNames14))]
		a := []string{"", "0", "'a'", "v", "o, 1", "-1, 'x'"}[c.Choose(4+2*b2i(c.Thorough))]
		return probe14{src: "{{ v." + f + "(" + a + ") }}", label: "v = " + goodValues()[g].name, data: func() map[string]any {
			return map[string]any{"v": goodValues()[g].g, "o": obj14()["o"]}
		}}
	case 10: // every unsupported value
		b := c.Choose(len(badValues()))
		w := dataWraps[c.Choose(len(dataWraps))]
		return probe14{src: "{{ v }}", label: badValues()[b].name + " " + w.name, data: func() map[string]any { return map[string]any{"v": w.mk(badValues()[b].g), "b": 1, "loop": 1} }}
	case 0: // objects that come with the data
		v := shape14(c, 2)
		u := uses14[c.Choose(len(uses14))]
		w := shape14(c, b2i(c.Thorough))
		return probe14{src: u, data: func() map[string]any { return map[string]any{"v": v(), "w": w()} }}
	case 1: // object literals with failing entries
		n := 2 + c.Choose(2)
		var p []string
		names := [][]string{{"b", "a", "c"}, {"k10", "K", "k2"}, {"a", "b", "c"}}[c.Choose(2+b2i(c.Thorough))]
		for i := 0; i < n; i++ {
			if n == 3 && i == 1 && !c.Thorough {
				p = append(p, fmt.Sprintf("\n%s: %s", names[i], failing14(1+c.Choose(2), i)))
				continue
			}
			p = append(p, fmt.Sprintf("\n%s: %s", names[i], failing14(c.Choose(len(bad14)), i)))
		}
		lit := "{" + strings.Join(p, ",") + "\n}"
		return probe14{src: fmt.Sprintf(litCtx14[c.Choose(len(litCtx14))], lit)}
	case 2: // component arguments
		n := 2 + c.Choose(2)
		names := [][]string{{"b", "a", "c"}, {"v", "w", "o"}}[c.Choose(2)]
		var p []string
		for i := 0; i < n; i++ {
			k := len(bad14)
			if n == 3 && !c.Thorough {
				k = 3
			}
			p = append(p, fmt.Sprintf("\n%s: %s", names[i], failing14(c.Choose(k), i)))
		}
		comp := compFiles14[c.Choose(len(compFiles14))]
		pre := []string{"", "@each(q in [1, 2])", "{{ a = {y: 1, x: 2} }}"}[c.Choose(3)]
		post := ""
		if strings.HasPrefix(pre, "@") {
			post = "@end"
		}
		return probe14{files: map[string]string{"page": pre + "@component('comp', {" + strings.Join(p, ",") + "})" + post, "comp": comp, "err": "E{{ 1 }}"}, pages: []string{"page", "comp"}, data: obj14}
	case 3: // slots
		n := 1 + c.Choose(3+b2i(c.Thorough))
		names := []string{"('x')", "('y')", "('u')", "('t')", " "}
		s := "@component('comp', {b: 1, a: 2})"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("\n@slot%s%d{{ o }}@end", names[c.Choose(len(names))], i)
		}
		s += "\n@end"
		comp := compFiles14[c.Choose(len(compFiles14))]
		return probe14{files: map[string]string{"page": s, "comp": comp, "err": "E"}, pages: []string{"page"}, data: obj14}
	case 4: // inserts
		n := 2 + b2i(c.Thorough)*c.Choose(2)
		if n == 3 && c.Bool() {
			n = 1
		}
		s := "@use('lay')"
		for i := 0; i < n; i++ {
			s += inserts14[c.Choose(len(inserts14))]
		}
		r := 0
		if n < 3 {
			r = c.Choose(3)
		}
		return probe14{files: map[string]string{"page": s, "lay": layouts14[c.Choose(len(layouts14))], "err": "E{{ 1 }}"}, pages: []string{"page"}, data: obj14, resp: r > 0, debug: r > 1}
	case 5: // several faulty files
		k := len(fileKinds14)
		f := map[string]string{"lay": "[@reserve('a')][@reserve('d')]", "comp": "<@slot('x')@slot('y')>{{ a }}{{ b }}", "bad": "@reserve('a')\n{{ 1 + }}", "bad2": "{{ ) }}", "err": "E"}
		if c.Bool() {
			delete(f, "bad")
			delete(f, "bad2")
		}
		names := [][]string{{"b", "a", "c/d"}, {"zz0", "Z", "a"}}[c.Choose(2)]
		n := 2 + b2i(c.Thorough)
		for i, x := range names {
			if i < n {
				f[x] = strings.ReplaceAll(fileKinds14[c.Choose(k)], "%d", fmt.Sprint(i))
			} else {
				f[x] = fileKinds14[c.Choose(2)]
			}
		}
		return probe14{files: f, pages: names, data: obj14, resp: c.Bool()}
	case 6: // unsupported data
		n := 2 + c.Choose(1+b2i(c.Thorough))
		var l []func() any
		for i := 0; i < n; i++ {
			l = append(l, dataBad14[c.Choose(len(dataBad14))])
		}
		site := c.Bool()
		data := func() map[string]any {
			m := map[string]any{}
			for i, f := range l {
				m[keys14[1][i]] = f()
			}
			return m
		}
		if site {
			return probe14{files: map[string]string{"page": "{{ a }}", "err": "E"}, pages: []string{"page", "none"}, data: data, resp: n == 2}
		}
		return probe14{src: "x{{ a }}", data: data}
	default: // statements in sequence over objects
		l := []string{"{{ o }}", "@each(x in o.c){{ x }}@end", "{{ o = {f: 1, e: o, d: o} }}", "@dump(o, v)", "{{ p = [o, v]; p }}", "@for(j = 0; j < 2; j++){{ v }}@end", "{{ {b: o.b, a: o.d, c: v} }}", "{{ u = {b: ub, a: ua} }}", "{{ 'x'.show14({g: o, f: v}) }}", "@if(false)@elseif({b: 1, a: 2}){{ o }}@end"}
		n := 1 + c.Choose(2+b2i(c.Thorough))
		s := ""
		for i := 0; i < n; i++ {
			s += l[c.Choose(len(l))] + "\n"
		}
		k := c.Choose(3)
		switch k {
		case 1:
			return probe14{files: map[string]string{"page": s, "err": "E"}, pages: []string{"page"}, data: obj14, resp: true, debug: true}
		case 2:
			return probe14{files: map[string]string{"page": "@use('lay')@insert('a')" + s + "@end@insert('b', {y: 1, x: {n: 1, m: 2}})", "lay": "{{ o }}@reserve('a')@reserve('b')", "err": "E"}, pages: []string{"page", "lay"}, data: obj14}
		}
		return probe14{src: s, data: obj14}
	}
}

type near struct {
	src, file string
	names     []string
}

var near14 = []near{
	{"{{ o.%s }}", "", []string{"userName", "UserName", "UserId", "ID"}},
	{"{{ o.in.%s }}", "", []string{"userName", "UserID"}},
	{"{{ o['%s'] }}", "", []string{"userName", "UserID"}},
	{"{{ {userID: 1, UserId: 2, USERID: 3}.%s }}", "", []string{"UserID"}},
	{"{{ st.%s }}", "", []string{"UserID", "UserId", "Name"}},
	{"{{ %s }}", "", []string{"nameA", "NAMEA", "nameB", "o"}},
	{"@each(x in [1]){{ loop.%s }}@end", "", []string{"index", "iter"}},
	{"{{ 'a'.%s() }}", "", []string{"trimLeft", "trimRight", "truncate", "reverse", "contains", "first", "mineA", "mineB"}},
	{"{{ [1].%s() }}", "", []string{"reverse", "append", "slice", "mineA"}},
	{"{{ 1.%s() }}", "", []string{"float", "abs", "decimal", "mineB"}},
	{"{{ 1.5.%s() }}", "", []string{"floor", "ceil", "round", "mineA"}},
	{"{{ true.%s() }}", "", []string{"binary", "then", "mineA"}},
	{"{{ nil.%s() }}{{ o.%[1]s() }}", "", []string{"str", "len"}},
	{"@use('%s')@insert('titleA', 1)", "x", []string{"lay", "layA", "comp"}},
	{"@use('lay')@insert('%s', 1)", "x", []string{"titleA", "TitleA"}},
	{"@component('%s')", "x", []string{"cards/a", "comp", "cards/b"}},
	{"@component('comp')@slot('%s')1@end@end", "x", []string{"sideA", "SideB"}},
	{"%s", "name", []string{"page", "Page", "cards/a", "lay"}},
}

func nearData14() map[string]any {
	return map[string]any{"nameA": 1, "NAMEA": 2, "nameB": "b", "NameB": "c", "st": struct{ UserID, UserId, USERID, Name, NAME int }{1, 2, 3, 4, 5},
		"o": map[string]any{"UserID": 1, "USERID": 2, "userid": 3, "userName": 4, "USERNAME": 5, "in": map[string]any{"UserID": 1, "userID": 2, "UserName": 3, "username": 4}}}
}

// misspell makes names that are nearly the given one
func misspell(s string) []string {
	l := []string{s, strings.ToLower(s), strings.ToUpper(s), strings.ToLower(s[:1]) + s[1:], strings.ToUpper(s[:1]) + s[1:], s + "s", s + "X", "x" + s}
	for i := 1; i < len(s) && i < 5; i++ {
		l = append(l, s[:i])
	}
	if len(s) > 2 {
		l = append(l, s[1:], s[:len(s)-1], s[:1]+s[2:], s[1:2]+s[:1]+s[2:])
	}
	return l
}

var funcNames14 = []string{"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize", "reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat", "join", "slice", "append", "prepend", "int", "str", "abs", "ceil", "floor", "round", "float", "binary", "then", "mineA"}

func funcs14() {
	textwire.RegisterStrFunc("mineA", func(s string, _ ...any) string { return s + "A" })
	textwire.RegisterStrFunc("mineB", func(s string, _ ...any) string { return s + "B" })
	textwire.RegisterIntFunc("mineA", func(i int, _ ...any) int { return i })
	textwire.RegisterIntFunc("mineB", func(i int, _ ...any) int { return i })
	textwire.RegisterFloatFunc("mineA", func(f float64, _ ...any) float64 { return f })
	textwire.RegisterBoolFunc("mineA", func(b bool, _ ...any) bool { return b })
	textwire.RegisterArrFunc("mineA", func(a []any, _ ...any) []any { return a })
	textwire.RegisterStrFunc("show14", func(s string, a ...any) string { return s + fmt.Sprint(a...) })
	textwire.RegisterArrFunc("same14", func(a []any, _ ...any) []any { return a })
}

// digest tells two results apart
func digest(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

// ------------------------------------------------------------------ processes

// other results of the probes of the current worker, path -> digest
type procs14 struct{ res []map[string]string }

func key14(p []choice) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, "%d,", x.v)
	}
	return b.String()
}

func setup14(w *Worker) {
	funcs14()
	w.famState = &procs14{}
	if w.single {
		return
	}
	self, _ := os.Executable()
	ps := w.famState.(*procs14)
	for i := 0; i < 3; i++ {
		os.RemoveAll(filepath.Join(w.Scratch, dir14))
		delete(w.sites, dir14)
		cmd := exec.Command(self, "helper", "c14", "-scratch", w.Scratch, "-tier", w.tier, "-shard", fmt.Sprint(w.shard), "-k", fmt.Sprint(w.K))
		cmd.Env = append(os.Environ(), [][]string{{"LANG=C", "TZ=UTC", "GOMAXPROCS=1"}, {"LANG=tr_TR.UTF-8", "TZ=Asia/Tokyo", "GOMAXPROCS=4", "HOME=/"}, {"GOGC=20", "USER=x"}}[i]...)
		cmd.Stderr = os.Stderr
		b, err := cmd.Output()
		m := map[string]string{}
		if err != nil || json.Unmarshal(b, &m) != nil {
			// a probe that ends the process is reported by the worker itself
			continue
		}
		ps.res = append(ps.res, m)
	}
	os.RemoveAll(filepath.Join(w.Scratch, dir14))
	delete(w.sites, dir14)
}

func init() {
	helpers["c14"] = func(a map[string]string) {
		a["check"] = "C14"
		w := newWorker(a)
		w.st = &Stat{}
		w.outcomes = map[string]int64{}
		w.ordinal = -1
		funcs14()
		go w.watchdog()
		res := map[string]string{}
		var path []choice
		for more := true; more; {
			c := w.newC(path)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(skipPath); !ok {
							res[key14(c.path[:c.pos])] = "panic"
						}
					}
				}()
				p := gen14(c)
				if !c.decided {
					c.decide()
				}
				w.begin(c, "")
				w.place14(p)
				res[key14(c.path[:c.pos])] = digest(p.do())
			}()
			path, _, more = next(c.path[:c.pos])
		}
		b, _ := json.Marshal(res)
		os.Stdout.Write(b)
	}
	register(&Check{
		ID: "C14",
		Families: []Family{
			{Name: "repeat", Space: "every probe (printed and dumped objects, object literals and component arguments with several failing entries, slots, inserts, several faulty files, unsupported values, statements over objects, nearly right names of variables, properties, functions, files, inserts and slots, every built-in name on every kind of value; String, Response with and without debug mode): 6 times in one process and once in each of 3 other processes with other environments (map order as the Go runtime draws it)",
				Setup: setup14,
				Run: func(c *C) {
					p := gen14(c)
					c.Begin(p.String())
					c.w.place14(p)
					first := p.do()
					c.Note(class14(first))
					for i := 0; i < 5; i++ {
						c.Traces(1)
						if again := p.do(); again != first {
							c.Fail("first %s, then %s", cut(first), cut(again))
							return
						}
					}
					d, k := digest(first), key14(c.path[:c.pos])
					for i, m := range c.w.famState.(*procs14).res {
						if other, ok := m[k]; ok {
							c.Traces(1)
							if other != d {
								c.Fail("another process (%d) had a different result than %s", i, cut(first))
								return
							}
						}
					}
				}},
		},
		Assumptions: []string{"the Go runtime and the standard library are deterministic apart from map iteration, select and goroutine scheduling", "file systems list directories in the order of names (filepath.Walk)"},
	})
}

func class14(s string) string {
	switch {
	case strings.HasPrefix(s, "load:"):
		return "load error"
	case strings.Contains(s, "ERROR"):
		return "error"
	}
	return "output"
}
