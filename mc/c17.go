package main

import (
	"fmt"
	"html"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

const dir17 = "site17"

// Everything in a page that must not reach the body of a failed response has
// this word in it.
const mark17 = "Zq7"

// error pages: configured name, the files that belong to it
type errPage17 struct {
	name  string
	path  string
	files map[string]string
	works string // what a working one shows
	known bool   // works is known
}

var errPages17 = []errPage17{
	{name: "none", path: ""},
	{name: "plain", path: "oops", files: map[string]string{"oops": "CUSTOM page"}, works: "CUSTOM page", known: true},
	{name: "with code", path: "oops", files: map[string]string{"oops": "CUSTOM {{ 1 + 1 }}@each(i in [1, 2])-{{ i }}@end"}, works: "CUSTOM 2-1-2", known: true},
	{name: "with layout and component", path: "errors/oops", files: map[string]string{"errors/oops": "@use('errors/lay')@insert('b')CUSTOM@component('errors/c', {n: 5})@end", "errors/lay": "[@reserve('b')]", "errors/c": "<{{ n }}>"}, works: "[CUSTOM<5>]", known: true},
	{name: "empty", path: "oops", files: map[string]string{"oops": ""}, works: "", known: true},
	{name: "printing what the built-in page prints", path: "oops", files: map[string]string{"oops": "@if(true)CUSTOM@end{{ path = 'p'; path }}"}, works: "CUSTOMp", known: true},
	{name: "missing", path: "nothere"},
	{name: "failing at once", path: "oops", files: map[string]string{"oops": "{{ zip }}CUSTOM"}},
	{name: "failing at the end", path: "oops", files: map[string]string{"oops": "CUSTOM " + mark17 + "\n{{ 1 / 0 }}"}},
	{name: "using the variables of the built-in page", path: "oops", files: map[string]string{"oops": mark17 + "{{ message }}{{ path }}{{ line }}"}},
	{name: "failing in its component", path: "oops", files: map[string]string{"oops": mark17 + "@component('oc')", "oc": "\n{{ 'a'.nope() }}" + mark17}},
	{name: "failing in its layout", path: "oops", files: map[string]string{"oops": "@use('olay')@insert('b', '" + mark17 + "')", "olay": "@reserve('b'){{ nope }}"}},
	{name: "a layout", path: "olay", files: map[string]string{"olay": mark17 + "@reserve('b')"}},
	{name: "failing in a loop", path: "oops", files: map[string]string{"oops": "@each(i in [2, 1, 0])" + mark17 + "{{ 4 / i }}@end"}},
	{name: "the failing page itself", path: "the/page"},
	{name: "with the extension", path: "oops" + siteExt, files: map[string]string{"oops": mark17}},
}

// pages: files, with the page to render as the/page
type page17 struct {
	name  string
	files map[string]string
	page  string // rendered name, "" is the/page
	data  func() map[string]any
	works bool
}

func d17() map[string]any {
	return map[string]any{"n": 4, "s": mark17 + "<s>", "o": map[string]any{"a": 1, "t": mark17}, "a": []int{1, 2}, "k": "<b>" + "K", "pct": "%d%s%!", "z": 0}
}

func one17(s string) map[string]string { return map[string]string{"the/page": s} }

var lay17 = map[string]string{"lay": mark17 + "[@reserve('t')]" + mark17 + "{{ n }}[@reserve('b')]" + mark17}

func with17(l ...map[string]string) map[string]string {
	m := map[string]string{}
	for _, x := range l {
		for k, v := range x {
			m[k] = v
		}
	}
	return m
}

var pages17 = []page17{
	{name: "text", files: one17(mark17 + " text"), works: true},
	{name: "empty", files: one17(""), works: true},
	{name: "data", files: one17("{{ n }}{{ s }}{{ o.t }}{{ a }}<b>&"), works: true},
	{name: "html and percent signs", files: one17("%d %s %v %% <a href=\"%20\">{{ pct }}"), works: true},
	{name: "layout and component", files: with17(lay17, one17("@use('lay')@insert('t', s)@insert('b')@component('c', {v: n})@slot x{{ v }}@end@end@end"), map[string]string{"c": "({{ v }}@slot)"}), works: true},
	{name: "large", files: one17(strings.Repeat("0123456789abcde\n", 6000) + "@each(i in [1, 2, 3]){{ s.repeat(3000) }}@end"), works: true},
	{name: "unknown variable", files: one17(mark17 + "{{ s }}\n{{ unknownVar }}" + mark17)},
	{name: "at once", files: one17("{{ 1 / z }}" + mark17)},
	{name: "at the end", files: one17(mark17 + "\n\n@if(n == 4)" + mark17 + "@end{{ s }}{{ s.missingFunc() }}")},
	{name: "in a loop", files: one17("@each(i in [2, 1, 0])" + mark17 + "{{ 4 / i }}@end")},
	{name: "in a nested loop", files: one17("@for(j = 0; j < 2; j++)@each(i in [2, 1, 0])" + mark17 + "{{ (4 / (i + 1 - j)) }}{{ s }}@end@end")},
	{name: "in a component", files: with17(one17(mark17+"@component('c', {v: n})"+mark17), map[string]string{"c": mark17 + "\n{{ v + s }}" + mark17})},
	{name: "in a slot", files: with17(one17(mark17+"@component('c', {v: n})\n@slot"+mark17+"{{ o.missingProp }}@end@end"), map[string]string{"c": mark17 + "@slot" + mark17})},
	{name: "in a default slot", files: with17(one17(mark17+"@component('c')"), map[string]string{"c": mark17 + "@slot\n{{ nope }}@end" + mark17})},
	{name: "in an argument", files: with17(one17(mark17+"@component('c', {v: -s})"), map[string]string{"c": mark17})},
	{name: "in an insert", files: with17(lay17, one17("@use('lay')@insert('t')"+mark17+"@end@insert('b')"+mark17+"{{ o['"+"<i>"+"'] }}@end"))},
	{name: "in an insert's value", files: with17(lay17, one17("@use('lay')@insert('b', a.join(1) + nope)"))},
	{name: "in a layout", files: with17(map[string]string{"lay": mark17 + "@reserve('t'){{ a * 2 }}" + mark17}, one17("@use('lay')@insert('t', '"+mark17+"')"))},
	{name: "special characters in the message", files: one17(mark17 + "{{ o[k] }}")},
	{name: "percent signs in the message", files: one17(mark17 + "{{ o[pct] }}")},
	{name: "braces in the message", files: one17(mark17 + "{{ o['{{ n }}@if(true)'] }}")},
	{name: "quotes and entities in the message", files: one17(mark17 + "{{ o['\"&amp;<>'] }}")},
	{name: "a long message", files: one17(mark17 + "{{ o['" + strings.Repeat("long key ", 600) + "'] }}")},
	{name: "an empty name", files: one17(mark17 + "{{ o[''] }}")},
	{name: "type clash", files: one17(mark17 + "{{ n = 'x" + "' }}")},
	{name: "reserved name", files: one17(mark17 + "{{ loop = 1 }}")},
	{name: "not an array", files: one17(mark17 + "@each(x in n)" + mark17 + "@end")},
	{name: "not a number", files: one17(mark17 + "{{ s++ }}")},
	{name: "wrong argument", files: one17(mark17 + "{{ s.repeat('x') }}")},
	{name: "in a dump", files: one17(mark17 + "{{ [1, nope] }}@dump(o)")},
	{name: "unknown template", page: "no/such", files: one17(mark17)},
	{name: "unknown template with odd name", page: "../<b>{{ x }}%d", files: one17(mark17)},
	{name: "empty template name", page: "/", files: one17(mark17)},
	{name: "a layout", page: "lay", files: with17(lay17, one17(mark17))},
	{name: "unsupported data", files: one17(mark17), data: func() map[string]any { return map[string]any{"s": mark17, "c": make(chan int)} }},
	{name: "reserved data", files: one17(mark17), data: func() map[string]any { return map[string]any{"s": mark17, "loop": 1} }},
	{name: "no data", files: one17(mark17 + "{{ n }}"), data: func() map[string]any { return nil }},
}

// fresh17 loads files under a configuration, from the initial state
func (c *C) fresh17(files map[string]string, cfg config.Config) (*textwire.Template, error) {
	if instrumented {
		resetLib()
	}
	m := map[string]string{}
	for n, s := range files {
		m[n+siteExt] = s
	}
	c.w.fs(dir17).sync(m)
	cfg.TemplateDir, cfg.TemplateExt = dir17, siteExt
	return textwire.NewTemplate(&cfg)
}

// the text of the built-in page, where its source is found
func builtinSource() string {
	b, err := os.ReadFile(filepath.Join(repoDir(), "textwire", "default-error-page.tw"))
	if err != nil {
		return ""
	}
	return string(b)
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// has tells whether a body shows a text, escaped or not
func has(body, text string) bool {
	return strings.Contains(body, text) || strings.Contains(body, html.EscapeString(text)) || strings.Contains(html.UnescapeString(body), html.UnescapeString(text))
}

// response renders once and checks body and error.  ep nil: any error page
func (c *C) response(t *textwire.Template, page string, data func() map[string]any, debug bool, ep *errPage17, marked bool) {
	s, ferr := t.String(page, data())
	var rec recorder
	err := t.Response(&rec, page, data())
	body := rec.body.String()
	// through the type net/http/httptest brings
	hr := httptest.NewRecorder()
	err2 := t.Response(hr, page, data())
	c.Traces(1)
	if hr.Body.String() != body || fmt.Sprint(err) != fmt.Sprint(err2) {
		c.Fail("two responses differ: %q %v and %q %v", cut(body), err, cut(hr.Body.String()), err2)
	}
	if ferr == nil {
		c.Note("page")
		if err != nil {
			c.Fail("returned the error %v, the page renders", err)
		}
		if body != s {
			c.Fail("wrote %d bytes %q, the page has %d bytes %q", len(body), cut(body), len(s), cut(s))
		}
		return
	}
	if err == nil {
		c.Fail("returned nil, the page fails with %v", ferr.Error())
		return
	}
	if marked && strings.Contains(body, mark17) {
		i := strings.Index(body, mark17)
		c.Fail("the body has a part of a failed page: %q", cut(body[max(0, i-60):]))
	}
	message, path, line := ferr.Message(), ferr.Filepath(), ferr.Line()
	if debug {
		c.Note("debug page")
		if !has(body, message) {
			c.Fail("debug mode: the body lacks the message %q: %q", cut(message), cut(body[strings.Index(body, "<body")+1:]))
		}
		if !has(body, path) {
			c.Fail("debug mode: the body lacks the path %q", path)
		}
		if !has(strings.ReplaceAll(body, path, ""), fmt.Sprint(line)) {
			c.Fail("debug mode: the body lacks the line %d", line)
		}
		if path != "" && !has(body, fmt.Sprintf("%s:%d", path, line)) {
			c.Note("path and line apart")
		}
		if ep != nil && ep.known && ep.works != "" && body == ep.works {
			c.Fail("debug mode: the custom page was shown")
		}
	} else {
		wd, _ := os.Getwd()
		if message != "" && has(body, message) {
			c.Fail("the body shows the message %q", cut(message))
		}
		for _, p := range []string{path, wd, dir17 + "/", "the/page", siteExt} {
			if p != "" && has(body, p) {
				c.Fail("the body shows the path %q", p)
			}
		}
		for _, w := range []string{"Textwire ERROR", err.Error()} {
			if has(body, w) {
				c.Fail("the body shows %q", cut(w))
			}
		}
	}
	if ep == nil {
		return
	}
	want, name := "", ""
	switch {
	case ep.path != "" && !debug && ep.known:
		want, name = ep.works, "custom page"
	case ep.path != "" && !debug:
		want, name = "", "nothing (the custom page fails)"
	default:
		src := builtinSource()
		if src == "" {
			c.Note("source of the built-in page not found")
			if !strings.Contains(strings.ToLower(body), "<html") {
				c.Fail("the body is not the built-in page: %q", cut(body))
			}
			return
		}
		o := evalString(src, map[string]any{"path": path, "line": line, "message": message, "debugMode": debug})
		if o.Err != nil {
			c.Note("built-in page needs other data")
			return
		}
		want, name = o.S, "built-in page"
	}
	c.Note(name)
	if body != want {
		c.Fail("the body has to be the %s %q, it is %q", name, cut(want), cut(body))
	}
}

func (c *C) errPage17() *errPage17 {
	n := len(errPages17)
	if instrumented {
		return &errPages17[c.Choose(n)]
	}
	return &errPages17[1+c.Choose(n-1)] // the name cannot be unset
}

func init() {
	var faults []fault13
	for _, f := range exprFaults {
		if !f.parse {
			faults = append(faults, fault13{strings.ReplaceAll(f.s, "\x01", ""), false, f.words})
		}
	}
	nilData := func() map[string]any { return nil }
	places := []string{"page", "layout", "insert", "component", "slot", "after a component", "before a layout's reserve"}
	register(&Check{ID: "C17", Assumptions: []string{
		"message, path and line of the failure are those of String for the same call (checked by C13)",
		"the source of the built-in page is textwire/default-error-page.tw; where it is missing only its general form is checked",
		"whether text is escaped in the debug page is not part of the property: the escaped and the plain form are accepted",
	}, Families: []Family{
		{Name: "matrix", Space: fmt.Sprintf("%d pages (successful; failing at every kind of place with every kind of message; unknown and odd names; unsupported data) x %d error page configurations (absent, working in 5 ways, missing, failing in 8 ways) x debug mode, each from a fresh state and again after all other pages", len(pages17), len(errPages17)), Run: func(c *C) {
			ep := c.errPage17()
			debug := c.Bool()
			p := pages17[c.Choose(len(pages17))]
			c.Begin(fmt.Sprintf("page %q, error page %q, debug %v", p.name, ep.name, debug))
			t, err := c.fresh17(with17(p.files, ep.files), config.Config{ErrorPagePath: ep.path, DebugMode: debug})
			if err != nil {
				c.Fail("does not load: %v", err)
				return
			}
			n, d := p.page, p.data
			if n == "" {
				n = "the/page"
			}
			if d == nil {
				d = d17
			}
			e := *ep
			if ep.path == "the/page" {
				// the failed page without data
				s, err := t.String("the/page", nil)
				e.known, e.works = err == nil, s
			}
			marked := !(ep.path == "the/page" && e.known)
			for i := 0; i < 2; i++ {
				_, err := t.String(n, d())
				if (err == nil) != p.works {
					c.Fail("error %v, working %v", err, p.works)
					return
				}
				c.response(t, n, d, debug, &e, marked)
			}
		}},
		{Name: "faults", Space: fmt.Sprintf("%d run time faults x %d expression contexts x %d places (page, layout, insert, component, slot ...) x no/working/failing error page x debug mode, text and printed data around the fault", len(faults), len(exprCtx13), len(places)), Run: func(c *C) {
			f := faults[c.Choose(len(faults))]
			x := exprCtx13[c.Choose(len(exprCtx13))]
			k := c.Choose(len(places))
			eps := []int{0, 1, 8}
			if !instrumented {
				eps = []int{1, 8}
			}
			ep := &errPages17[eps[c.Choose(len(eps))]]
			debug := c.Bool()
			if !c.Thorough && (k > 2 && ep.path != "" || debug && ep.path != "") {
				c.Skip()
			}
			code := mark17 + "{{ s }}\n" + strings.Replace(x, "%s", f.s, 1) + mark17
			files := map[string]string{}
			switch k {
			case 0:
				files["the/page"] = code
			case 1:
				files["the/page"] = "@use('lay')@insert('b', '" + mark17 + "')"
				files["lay"] = mark17 + "@reserve('b')" + code
			case 2:
				files["the/page"] = "@use('lay')\n@insert('b')" + code + "@end"
				files["lay"] = mark17 + "@reserve('b')" + mark17
			case 3:
				files["the/page"] = mark17 + "\n\n@component('c', {q: 1})" + mark17
				files["c"] = code
			case 4:
				files["the/page"] = mark17 + "@component('c', {q: 1})\n@slot" + code + "@end@end" + mark17
				files["c"] = mark17 + "@slot" + mark17
			case 5:
				files["the/page"] = mark17 + "@component('c', {q: 1})" + code
				files["c"] = mark17
			case 6:
				files["the/page"] = "@use('lay')@insert('b', '" + mark17 + "')"
				files["lay"] = code + "@reserve('b')"
			}
			c.Begin(fmt.Sprintf("%q in %s, error page %q, debug %v", strings.Replace(x, "%s", f.s, 1), places[k], ep.name, debug))
			t, err := c.fresh17(with17(files, ep.files), config.Config{ErrorPagePath: ep.path, DebugMode: debug})
			if err != nil {
				c.Note("does not load")
				return
			}
			d := func() map[string]any {
				m := map[string]any{}
				for k, v := range data13 {
					m[k] = v
				}
				m["s"] = mark17
				return m
			}
			if _, err := t.String("the/page", d()); err == nil {
				c.Note("renders")
			}
			c.response(t, "the/page", d, debug, ep, true)
		}},
		{Name: "names", Space: "26 names of templates, directories and error pages (spaces, percent signs, quotes, braces, tags, dots, non-ASCII, directive-like, long) x failing page/unknown template x debug mode x with/without custom page of such a name", Run: func(c *C) {
			names := []string{"a b", "100%", "%d", "%s%n", "it's", "a\"q", "{{ x }}", "<b>", "a&b", "é日本", "dot.name", "..x", "-", "@if(true)", "a+b", "tab\tname", "x;y", "@", "a\\b", "$HOME", "*", "~x", "#1", "?q=1", strings.Repeat("long", 25), "name.tw"}
			n := names[c.Choose(len(names))]
			if c.Bool() {
				n = n + "/" + n
			}
			page := c.Bool()
			custom := c.Bool() || !instrumented
			debug := c.Bool()
			c.Begin(fmt.Sprintf("name %q exists %v custom %v debug %v", n, page, custom, debug))
			files := map[string]string{"other": mark17}
			if page {
				files[n] = mark17 + "\n{{ nope }}"
			}
			ep := &errPage17{name: "none"}
			if custom {
				en := "err-" + strings.ReplaceAll(n, "/", "-") + "/" + n
				ep = &errPage17{name: "odd", path: en, works: "CUSTOM", known: true}
				files[en] = "CUSTOM"
			}
			t, err := c.fresh17(files, config.Config{ErrorPagePath: ep.path, DebugMode: debug})
			if err != nil {
				c.Fail("does not load: %v", err)
				return
			}
			c.response(t, n, nilData, debug, ep, true)
		}},
		{Name: "reload", Space: "2 and 3 loads in one process with every combination of error page (4 working/failing pages, none at first) and debug mode; after each load a failing and a working response obey the latest configuration", Run: func(c *C) {
			n := 2 + c.Choose(2)
			type step struct {
				ep    int
				debug bool
			}
			var l []step
			eps := []int{1, 2, 8, 6}
			for i := 0; i < n; i++ {
				k := c.Choose(len(eps) + b2i(i == 0 && instrumented))
				if k == len(eps) {
					l = append(l, step{0, c.Bool()})
				} else {
					l = append(l, step{eps[k], c.Bool()})
				}
			}
			again := c.Choose(3) // nothing, Configure and a string evaluation in between
			c.Begin(fmt.Sprintf("loads %v (error page, debug), between: %d", l, again))
			if instrumented {
				resetLib()
			}
			for _, s := range l {
				ep := &errPages17[s.ep]
				files := with17(ep.files, map[string]string{"the/page": mark17 + "\n{{ nope }}", "good": mark17})
				m := map[string]string{}
				for n, s := range files {
					m[n+siteExt] = s
				}
				c.w.fs(dir17).sync(m)
				cfg := config.Config{TemplateDir: dir17, TemplateExt: siteExt, ErrorPagePath: ep.path, DebugMode: s.debug}
				switch again {
				case 1:
					textwire.Configure(&config.Config{DebugMode: !s.debug})
				case 2:
					evalString("{{ 1 }}{{ x }}", nil)
				}
				t, err := textwire.NewTemplate(&cfg)
				if err != nil {
					c.Fail("does not load: %v", err)
					return
				}
				c.response(t, "the/page", nilData, s.debug, ep, true)
				c.response(t, "good", nilData, s.debug, ep, true)
				c.response(t, "the/page", nilData, s.debug, ep, true)
			}
		}},
		{Name: "ladder", Space: "pages of n = 0..70, 127..129, 511..513, 1000, 4095..4097, 8191..8193, 32767..32769, 65535..65537, 1000000 bytes of output, made of text, one expression, n loop passes; complete, or failing at the end; custom error pages of the same sizes; no/working/failing error page, debug mode", Run: func(c *C) {
			sizes := []int{127, 128, 129, 511, 512, 513, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 1000000}
			n := c.Choose(71 + len(sizes))
			if n > 70 {
				n = sizes[n-71]
			}
			how := c.Choose(4)
			fails := c.Bool()
			k := c.Choose(3 - b2i(!instrumented))
			debug := c.Bool()
			if !c.Thorough && n > 100000 && debug {
				c.Skip()
			}
			s := ""
			switch how {
			case 0:
				s = strings.Repeat("x", n)
			case 1:
				s = fmt.Sprintf("{{ 'é'.repeat(%d) }}", n)
			case 2:
				if n > 70000 {
					c.Skip()
				}
				s = fmt.Sprintf("@for(i = 0; i < %d; i++)y@end", n)
			case 3:
				s = "{{ big }}"
			}
			ep := errPages17[[]int{1, 8, 0}[k]]
			if k == 0 {
				ep.files = map[string]string{"oops": strings.Repeat("e", n)}
				ep.works = ep.files["oops"]
			}
			c.Begin(fmt.Sprintf("%d bytes (way %d), fails %v, error page %q, debug %v", n, how, fails, ep.name, debug))
			src := mark17 + s
			if fails {
				src += mark17 + "\n{{ nope }}"
			}
			t, err := c.fresh17(with17(ep.files, one17(src)), config.Config{ErrorPagePath: ep.path, DebugMode: debug})
			if err != nil {
				c.Fail("does not load: %v", err)
				return
			}
			c.response(t, "the/page", func() map[string]any { return map[string]any{"big": strings.Repeat(mark17[:1], n)} }, debug, &ep, true)
			if !fails {
				// independent of String
				var rec recorder
				t.Response(&rec, "the/page", map[string]any{"big": strings.Repeat("b", n)})
				want := mark17 + []string{strings.Repeat("x", n), strings.Repeat("é", n), strings.Repeat("y", n), strings.Repeat("b", n)}[how]
				if rec.body.String() != want {
					c.Fail("wrote %d bytes %q, must write %d bytes", rec.body.Len(), cut(rec.body.String()), len(want))
				}
			}
		}},
	}})
}
