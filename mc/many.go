package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// Sizes and repetitions that the reference interpreter is too slow for, with
// expectations written down directly.

func (c *C) sameText(what string, o out, want string) {
	if o.Err != nil {
		c.Fail("%s: %v", what, o.Err)
		return
	}
	if o.S == want {
		return
	}
	i := 0
	for i < len(o.S) && i < len(want) && o.S[i] == want[i] {
		i++
	}
	c.Fail("%s: %d bytes, must be %d bytes; they differ at byte %d: %q", what, len(o.S), len(want), i, cut(o.S[i:]))
}

func init() {
	addTo := func(id string, f Family) {
		ck := findCheck(id)
		ck.Families = append(ck.Families, f)
	}
	passes := []int{1001, 4097, 9999, 10000, 10001, 16385, 32769, 50001, 65535, 65536, 65537, 99999, 100000, 100001, 131073, 200001, 262145, 500001, 524289, 1000000, 1000001, 1048577}
	addTo("C03", Family{Name: "many passes", Space: fmt.Sprintf("%d numbers of passes between 1001 and 1048577 x {@for, @for by steps, @each over data, loop in a loop, loops in a row}: every pass is rendered, with its number", len(passes)), Run: func(c *C) {
		n := passes[c.Choose(len(passes))]
		k := c.Choose(5)
		c.Begin(fmt.Sprintf("%d passes, way %d", n, k))
		var want strings.Builder
		var src string
		d := map[string]any{"n": n}
		nums := func(f string) {
			for i := 0; i < n; i++ {
				fmt.Fprintf(&want, f, i)
			}
		}
		switch k {
		case 0:
			src = "@for(i = 0; i < n; i++){{ i }};@end"
			nums("%d;")
		case 1:
			src = "@for(i = n * 3; i > 0; i = i - 3)@if(i == 3){{ i }}@end.@end"
			want.WriteString(strings.Repeat(".", n-1) + "3.")
		case 2:
			l := make([]int, n)
			for i := range l {
				l[i] = i
			}
			d["l"] = l
			src = "@each(v in l){{ v }},{{ loop.index }}@if(loop.first)F@end@if(loop.last)L@end;@end"
			for i := 0; i < n; i++ {
				fmt.Fprintf(&want, "%d,%d", i, i)
				if i == 0 {
					want.WriteString("F")
				}
				if i == n-1 {
					want.WriteString("L")
				}
				want.WriteByte(';')
			}
		case 3:
			m := int(math.Sqrt(float64(n))) + 1
			d["n"] = m
			d["l"] = make([]bool, m)
			src = "@for(i = 0; i < n; i++)@each(v in l){{ loop.iter }}@end,{{ i }}@end"
			for i := 0; i < m; i++ {
				for j := 0; j < m; j++ {
					fmt.Fprint(&want, j+1)
				}
				fmt.Fprintf(&want, ",%d", i)
			}
		case 4:
			d["n"] = n / 7
			src = strings.Repeat("@for(i = 0; i < n; i++){{ i }}@end|", 7)
			for j := 0; j < 7; j++ {
				for i := 0; i < n/7; i++ {
					fmt.Fprint(&want, i)
				}
				want.WriteByte('|')
			}
		}
		c.Traces(1)
		c.sameText(src, evalString(src, d), want.String())
		c.Note("passes")
	}})

	addTo("C11", Family{Name: "many arguments", Space: "append and prepend with n = 1..64, 100, 200, 300, 1000 and arguments around every power of two up to 4096, given as literals, variables or lists; chains of n calls of 9 built-ins", Run: func(c *C) {
		k := c.Choose(13)
		n := ladderN(c, 4097)
		if k >= 4 && n > 1025 {
			c.Skip()
		}
		c.Begin(fmt.Sprintf("way %d, %d", k, n))
		c.Traces(1)
		var l, r []string
		for i := 0; i < n; i++ {
			l, r = append(l, fmt.Sprint(i)), append(r, fmt.Sprint(n-1-i))
		}
		args := strings.Join(l, ", ")
		chain := func(s string) string { return strings.Repeat(s, n) }
		odd := n%2 == 1
		src, want := "", ""
		switch k {
		case 0:
			src, want = "{{ a = [].append("+args+") }}{{ a.len() }}:{{ a.join(', ') }}", fmt.Sprint(n, ":", args)
		case 1:
			src, want = "{{ a = [7].append("+args+") }}{{ a.len() }}:{{ a[0] }}:{{ a["+fmt.Sprint(n)+"] }}", fmt.Sprint(n+1, ":7:", n-1)
		case 2:
			src, want = "{{ a = [7].prepend("+args+") }}{{ a.len() }}:{{ a.join(', ') }}", fmt.Sprint(n+1, ":", args, ", 7")
		case 3:
			src, want = "{{ a = [].append(["+args+"], 'x') }}{{ a.len() }}:{{ a[0].len() }}:{{ a[0].join(', ') }}", fmt.Sprint("2:", n, ":", args)
		case 4:
			src, want = "{{ []"+chain(".append(1)")+".len() }}", fmt.Sprint(n)
		case 5:
			src, want = "{{ [1, 2]"+chain(".reverse()")+".join(',') }}", map[bool]string{true: "2,1", false: "1,2"}[odd]
		case 6:
			src, want = "{{ 'aé'"+chain(".reverse()")+" }}", map[bool]string{true: "éa", false: "aé"}[odd]
		case 7:
			src, want = "{{ 'aé'"+chain(".upper().lower()")+" }}", "aé"
		case 8:
			src, want = "{{ s"+chain(".trim()")+" }}", "x y"
		case 9:
			src, want = "{{ 'a b'"+chain(".split().join(' ')")+" }}", "a b"
		case 10:
			src, want = "{{ 5"+chain(".float().int()")+" }}", "5"
		case 11:
			src, want = "{{ [0, 1]"+chain(".slice(0)")+".len() }}", "2"
		case 12:
			src, want = "{{ 'ab'"+chain(".truncate(2)")+".len() }}", "2"
		}
		c.sameText(cut(src), evalString(src, map[string]any{"s": "\t x y\n"}), want)
		c.Note("calls")
	}})

	// values of every width at every position of long containers
	type wide struct {
		name string
		typ  reflect.Type
		vals []any
		text []string
	}
	var ws []wide
	num := func(name string, vals ...any) {
		w := wide{name: name, typ: reflect.TypeOf(vals[0])}
		for _, v := range vals {
			w.vals, w.text = append(w.vals, v), append(w.text, fmt.Sprint(v))
		}
		ws = append(ws, w)
	}
	num("int8", int8(-128), int8(127), int8(0), int8(-1))
	num("int16", int16(-32768), int16(32767), int16(255))
	num("int32", int32(math.MinInt32), int32(math.MaxInt32), int32(65536), int32(-1))
	num("int64", int64(-math.MaxInt64), int64(math.MaxInt64), int64(1)<<32, int64(-1), int64(math.MinInt64))
	num("int", math.MaxInt, math.MinInt, 1<<53+1, 0, -1)
	num("uint8", uint8(255), uint8(128), uint8(0), uint8(200), uint8(65))
	num("uint16", uint16(65535), uint16(32768), uint16(3))
	num("uint32", uint32(math.MaxUint32), uint32(1)<<31, uint32(7))
	num("uint64", uint64(math.MaxInt64), uint64(1)<<40, uint64(9))
	num("uint", uint(math.MaxInt64), uint(1)<<33, uint(9))
	num("float32", float32(0.5), float32(-1.25), float32(16777216.5))
	num("float64", 0.5, -1.25, 123456.75)
	num("string", "", "a", "<b>", "é", "x y")
	ws[10].text[2] = "16777216.0"
	ws = append(ws, wide{"bool", reflect.TypeOf(true), []any{true, false, false}, []string{"1", "0", "0"}})
	type myInt int16
	type myStr string
	type myFl float32
	ws = append(ws, wide{"named int16", reflect.TypeOf(myInt(0)), []any{myInt(-32768), myInt(32767)}, []string{"-32768", "32767"}})
	ws = append(ws, wide{"named string", reflect.TypeOf(myStr("")), []any{myStr(""), myStr("q")}, []string{"", "q"}})
	ws = append(ws, wide{"named float32", reflect.TypeOf(myFl(0)), []any{myFl(0.5), myFl(-2.5)}, []string{"0.5", "-2.5"}})
	addTo("C12", Family{Name: "positions", Space: fmt.Sprintf("%d number, text and truth types, every value of their boundaries in turn at every position of slices of n = 1..64, 100, 127..129, 200, 255..257, 300, 511..513, 1000, 1023..1025 elements, of pointers to them, of maps, and of slices of structs; every element is read", len(ws)), Run: func(c *C) {
		w := ws[c.Choose(len(ws))]
		k := c.Choose(4)
		n := ladderN(c, 1025)
		off := c.Choose(len(w.vals))
		c.Begin(fmt.Sprintf("%s, shape %d, %d elements, first value %d", w.name, k, n, off))
		c.Traces(1)
		val := func(i int) int { return (i + off + i/64) % len(w.vals) }
		var v reflect.Value
		src := "@each(e in v){{ e }};@end"
		switch k {
		case 0:
			v = reflect.MakeSlice(reflect.SliceOf(w.typ), n, n)
			for i := 0; i < n; i++ {
				v.Index(i).Set(reflect.ValueOf(w.vals[val(i)]))
			}
		case 1:
			v = reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(w.typ)), n, n)
			for i := 0; i < n; i++ {
				p := reflect.New(w.typ)
				p.Elem().Set(reflect.ValueOf(w.vals[val(i)]))
				v.Index(i).Set(p)
			}
		case 2:
			v = reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), w.typ))
			var b strings.Builder
			for i := 0; i < n; i++ {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", i)), reflect.ValueOf(w.vals[val(i)]))
				fmt.Fprintf(&b, "{{ v.k%d }};", i)
			}
			src = b.String()
		case 3:
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: w.typ}, {Name: "B", Type: reflect.SliceOf(w.typ)}})
			v = reflect.MakeSlice(reflect.SliceOf(st), n, n)
			for i := 0; i < n; i++ {
				x := reflect.ValueOf(w.vals[val(i)])
				v.Index(i).Field(0).Set(x)
				v.Index(i).Field(1).Set(reflect.Append(reflect.MakeSlice(reflect.SliceOf(w.typ), 0, 1), x))
			}
			src = "@each(e in v){{ e.a }}{{ e.b[0] }};@end"
		}
		var want strings.Builder
		for i := 0; i < n; i++ {
			t := w.text[val(i)]
			if k == 3 {
				t += t
			}
			want.WriteString(t + ";")
		}
		c.sameText(cut(src), evalString(src, map[string]any{"v": v.Interface()}), want.String())
		c.Note("values")
	}})

	// several template sets, several working directories
	type set13 struct{ cd, dir string }
	sets := []set13{{".", "a"}, {".", "b"}, {".", "a/sub"}, {"w", "a"}, {"w/a", "."}, {"w", "../b"}}
	faults := []fault13{{"\n{{ \x01undef }}", false, "undef"}, {"x\n\n{{ 1 / \x010 }}", false, "zero"}, {"\n\n\n{{ \x01# }}", true, "#"}, {"\n\n\n\n@componen\x01t('nope')", true, "nope"}}
	addTo("C13", Family{Name: "several sets", Space: fmt.Sprintf("all sequences of 2 (thorough: 3) loads out of %d pairs of working directory and template directory x %d kinds of fault, files of the same names; after each load the pages of every set loaded so far are rendered, from 3 working directories, before and after an evaluated string: path and line are those of the file of that set", len(sets), len(faults)), Run: func(c *C) {
		n := 2
		if c.Thorough {
			n = 3
		}
		type loaded struct {
			t      *textwire.Template
			path   string
			lo, hi int
			words  string
		}
		root, err := filepath.Abs("m13")
		if err != nil {
			fatal(err)
		}
		defer func() {
			if err := os.Chdir(c.w.Scratch); err != nil {
				fatal(err)
			}
		}()
		var have []loaded
		desc := ""
		type step struct {
			s set13
			f fault13
		}
		var steps []step
		for i := 0; i < n; i++ {
			st := step{sets[c.Choose(len(sets))], faults[c.Choose(len(faults))]}
			steps = append(steps, st)
			desc += fmt.Sprintf("[from %s load %s: %q] ", st.s.cd, st.s.dir, strings.ReplaceAll(st.f.s, "\x01", ""))
		}
		c.Begin(desc)
		fs := c.w.fs("m13")
		fs.sync(map[string]string{"w/a/keep": "", "b/keep": "", "a/sub/keep": ""})
		files := map[string]string{"w/a/keep": "", "b/keep": "", "a/sub/keep": ""}
		for i, st := range steps {
			src, lo, hi := unmark(strings.Repeat("line\n", i) + st.f.s)
			at := filepath.Join(st.s.cd, st.s.dir, "p.tw.html")
			m := map[string]string{at: src}
			for k, v := range files {
				m[k] = v
			}
			fs.sync(m)
			if err := os.Chdir(filepath.Join(root, st.s.cd)); err != nil {
				fatal(err)
			}
			path := filepath.Join(root, at)
			c.Traces(1)
			t, err := textwire.NewTemplate(&config.Config{TemplateDir: st.s.dir, TemplateExt: ".tw.html"})
			if st.f.parse {
				if err == nil {
					c.Fail("load %d succeeds", i+1)
					return
				}
				c.mustFailAt(err, lo, hi, path, st.f.words)
			} else if err != nil {
				c.Fail("load %d fails: %v", i+1, err)
				return
			} else {
				have = append(have, loaded{t, path, lo, hi, st.f.words})
			}
			for _, cd := range []string{st.s.cd, "b", "."} {
				if err := os.Chdir(filepath.Join(root, cd)); err != nil {
					fatal(err)
				}
				for _, h := range have {
					c.Traces(1)
					o := render(h.t, "p", nil)
					if o.Err == nil {
						c.Fail("renders %q", o.S)
						return
					}
					c.mustFailAt(o.Err, h.lo, h.hi, h.path, h.words)
				}
				evalString("{{ 1 }}", nil)
			}
		}
	}})

	addTo("C16", Family{Name: "several sets", Space: "a set of 9 templates (layout, insert, component, slots, failing in 3 ways, loops, custom function) loaded, and rendered or not; then every sequence of 1..3 (thorough: 4) of 9 operations (the same directory loaded again, another directory, another extension, another working directory, a load that fails, the files changed, the files removed, a string, a file evaluated); then every template, twice: the result is that of the first render of a load of its own", Run: func(c *C) {
		defer func() {
			if err := os.Chdir(c.w.Scratch); err != nil {
				fatal(err)
			}
		}()
		set := map[string]string{
			"lay":    "<{{ x }}@reserve('a')|@reserve('b')>",
			"comp":   "({{ k }}@slot('s')@slot)",
			"plain":  "a{{ x }}b",
			"lp":     "@use('lay')@insert('a', x)@insert('b')@component('comp', {k: x})@slot('s')q@end@end@end",
			"sub/cp": "@component('comp', {k: 1})@slot d{{ x }}@end@end@component('comp', {k: 2})",
			"loop":   "@each(v in [1, 2, 3]){{ loop.index }}{{ v }}@end",
			"bad":    "\n{{ nothing }}",
			"badc":   "@component('comp')",
			"div":    "@if(x == 1){{ 1 / (x - 1) }}@end",
		}
		pages := []string{"plain", "lp", "sub/cp", "loop", "bad", "badc", "div"}
		put := func(dir, ext, mark string) map[string]string {
			m := map[string]string{}
			for n, s := range set {
				m[dir+"/"+n+ext] = mark + s
			}
			return m
		}
		union := func(ms ...map[string]string) map[string]string {
			r := map[string]string{"w/keep": ""}
			for _, m := range ms {
				for k, v := range m {
					r[k] = v
				}
			}
			return r
		}
		chdir := func(d string) {
			if err := os.Chdir(filepath.Join(c.w.Scratch, "m16", d)); err != nil {
				fatal(err)
			}
		}
		fs := c.w.fs("m16")
		base := union(put("a", ".tw.html", ""), put("b", ".tw.html", "B"), put("a", ".tw", "T"), put("w/a", ".tw.html", "W"), map[string]string{"bad/p.tw.html": "{{"})
		conf := func(dir, ext string) (*textwire.Template, error) {
			c.Traces(1)
			return textwire.NewTemplate(&config.Config{TemplateDir: dir, TemplateExt: ext})
		}
		data := []map[string]any{{"x": 1}, {"x": 7}, nil}
		all := func(t *textwire.Template) string {
			var b strings.Builder
			for _, d := range data {
				for _, p := range pages {
					c.Traces(1)
					fmt.Fprintf(&b, "%s: %s\n", p, render(t, p, d))
				}
			}
			return b.String()
		}
		names := []string{"load the same", "load another directory", "load another extension", "load from another working directory", "a load that fails", "change the files", "remove the files", "evaluate a string", "evaluate a file"}
		first := c.Bool()
		n := 3
		if c.Thorough {
			n = 4
		}
		n = 1 + c.Choose(n)
		var ops []int
		desc := fmt.Sprintf("rendered first: %t", first)
		for i := 0; i < n; i++ {
			ops = append(ops, c.Choose(len(names)))
			desc += ", " + names[ops[i]]
		}
		c.Begin(desc)
		fs.sync(base)
		chdir(".")
		t0, err := conf("a", ".tw.html")
		if err != nil {
			c.Fail("loading fails: %v", err)
			return
		}
		want := all(t0)
		t, err := conf("a", ".tw.html")
		if err != nil {
			c.Fail("loading again fails: %v", err)
			return
		}
		if first {
			if got := all(t); got != want {
				c.Fail("a second load renders\n%smust render\n%s", got, want)
				return
			}
		}
		for _, o := range ops {
			var t2 *textwire.Template
			switch o {
			case 0:
				t2, _ = conf("a", ".tw.html")
			case 1:
				t2, _ = conf("b", ".tw.html")
			case 2:
				t2, _ = conf("a", ".tw")
			case 3:
				chdir("w")
				t2, _ = conf("a", ".tw.html")
			case 4:
				conf("bad", ".tw.html")
			case 5:
				fs.sync(union(base, put("a", ".tw.html", "changed")))
			case 6:
				m := union(put("b", ".tw.html", "B"), put("a", ".tw", "T"), put("w/a", ".tw.html", "W"), map[string]string{"bad/p.tw.html": "{{"})
				fs.sync(m)
			case 7:
				evalString("{{ 1 + y }}", map[string]any{"y": 1})
			case 8:
				textwire.EvaluateFile(filepath.Join(c.w.Scratch, "m16", "b", "plain.tw.html"), map[string]any{"x": 1})
			}
			if t2 != nil {
				all(t2)
			}
		}
		for i := 0; i < 2; i++ {
			if got := all(t); got != want {
				c.Fail("renders\n%smust render\n%s", got, want)
				return
			}
		}
		c.Note("same")
	}})

	addTo("C17", Family{Name: "several sets", Space: "all sequences of 2 and 3 (thorough: 4) loads out of 3 directories x custom error page or none x debug mode; after each load every set loaded so far responds with a working, two failing and an unknown page: the latest configuration decides which kind of error page is shown, the set what is in it", Run: func(c *C) {
		type step struct{ dir, ep, debug int }
		n := 2 + c.Choose(2+b2i(c.Thorough))
		var l []step
		ep := 0
		for i := 0; i < n; i++ {
			if ep == 0 {
				ep = 1
				if instrumented {
					ep = c.Choose(2) // once given, the name stays
				}
			}
			l = append(l, step{c.Choose(3), ep, c.Choose(2)})
		}
		c.Begin(fmt.Sprintf("loads (directory, error page, debug) %v", l))
		if instrumented {
			resetLib()
		}
		m := map[string]string{}
		for d := 0; d < 3; d++ {
			for p, s := range map[string]string{"good": mark17, "bad": strings.Repeat("\n", d) + mark17 + "{{ nope }}", "worse": mark17 + strings.Repeat("\n", d+3) + "{{ 1 / 0 }}", "oops": fmt.Sprint("CUSTOM ", d)} {
				m[fmt.Sprintf("d%d/%s%s", d, p, siteExt)] = s
			}
		}
		c.w.fs("m17").sync(m)
		type loaded struct {
			t   *textwire.Template
			dir int
		}
		var have []loaded
		for _, s := range l {
			cfg := config.Config{TemplateDir: fmt.Sprintf("m17/d%d", s.dir), TemplateExt: siteExt, DebugMode: s.debug == 1}
			if s.ep == 1 {
				cfg.ErrorPagePath = "oops"
			}
			t, err := textwire.NewTemplate(&cfg)
			if err != nil {
				c.Fail("does not load: %v", err)
				return
			}
			have = append(have, loaded{t, s.dir})
			for _, h := range have {
				e := &errPage17{path: cfg.ErrorPagePath, known: true, works: fmt.Sprint("CUSTOM ", h.dir)}
				for _, p := range []string{"good", "bad", "nothing here", "worse"} {
					c.response(h.t, p, func() map[string]any { return nil }, s.debug == 1, e, p != "good")
					if _, ferr := h.t.String(p, nil); ferr != nil && p != "nothing here" {
						want, err := filepath.Abs(fmt.Sprintf("m17/d%d/%s%s", h.dir, p, siteExt))
						if err != nil {
							fatal(err)
						}
						if ferr.Filepath() != want {
							c.Fail("the error of %s names %q, it is in %q", p, ferr.Filepath(), want)
						}
						if ferr.Line() != map[string]uint{"bad": uint(h.dir) + 1, "worse": uint(h.dir) + 4}[p] {
							c.Fail("the error of %s names line %d", p, ferr.Line())
						}
					}
				}
			}
		}
	}})
	_ = Lit{}
}
