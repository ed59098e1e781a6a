package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// The operations that run at the same time, on one loaded set of templates.
// Each makes its data itself and puts all it observes into one string.

const dir15 = "site15"

var files15 = map[string]string{
	"lay":   "<@reserve('title')>{{ x }}[@reserve('body')]",
	"page":  "@use('lay')@insert('title', s)@insert('body')@component('card', {a: x})@slot B{{ x }}@end@end@each(i in l){{ i }}{{ loop.index }}@end@end",
	"card":  "({{ a }}@slot{{ a + 1 }})",
	"other": "@use('lay')@insert('title')O@end@insert('body', x)",
	"loop":  "@for(i = 0; i < n; i++){{ i }}@if(i == 1)@break@end@end{{ o }}{{ y = [x]; y }}",
	"fail":  "out{{ x }}\n{{ x / 0 }}",
	"bad":   "{{ a }}\n{{ a.nope() }}",
	"failc": "pre\n@component('bad', {a: x})",
	"funcs": "{{ s.up15() }}{{ l.rev15() }}{{ n.inc15() }}{{ f.half15() }}{{ b.not15() }}",
	"err":   "Oops {{ 1 + 1 }}",
	"err2":  "Oops\n{{ nope }}",
}

func data15(x int) map[string]any {
	return map[string]any{"x": x, "n": 2 + x%2, "s": fmt.Sprintf("s<%d", x), "l": []int{x, x + 1}, "o": map[string]any{"b": x, "a": []any{x}}, "f": float64(x) + 0.5, "b": x%2 == 0}
}

func funcs15() {
	textwire.RegisterStrFunc("up15", func(s string, _ ...any) string { return strings.ToUpper(s) + "!" })
	textwire.RegisterArrFunc("rev15", func(a []any, _ ...any) []any {
		r := append([]any(nil), a...)
		for i := range a {
			r[len(a)-1-i] = a[i]
		}
		return r
	})
	textwire.RegisterIntFunc("inc15", func(i int, _ ...any) int { return i + 1 })
	textwire.RegisterFloatFunc("half15", func(f float64, _ ...any) float64 { return f / 2 })
	textwire.RegisterBoolFunc("not15", func(b bool, _ ...any) bool { return !b })
}

type op15 struct {
	name string
	resp bool // depends on the configuration of error pages
	page string
	do   func(t *textwire.Template) string
	more []string // further pages
	warm int      // calls made before
}

func str15(page string, x int) op15 {
	return op15{name: fmt.Sprintf("String(%s, %d)", page, x), resp: false, page: page, do: func(t *textwire.Template) string {
		s, err := t.String(page, data15(x))
		if err != nil {
			return fmt.Sprintf("%q %v %d %s", s, err.Error(), err.Line(), err.Filepath())
		}
		return fmt.Sprintf("%q", s)
	}}
}

func resp15(page string, x int) op15 {
	return op15{name: fmt.Sprintf("Response(%s, %d)", page, x), resp: true, page: page, do: func(t *textwire.Template) string {
		var r recorder
		err := t.Response(&r, page, data15(x))
		return fmt.Sprintf("%q %d %v", r.body.String(), r.code, err)
	}}
}

func eval15(src string, x int) op15 {
	return op15{name: fmt.Sprintf("EvaluateString(%q, %d)", src, x), resp: false, page: "", do: func(t *textwire.Template) string {
		s, err := textwire.EvaluateString(src, data15(x))
		return fmt.Sprintf("%q %v", s, err)
	}}
}

func file15(name string, x int) op15 {
	return op15{name: fmt.Sprintf("EvaluateFile(%s, %d)", name, x), resp: false, page: name, do: func(t *textwire.Template) string {
		p, _ := filepath.Abs(filepath.Join(dir15, name+siteExt))
		s, err := textwire.EvaluateFile(p, data15(x))
		return fmt.Sprintf("%q %v", s, err)
	}}
}

var ops15 = []op15{
	resp15("fail", 3), str15("page", 1), eval15("{{ x }}{{ s.upper() }}", 2), str15("fail", 1), file15("loop", 2), resp15("page", 2),
	str15("loop", 1), str15("funcs", 1), str15("none", 1), resp15("none", 4), str15("failc", 2), str15("other", 2),
	eval15("@each(i in l){{ i }}@end{{ # }}", 1), eval15("{{ x }}\n{{ x.nope15() }}", 1), eval15("@dump(o){{ l.reverse() }}{{ l.append(1).slice(1) }}{{ 'a b'.split(' ') }}", 2), eval15("{{ s.up15() }}{{ {a: x, b: [s]} }}{{ x++ }}{{ -f }}", 1),
	file15("fail", 3), file15("absent", 1), resp15("funcs", 1),
	{name: "String(page, unsupported data)", page: "page", do: func(t *textwire.Template) string {
		d := data15(1)
		d["z"] = make(chan int)
		s, err := t.String("page", d)
		return fmt.Sprintf("%q %v", s, err.Error())
	}},
	{name: "EvaluateString with unsupported data", do: func(t *textwire.Template) string {
		s, err := textwire.EvaluateString("{{ z }}", map[string]any{"z": func() {}})
		return fmt.Sprintf("%q %v", s, err)
	}},
}

// sources15 has every construct, operator, built-in, directive and kind of
// error
var sources15 = sync.OnceValue(func() []string {
	src := []string{
		"{{ 1.5 }}", "{{ 'a<b' }}", "{{ \"q\" }}", "{{ nil }}", "{{ true }}{{ false }}", "{{ [1, 2.5, 'x'] }}", "{{ {a: 1, b: [2]} }}", "{{ l[0] }}", "{{ o.b }}", "{{ o['a'] }}", "{{ -x }}{{ -f }}", "{{ !b }}", "{{ b ? x : s }}", "{{ (x + 1) * 2 }}",
		"{{ x + 1 - 2 * 3 / 4 % 5 }}", "{{ f + 1.5 - 2.5 * 3.5 / 4.5 }}", "{{ s + 'x' }}", "{{ x == 1 }}{{ x != 1 }}{{ x < 1 }}{{ x > 1 }}{{ x <= 1 }}{{ x >= 1 }}", "{{ f == 1.5 }}{{ f < 1.5 }}{{ s == 's' }}{{ s != 's' }}{{ b == true }}", "{{ x++ }}{{ x-- }}{{ f++ }}{{ f-- }}",
		"{{ y = x; y = y + 1; y }}", "text only {{ x }} more", "\\{{ x }} \\@if(x)", "{{-- comment --}}{{ x }}", "@if(b)a@elseif(x == 1)b@else c@end", "@each(i in l){{ i }}@else e@end", "@each(i in [])a@else e{{ x }}@end", "@each(i in l){{ loop.index }}{{ loop.first }}{{ loop.last }}{{ loop.iter }}@end", "@for(i = 0; i < n; i++){{ i }}@else e@end", "@for(i = 0; i < 0; i++){{ i }}@else e{{ x }}@end",
		"@each(i in l)@break@end", "@each(i in l)a@continue@end", "@each(i in l)@breakIf(i == 2)a@end", "@each(i in l)@continueIf(i == 2)a@end", "@dump(x, f, s, b, l, o, nil)", "@for(i = 0; i < 2; i++)@each(j in l)@if(b){{ i }}{{ j }}@end@end@end",
		"{{ s.len() }}{{ s.split('<') }}{{ s.raw() }}{{ s.trim() }}{{ s.trimRight('1') }}{{ s.trimLeft('s') }}", "{{ s.upper() }}{{ s.lower() }}{{ s.capitalize() }}{{ s.reverse() }}{{ s.contains('s') }}", "{{ s.truncate(1) }}{{ '12'.decimal() }}{{ s.at(0) }}{{ s.first() }}{{ s.last() }}{{ s.repeat(2) }}",
		"{{ l.len() }}{{ l.join(',') }}{{ l.reverse() }}{{ l.slice(0, 1) }}{{ l.contains(1) }}{{ l.append(1) }}{{ l.prepend(1) }}", "{{ [1].rand() }}{{ [1].shuffle() }}", "{{ x.float() }}{{ x.abs() }}{{ x.str() }}{{ x.len() }}{{ x.decimal() }}", "{{ f.int() }}{{ f.str() }}{{ f.abs() }}{{ f.ceil() }}{{ f.floor() }}{{ f.round() }}", "{{ b.binary() }}{{ b.then('y', 'n') }}",
		"{{ s.up15('a', 1, [x], {a: x}) }}{{ l.rev15() }}{{ n.inc15() }}{{ f.half15() }}{{ b.not15() }}", "{{ [l, o, [s]].rev15() }}",
	}
	for _, f := range fillers13 {
		src = append(src, f)
	}
	for _, f := range exprFaults {
		src = append(src, "{{ "+strings.ReplaceAll(f.s, "\x01", "")+" }}")
	}
	for _, f := range stmtFaults {
		src = append(src, strings.ReplaceAll(f.s, "\x01", ""))
	}
	return src
})

// features15 are operations that take the number of their data
var features15 = sync.OnceValue(func() (l []func(x int) op15) {
	for _, s := range sources15() {
		l = append(l, func(x int) op15 { return eval15(s, x) })
	}
	for i, v := range goodValues() {
		l = append(l, func(x int) op15 {
			return op15{name: fmt.Sprintf("EvaluateString(v = %s)", v.name), resp: false, page: "", do: func(*textwire.Template) string {
				s, err := textwire.EvaluateString("{{ v }}@dump(v)", map[string]any{"v": goodValues()[i].g, "x": x})
				return fmt.Sprintf("%q %v", s, err)
			}}
		})
	}
	return
})

var cfgs15 = []config.Config{{}, {ErrorPagePath: "err"}, {DebugMode: true}, {ErrorPagePath: "err2"}, {ErrorPagePath: "none"}}

func show15(c config.Config) string {
	return fmt.Sprintf("error page %q debug %v", c.ErrorPagePath, c.DebugMode)
}

var needs15 = map[string][]string{"page": {"lay", "card"}, "other": {"lay"}, "failc": {"bad"}}

// place15 puts the files in place that the operations need
func (w *Worker) place15(cfg config.Config, ops ...op15) {
	m := map[string]string{}
	put := func(n string) {
		if s, ok := files15[n]; ok {
			m[n+siteExt] = s
		}
	}
	put(cfg.ErrorPagePath)
	for _, o := range ops {
		for _, p := range append(o.more[:len(o.more):len(o.more)], o.page) {
			put(p)
			for _, n := range needs15[p] {
				put(n)
			}
		}
	}
	w.fs(dir15).sync(m)
}

func open15(cfg config.Config) *textwire.Template {
	cfg.TemplateDir, cfg.TemplateExt = dir15, siteExt
	t, err := textwire.NewTemplate(&cfg)
	if err != nil {
		fatal("C15: the templates do not load:", err)
	}
	return t
}

func init() {
	// without the instrumented build: free goroutines, results compared
	var fams []Family
	if !instrumented {
		fams = append(fams, Family{Name: "free", Space: "fallback without control of the schedule: all pairs of operations, 4 goroutines, 20 rounds",
			Setup: func(w *Worker) { w.place15(cfgs15[2], ops15...); funcs15(); w.famState = open15(cfgs15[2]) },
			Run: func(c *C) {
				a, b := c.Choose(len(ops15)), c.Choose(len(ops15))
				c.Begin(ops15[a].name + " || " + ops15[b].name)
				t := c.w.famState.(*textwire.Template)
				solo := []string{ops15[a].do(t), ops15[b].do(t)}
				for round := 0; round < 20; round++ {
					var wg sync.WaitGroup
					res := make([]string, 4)
					for i := range res {
						wg.Add(1)
						go func() { defer wg.Done(); res[i] = ops15[[]int{a, b}[i%2]].do(t) }()
					}
					wg.Wait()
					for i, r := range res {
						if r != solo[i%2] {
							c.Fail("%s alone %s, at the same time %s", ops15[[]int{a, b}[i%2]].name, cut(solo[i%2]), cut(r))
							return
						}
					}
				}
			}})
	}
	register(&Check{ID: "C15", Families: fams, Assumptions: []string{
		"scheduling points: before every statement outside of lexer, parser and token, and everywhere around accesses to package variables that are not plain tables and around writes through pointers, maps and slices",
		"the race detector sees every conflicting pair of accesses that the explored schedules perform without synchronisation in between",
		"custom functions of the user are safe themselves",
	}})
}
