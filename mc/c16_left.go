package main

import (
	"fmt"
	"strings"

	textwire "github.com/textwire/textwire/v2"
)

// breakers16 leave the rendering at F, one for each place where it can be left
var breakers16 = []string{
	"{{ F }}", "{{ q = F }}", "{{ q = 1; q = 'a' }}", "{{ loop = 1 }}", "{{ 1 + F }}", "{{ F + 1 }}", "{{ [1, F] }}", "{{ {a: 1, b: F} }}", "{{ l[F] }}", "{{ F[0] }}", "{{ F.k }}", "{{ F.len() }}", "{{ 'a'.repeat(F) }}", "{{ F ? 1 : 2 }}", "{{ true ? F : 1 }}", "{{ false ? 1 : F }}", "{{ -F }}", "{{ F++ }}", "@dump(1, F)",
	"@if(F)a@end", "@if(true){{ a = 1 }}{{ F }}@end", "@if(false)a@elseif(F)b@end", "@if(false)a@elseif(false)b@elseif(F)c@else d@end", "@if(false)a@elseif(true){{ b = 2 }}{{ F }}@end", "@if(false)a@else{{ b = 3 }}{{ F }}@end", "@if(true)@if(true)@if(false)@elseif(F)x@end@end@end",
	"@each(v in F)x@end", "@each(v in [1, F])x@end", "@each(v in [1, 2]){{ a = v }}{{ F }}@end", "@each(v in [1, 2])@if(v == 2){{ F }}@end@end", "@each(v in [])x@else{{ F }}@end", "@each(v in [1, 'a']){{ v }}@end", "@each(v in [1, 2])@breakIf(F)@end", "@each(v in [1, 2])@continueIf(F)@end", "@each(v in [1])@each(w in [1, 2])@if(loop.last){{ F }}@end@end@end",
	"@for(i = F; i < 2; i++)x@end", "@for(i = 0; F; i++)x@end", "@for(i = 0; i < 2; i = F)x@end", "@for(i = 0; i < 2; i = 'a')x@end", "@for(i = 0; i < 2; i++){{ F }}@end", "@for(i = 0; i < 2; i++)@if(i == 1){{ F }}@end@end", "@for(i = 0; false; i++)x@else{{ F }}@end", "@for(;true;)@breakIf(F)@end",
	"@each(v in [1, 2])@if(true)a@break b@end@end", "@each(v in [1, 2])@if(true)@if(true)@continue b@end@end@end", "@for(i = 0; i < 3; i++)@if(i == 1){{ a = i }}@break@end@end", "@each(v in [1, 2])@each(w in [1])@break@end@break@end", "@each(v in [1, 2])@breakIf(v == 1)@end", "@each(v in [])@else E@end", "@break", "@continue", "@if(true)@break@end", "{{ l.nope() }}", "{{ x.boom16() }}", "{{ 2.boom16() }}", "@if(true)@each(v in [1])@if(true){{ 2.boom16() }}@end@end@end",
	"@component('card', {a: F})", "@component('card', {a: 1})@slot{{ F }}@end@end", "@component('card', {a: nope})", "@component('bad')", "@component('card', {loop: 1})", "@component('card', {a: [1]})",
}

var faults16 = []string{"nope", "(1 + 'a')", "(1 / 0)", "{a: 1}.b", "2.boom16()"}

// around16 are the constructs around a breaker
var around16 = []string{"%", "@if(true){{ e = 1 }}%@end", "@if(false)@else{{ e = 1 }}%@end", "@if(false)@elseif(true){{ e = 1 }}%@end", "@each(u in [1, 2]){{ e = 1 }}%@end", "@for(j = 0; j < 2; j++){{ e = 1 }}%@end", "@each(u in [])@else{{ e = 1 }}%@end", "@component('card', {a: 1})@slot%@end@end"}

// probes16 look for what is left of earlier calls
var probes16 = []string{
	"{{ a }}", "{{ b }}", "{{ e }}", "{{ q }}", "{{ v }}", "{{ i }}", "{{ u }}", "{{ loop.index }}", "{{ x }}{{ s }}",
	"@if(true){{ a = 1 }}@if(true){{ b = 2 }}@end{{ a }}@end", "@if(true){{ a = 1 }}@if(true){{ b = 2 }}@end{{ b }}@end", "@if(true){{ a = 1 }}@if(false)@elseif(true){{ a = 2 }}{{ b = 3 }}@end{{ a }}@end{{ x }}", "@if(true){{ a = 's' }}{{ a }}@end@if(true){{ a = 1 }}{{ a }}@end", "@if(true)@if(true)@if(true){{ a = 1 }}{{ b = 2 }}{{ a }}{{ b }}@end{{ a = 'x' }}{{ a }}@end{{ a = [1] }}{{ a }}@end",
	"@each(v in l){{ loop.index }}@each(w in l){{ loop.iter }}{{ v }}@end{{ loop.last }}@end", "@for(i = 0; i < 3; i++){{ i }}@if(i == 1){{ z = i }}{{ z }}@end@end", "@each(v in l)@for(i = 0; i < 2; i++){{ v }}{{ i }}@end@if(loop.first){{ i = 's' }}{{ i }}@end@end", "@each(v in [1, 2, 3])@continueIf(v == 2){{ v }}@end", "@each(v in [1, 2, 3])@if(v == 2)@break@end{{ v }}@end", "@each(v in [])x@else E@end", "@each(v in ['a'])@if(true){{ i = 1 }}@end{{ v }}@end",
	"{{ a = [1, 2].append(3) }}{{ a.reverse() }}{{ a }}", "{{ {a: 1, b: [2]} }}{{ 'a<b' }}{{ 2.5 + 1.0 }}{{ true }}{{ nil }}", "{{ s.upper() }}{{ s.up16() }}{{ l.len() }}{{ 3.boom16() }}", "@dump(x, l, true)", "{{ x ? 'T' : 'F' }}{{ !true }}{{ -x }}", "\n\n{{ nope }}", "@if(true)\n@each(v in l)\n{{ v + 'a' }}@end@end",
	"@component('card', {a: 2})@slot{{ x }}@end@end@component('card', {a: 3})", "@if(true){{ a = 5 }}@component('card', {a: 2}){{ a }}@end", "@each(v in l)@component('card', {a: v})@slot{{ v }}{{ loop.index }}@end@end@end", "@component('bare'){{ x }}", "@use('lay')@insert('t', x)@insert('u')@if(true){{ a = x }}{{ a }}@end@end",
}

func (c *C) left16() {
	if !instrumented {
		c.Skip()
	}
	b := breakers16[c.Choose(len(breakers16))]
	f := ""
	if strings.Contains(b, "F") {
		f = faults16[c.Choose(len(faults16))]
	}
	a := around16[c.Choose(len(around16))]
	a2 := around16[0]
	if c.w.tier == "thorough" || f == "" || f == "nope" {
		a2 = around16[c.Choose(len(around16))]
	}
	src := strings.Replace(a2, "%", strings.Replace(a, "%", strings.ReplaceAll(b, "F", f), 1), 1)
	if strings.Count(src, "@component") > 1 && strings.Contains(a+a2, "@component") {
		c.Skip()
	}
	times := []int{1, 3}[c.Choose(2)]
	files := map[string]string{"card": "({{ a }}@if(true){{ k = a }}{{ k }}@end@slot)", "bad": "@if(false)@elseif(nope)@end", "bare": "@if(true){{ d = 1 }}@end<{{ x }}>", "lay": "@if(true)@reserve('t')@end|@reserve('u')"}
	for i, p := range probes16 {
		files[fmt.Sprintf("q%02d", i)] = p
	}
	files["brk"] = src
	site := strings.Contains(src, "@component")
	c.Begin(fmt.Sprintf("%q, %d times, before %d templates", src, times, len(probes16)))
	data := func() map[string]any { return map[string]any{"x": 4, "s": "t", "l": []int{7, 8}} }
	resetLib()
	funcs16()
	t, err := c.load(files)
	if err != nil {
		c.Fail("loading failed: %v", err)
		return
	}
	ev := func(s string) string {
		return guard(func() string {
			r, err := textwire.EvaluateString(s, data())
			return fmt.Sprintf("%q %v", r, err)
		})
	}
	str := func(p string) string { return guard(func() string { return obsString(t, p, data()) }) }
	if c.w.left == nil {
		// without a call before
		c.w.left = map[string]string{}
		for i, p := range probes16 {
			n := fmt.Sprintf("q%02d", i)
			resetLib()
			funcs16()
			if t, err = c.load(files); err != nil {
				c.Fail("loading failed: %v", err)
				return
			}
			c.w.left["str "+n] = str(n)
			resetLib()
			funcs16()
			c.w.left["ev "+p] = ev(p)
		}
		resetLib()
		funcs16()
		if t, err = c.load(files); err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
	}
	brk := func() string {
		r := str("brk")
		if !site {
			r = ev(src)
		}
		return r
	}
	first := ""
	for i, p := range probes16 {
		n := fmt.Sprintf("q%02d", i)
		for k := 0; k < times; k++ {
			r := brk()
			if first == "" {
				first = r
			}
			if r != first {
				c.Fail("gives %s, before it gave %s", cut(r), cut(first))
				return
			}
		}
		for k := 0; k < 2; k++ {
			c.Traces(2)
			if got, want := str(n), c.w.left["str "+n]; got != want {
				c.Fail("then the page %q gives %s, without the calls before it gives %s", p, cut(got), cut(want))
				return
			}
			if got, want := ev(p), c.w.left["ev "+p]; got != want {
				c.Fail("then %q gives %s, without the calls before it gives %s", p, cut(got), cut(want))
				return
			}
		}
	}
	c.States(len(probes16), len(probes16)*(times+4))
	if strings.HasSuffix(first, "<nil>") || !strings.Contains(first, "ERROR") {
		c.Note("after a success")
	} else {
		c.Note("after a failure")
	}
}
