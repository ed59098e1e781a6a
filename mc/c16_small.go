package main

import (
	"fmt"
	"strings"

	. "verifmc/ref"
)

// Sets of one to three small files: whatever a render could keep for the next
// one in a statement, block, file or name shows with other data.

var pieces16 = []string{"", "t", "{{ x }}", "{{ y = x; y }}", "@if(f)a@else{{ x }}@end", "@each(e in l){{ e }}@end", "@for(i = 0; i < x; i++).@end", "{{ o.k }}", "{{ l.len() }}", "@dump(x)", "{{ x }}{{ f }}", "a{{ x }}b", "{{ nope }}", "{{ {k: x}.k + o.k }}", "{{ f ? x : l }}", "{{-- c --}}", "{{ l[0] }}", "{{ x++ }}"}

var exprs16 = []string{"x", "o.k", "l", "f ? 'a' : 'b'", "'lit'", "x + x", "l.len()", "o", "nope"}

var shapes16 = []struct {
	name  string
	args  int // how many of A and B are used
	files map[string]string
}{
	{"page", 2, map[string]string{"p": "A1B1"}},
	{"layout without reserves", 2, map[string]string{"p": "@use('l')B1", "l": "A1"}},
	{"insert", 2, map[string]string{"p": "@use('l')@insert('a')A1@end", "l": "B1@reserve('a')"}},
	{"layout around", 2, map[string]string{"p": "@use('l')@insert('a')t@end", "l": "A1@reserve('a')B1"}},
	{"insert in a block", 2, map[string]string{"p": "@use('l')@insert('a')A1@end", "l": "@if(f)@reserve('a')@else B1@end"}},
	{"insert in a loop", 2, map[string]string{"p": "@use('l')@insert('a')A1@end", "l": "@each(e in l)@reserve('a')B1@end"}},
	{"insert expression", 2, map[string]string{"p": "@use('l')@insert('a', E1)", "l": "@reserve('a')B1"}},
	{"component", 2, map[string]string{"p": "B1@component('c')", "c": "A1"}},
	{"component argument", 2, map[string]string{"p": "@component('c', {x: E1})", "c": "B1"}},
	{"slot", 2, map[string]string{"p": "@component('c')@slot A1@end@end", "c": "@slot B1"}},
	{"named slot", 2, map[string]string{"p": "@component('c')@slot('s')A1@end@end", "c": "B1@slot('s')"}},
	{"two uses", 2, map[string]string{"p": "@component('c', {x: x})@component('c', {f: f})B1", "c": "A1"}},
	{"component in a loop", 2, map[string]string{"p": "@each(e in l)@component('c', {x: e})B1@end", "c": "A1"}},
	{"component in an insert", 2, map[string]string{"p": "@use('l')@insert('a')@component('c')@end", "c": "A1", "l": "@reserve('a')B1"}},
	{"branches", 2, map[string]string{"p": "@if(f)A1@elseif(x)B1@end"}},
	{"loop", 2, map[string]string{"p": "@each(e in l)A1@else B1@end"}},
	{"two pages", 2, map[string]string{"p": "A1", "q": "B1"}},
	{"two pages of a layout", 2, map[string]string{"p": "@use('l')@insert('a')A1@end", "q": "@use('l')@insert('a')B1@end", "l": "@reserve('a')"}},
	{"two pages of a layout without reserves", 2, map[string]string{"p": "@use('l')", "q": "@use('l')B1", "l": "A1"}},
	{"two pages of a component", 2, map[string]string{"p": "@component('c')@slot A1@end@end", "q": "@component('c')", "c": "B1@slot"}},
}

func small16() Family {
	return Family{Name: "small sets", Space: fmt.Sprintf("%d shapes of sets of 1..3 files (pages, layouts with and without reserves, inserts, components, slots, branches, loops) x all pairs of %d pieces: every pair of calls (page x data: given, other values, none, other types) in sequence; each result as on freshly loaded templates", len(shapes16), len(pieces16)), Run: func(c *C) {
		s := shapes16[c.Choose(len(shapes16))]
		var a, e string
		uses := ""
		for _, f := range s.files {
			uses += f
		}
		if strings.Contains(uses, "E1") {
			e = exprs16[c.Choose(len(exprs16))]
		} else {
			a = pieces16[c.Choose(len(pieces16))]
		}
		b := pieces16[c.Choose(len(pieces16))]
		files := map[string]string{}
		pages := []string{"p"}
		for n, f := range s.files {
			files[n] = replace16(f, a, b, e)
			if n == "q" {
				pages = append(pages, n)
			}
		}
		c.again16(files, pages, Data{"x": int64(2), "f": true, "l": A("m", "n"), "o": O("k", int64(5))}, s.name+": "+showFiles(files))
	}}
}

func replace16(f, a, b, e string) string {
	return strings.NewReplacer("A1", a, "B1", b, "E1", e).Replace(f)
}
