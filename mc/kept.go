package main

import (
	"fmt"
	"strings"
)

// Every body of a block is kept as it is written: white space, line breaks
// and code in any order, with expectations written down directly.

type bodyItem struct{ src, out string }

var bodyItems = []bodyItem{
	{"\n", "\n"}, {" ", " "}, {"\r\n", "\r\n"}, {"\t", "\t"}, {"\n\n", "\n\n"}, {" \n  ", " \n  "}, {"\r", "\r"}, {"x", "x"},
	{"{{ 7 }}", "7"}, {"{{ zz = 1 }}", ""}, {"@if(true)y@end", "y"}, {"@if(false)y@end", ""}, {"{{-- c --}}", ""}, {"{{ '' }}", ""}, {"<!-- c -->", "<!-- c -->"}, {"\u00a0", "\u00a0"}, {"\v", "\v"}, {"\f", "\f"},
}

type bodyPlace struct {
	what  string
	files map[string]string // %B is the body, %A a second one
	want  string            // what the page p renders
}

func init() {
	p := func(src, want string) bodyPlace {
		return bodyPlace{src, map[string]string{"p": src}, want}
	}
	places := map[string][]bodyPlace{
		"C02": {
			p("[@if(true)%B@end]", "[%B]"),
			p("[@if(true)%B@else%A@end]", "[%B]"),
			p("[@if(false)%A@else%B@end]", "[%B]"),
			p("[@if(false)%A@elseif(true)%B@else%A@end]", "[%B]"),
			p("[@if(false)%A@elseif(false)%A@elseif(true)%B@end]", "[%B]"),
			p("[@if(false)%A@elseif(nil)%A@else%B@end]%A", "[%B]%A"),
			p("@if(true)%B@if(true)%A@end%B@end", "%B%A%B"),
			p("@if(false)%B@end%B", "%B"),
		},
		"C03": {
			p("[@each(v in [1, 2])%B@end]", "[%B%B]"),
			p("[@each(v in [1])%B@else%A@end]", "[%B]"),
			p("[@each(v in [])%A@else%B@end]", "[%B]"),
			p("[@for(i = 0; i < 2; i++)%B@end]", "[%B%B]"),
			p("[@for(i = 0; i < 0; i++)%A@else%B@end]", "[%B]"),
			p("@each(v in [1, 2])%B@for(i = 0; i < 1; i++)%A@end%B@end%A", "%B%A%B%B%A%B%A"),
			p("@each(v in [1, 2, 3])%B@breakIf(v == 2)%A@end", "%B%A%B"),
			p("@for(i = 0; i < 3; i++)%B@continueIf(i == 1)%A@end", "%B%A%B%B%A"),
			p("@each(v in [1, 2])%B@continue%A@end", "%B%B"),
			p("@for(i = 0; i < 3; i++)%B@break%A@end", "%B"),
		},
		"C06": {
			{"one insert", map[string]string{"lay": "<@reserve('a')>", "p": "@use('lay')@insert('a')%B@end"}, "<%B>"},
			{"two inserts", map[string]string{"lay": "<@reserve('b')|@reserve('a')>", "p": "@use('lay')\n@insert('a')%B@end\n@insert('b')%A@end\n"}, "<%A|%B>"},
			{"layout bodies", map[string]string{"lay": "%A@if(true)%B@reserve('a')%A@end%B", "p": "@use('lay')@insert('a')%B@end"}, "%A%B%B%A%B"},
			{"value and body", map[string]string{"lay": "%B@reserve('t')%B@reserve('a')%B", "p": "@use('lay')@insert('t', 'v')@insert('a')%A@end"}, "%Bv%B%A%B"},
			{"between inserts", map[string]string{"lay": "<@reserve('t')@reserve('a')>", "p": "@use('lay')%B@insert('t', 'v')%B@insert('a')%A@end%B"}, "<v%A>"},
		},
		"C07": {
			{"named slot", map[string]string{"c": "<@slot('a')>", "p": "@component('c')@slot('a')%B@end@end"}, "<%B>"},
			{"default slot", map[string]string{"c": "<@slot>", "p": "@component('c')@slot%B@end@end"}, "<%B>"},
			{"both, default first", map[string]string{"c": "<@slot('a')|@slot>", "p": "@component('c')\n@slot%A@end\n@slot('a')%B@end\n@end\n"}, "<%B|%A>\n"},
			{"both, named first", map[string]string{"c": "<@slot('a')|@slot>", "p": "@component('c')\n  @slot('a')%B@end\n  @slot%A@end\n@end"}, "<%B|%A>"},
			{"two named, twice used", map[string]string{"c": "<@slot('a')|@slot('b')>", "p": "@component('c', { k: 1 }) @slot('a')%B@end @slot('b')%A@end @end,@component('c') @slot('b')%B@end @end"}, "<%B|%A>,<|%B>"},
			{"component's bodies", map[string]string{"c": "%A@if(true)%B@slot('a')%A@end%B", "p": "%A@component('c')@slot('a')%B@end@end%A"}, "%A%A%B%B%A%B%A"},
			{"in a loop", map[string]string{"c": "<@slot('a')>", "p": "@each(v in [1, 2])%A@component('c')@slot('a')%B@end@end%A@end"}, "%A<%B>%A%A<%B>%A"},
			{"without slots", map[string]string{"c": "%B", "p": "%A@component('c')%A"}, "%A%B%A"},
		},
	}
	for _, id := range []string{"C02", "C03", "C06", "C07"} {
		pl := places[id]
		ck := findCheck(id)
		ck.Families = append(ck.Families, Family{Name: "bodies kept", Space: fmt.Sprintf("%d places of blocks x every sequence of up to 3 (quick) / 4 (thorough) of %d pieces (line breaks, blanks, other white space, text, printed values, silent code, comments) as the body x 4 other bodies: rendered as written, to the byte", len(pl), len(bodyItems)), Run: func(c *C) {
			w := pl[c.Choose(len(pl))]
			n := c.Choose(4 + b2i(c.Thorough))
			var src, out string
			for i := 0; i < n; i++ {
				b := bodyItems[c.Choose(len(bodyItems))]
				src, out = src+b.src, out+b.out
			}
			alt := []string{"A\n", "\n", " {{ 7 }}\n", ""}[c.Choose(4)]
			altOut := strings.ReplaceAll(alt, "{{ 7 }}", "7")
			in := strings.NewReplacer("%B", src, "%A", alt)
			f := map[string]string{}
			for k, v := range w.files {
				f[k] = in.Replace(v)
			}
			want := strings.NewReplacer("%B", out, "%A", altOut).Replace(w.want)
			c.Begin(showFiles(f))
			if len(f) == 1 {
				c.strIs(f["p"], nil, want)
				return
			}
			c.mustRender(f, "p", nil, want)
		}})
	}
}
