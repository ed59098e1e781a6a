package main

import (
	_ "embed"
	"fmt"
	"strings"

	. "verifmc/ref"
)

//go:embed entities.txt
var entityList string

var entityNames = strings.Split(strings.TrimSpace(entityList), "\n")

// decode reads the text of an escaped literal back; ok is false when it has
// raw '<', '>' or a '&' that does not begin one of the entities in question
func decode(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch s[i] {
		case '<', '>':
			return "", false
		case '&':
			j := strings.IndexByte(s[i:], ';')
			if j < 0 {
				return "", false
			}
			switch s[i+1 : i+j] {
			case "amp", "#38", "#x26":
				b.WriteByte('&')
			case "lt", "#60", "#x3c", "#x3C":
				b.WriteByte('<')
			case "gt", "#62", "#x3e", "#x3E":
				b.WriteByte('>')
			default:
				return "", false
			}
			i += j + 1
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String(), true
}

// escaped checks the output of a literal between two marks
func (c *C) escaped(what string, o out, pre, lit, suf string) {
	if o.Err != nil {
		c.Fail("%s: failed: %v", what, o.Err)
		return
	}
	if !strings.HasPrefix(o.S, pre) || !strings.HasSuffix(o.S, suf) || len(o.S) < len(pre)+len(suf) {
		c.Fail("%s: rendered %q, must begin with %q and end with %q", what, cut(o.S), pre, suf)
		return
	}
	in := o.S[len(pre) : len(o.S)-len(suf)]
	got, ok := decode(in)
	switch {
	case !ok:
		c.Fail("%s: %q is not escaped in %q", what, cut(lit), cut(o.S))
	case got != lit:
		c.Fail("%s: %q comes out as %q, which reads %q", what, cut(lit), cut(in), cut(got))
	}
}

func (c *C) exactly(what string, o out, want string) {
	if o.Err != nil {
		c.Fail("%s: failed: %v", what, o.Err)
	} else if o.S != want {
		c.Fail("%s: rendered %q, must render %q", what, cut(o.S), cut(want))
	}
}

// writable: the text can be written between these quotes in only one way
func writable(s string, q byte) bool {
	return !strings.HasSuffix(s, "\\") && !strings.Contains(s, "\\"+string(q))
}

// the places where literals are used; every use prints the text of L exactly
// once between '[' and ']'.  R is the same place followed by raw().
type use10 struct {
	name     string
	src, raw string
}

var uses10 = []use10{
	{"printed", "[{{ L }}]", "[{{ L.raw() }}]"},
	{"parentheses", "[{{ (L) }}]", "[{{ (L).raw() }}]"},
	{"variable", "{{ v = L }}[{{ v }}]", "{{ v = L }}[{{ v.raw() }}]"},
	{"variable of a variable", "{{ v = L; w = v }}[{{ w }}]", "{{ v = L; w = v }}[{{ w.raw() }}]"},
	{"same braces", "[{{ v = L; v }}]", "[{{ v = L; v.raw() }}]"},
	{"reassigned", "{{ v = 'x'; v = L }}[{{ v }}]", "{{ v = 'x'; v = L }}[{{ v.raw() }}]"},
	{"concatenated before", "[{{ L + 'x' }}x]", "[{{ (L + 'x').raw() }}x]"},
	{"concatenated after", "[x{{ 'x' + L }}]", "[x{{ ('x' + L).raw() }}]"},
	{"concatenated with nothing", "[{{ '' + L + '' }}]", "[{{ ('' + L + '').raw() }}]"},
	{"array", "[{{ [L] }}]", "[{{ [L.raw()] }}]"},
	{"array element", "[{{ [1, L][1] }}]", "[{{ [1, L][1].raw() }}]"},
	{"array variable", "{{ v = [L, 2] }}[{{ v[0] }}]", "{{ v = [L, 2] }}[{{ v[0].raw() }}]"},
	{"nested array", "[{{ [[L]][0][0] }}]", "[{{ [[L]][0][0].raw() }}]"},
	{"object value", "[{{ {k: L}.k }}]", "[{{ {k: L}.k.raw() }}]"},
	{"object variable", "{{ v = {k: {j: L}} }}[{{ v.k['j'] }}]", "{{ v = {k: {j: L}} }}[{{ v.k['j'].raw() }}]"},
	{"ternary", "[{{ true ? L : 'no' }}]", "[{{ (false ? 'no' : L).raw() }}]"},
	{"each", "@each(v in [L])[{{ v }}]@end", "@each(v in [L])[{{ v.raw() }}]@end"},
	{"if", "@if(true)[{{ L }}]@end", "@if(L + 'x')[{{ L.raw() }}]@end"},
	{"for", "@for(i = 0; i < 1; i++)[{{ L }}]@end", "@for(v = L; i10 < 1; i10++)[{{ v.raw() }}]@end"},
	{"joined", "[{{ [L].join('-') }}]", "[{{ [L].join('-').raw() }}]"},
	{"appended", "[{{ [].append(L) }}]", "[{{ ['x'].append(L)[1].raw() }}]"},
	{"then", "[{{ true.then(L) }}]", "[{{ true.then(L).raw() }}]"},
}

// the same for templates
type site10 struct {
	name  string
	files map[string]string
	raw   map[string]string
}

var sites10 = []site10{
	{"page", map[string]string{"p": "[{{ L }}]"}, map[string]string{"p": "[{{ L.raw() }}]"}},
	{"insert argument", map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a', L)"}, map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a', L.raw())"}},
	{"insert concatenation", map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a', '' + L)"}, map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a', ('' + L).raw())"}},
	{"insert body", map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a'){{ L }}@end"}, map[string]string{"l": "[@reserve('a')]", "p": "@use('l')@insert('a'){{ v = L }}{{ v.raw() }}@end"}},
	{"layout", map[string]string{"l": "[{{ L }}]@reserve('a')", "p": "@use('l')@insert('a', '')"}, map[string]string{"l": "[{{ L.raw() }}]@reserve('a')", "p": "@use('l')"}},
	{"component argument", map[string]string{"c": "[{{ x }}]", "p": "@component('c', {x: L})"}, map[string]string{"c": "[{{ x.raw() }}]", "p": "@component('c', {x: L})"}},
	{"raw component argument", map[string]string{"c": "[{{ x }}]", "p": "@component('c', {x: 'y' + L, x: L})"}, map[string]string{"c": "[{{ x }}]", "p": "@component('c', {x: L.raw()})"}},
	{"nested component argument", map[string]string{"c": "[{{ x.y[0] }}]", "p": "@component('c', {x: {y: [L]}})"}, map[string]string{"c": "[{{ x.y[0].raw() }}]", "p": "@component('c', {x: {y: [L]}})"}},
	{"slot", map[string]string{"c": "[@slot('s')]", "p": "@component('c')@slot('s'){{ L }}@end@end"}, map[string]string{"c": "[@slot]", "p": "@component('c')@slot{{ L.raw() }}@end@end"}},
	{"component in a loop", map[string]string{"c": "[{{ x }}]", "p": "@each(v in [L])@component('c', {x: v})@end"}, map[string]string{"c": "[{{ x.raw() }}]", "p": "@each(v in [L])@component('c', {x: v})@end"}},
	{"component in a slot", map[string]string{"c": "@slot", "d": "[{{ x }}]", "p": "@component('c')@slot@component('d', {x: L})@end@end"}, map[string]string{"c": "@slot", "d": "[{{ x }}]", "p": "@component('c')@slot@component('d', {x: L.raw()})@end@end"}},
}

// every use shows the literal L once
var printed10 = []string{
	"{{ {L: 7} }}", "{{ [{L: 7}] }}", "{{ {a: {L: 7}} }}", "{{ x = {L: [1]} }}{{ x }}",
	"@each(o in [{L: 7}]){{ o }}@end", "{{ [{L: 7}].join(',') }}", "{{ true.then({L: 7}) }}",
	"@dump({L: 7})", "@dump([{a: {L: 7}}])",
	"{{ {k: L} }}", "{{ {k: [1, L]} }}", "{{ [{k: L}, 2].join('-') }}",
	"@dump(L)", "@dump(1, [L])", "@dump({k: {j: L}})",
}

func lit10(s string, q byte) string { return StrLit(s, q) }

func (c *C) case10(s string, q byte, u use10) {
	l := lit10(s, q)
	src := strings.ReplaceAll(u.src, "L", l)
	raw := strings.ReplaceAll(u.raw, "L", l)
	c.Begin(fmt.Sprintf("%q and %q", src, raw))
	d := map[string]any{"i10": 0}
	pre, suf := "[", "]"
	switch u.name {
	case "concatenated before":
		suf = "xx]"
	case "concatenated after":
		pre = "[xx"
	}
	c.escaped(u.name, evalString(src, d), pre, s, suf)
	c.Traces(1)
	c.exactly(u.name+", raw", evalString(raw, d), pre+s+suf)
}

var symbols10 = []string{"<", ">", "&", ";", "#", "'", "\"", "\\", "a", "amp;", "lt", "3", "é", "x", " ", "\n"}

func init() {
	quotes := []byte{'\'', '"'}
	words := []string{"", "<", "&", "&amp;", "&lt;b&gt;", "<b title=\"x\">'y'</b>", "&quot;", "&#34;", "&#39;", "&amp;#34;", "&apos;", "&#x27;", "&amp;amp;", "a & b", "日<本>", "é&́;", "&nbsp;", "\u00a0&", "<!-- & -->", "{{ x }}", "@if(x)", "\\{{", "}}", "&copy", "&copy=1", "&notit;", "&amp", "&&&;;;", "<\r\n>", "\t", "%d&%s", "\u2028<", "😀&#128512;", "&#0;", "&#x80;", "a;b", "&;", "&#;", "&#x;", "\x00", "<\x00&"}
	ent := func(i int, k int) string {
		switch k {
		case 0:
			return "&" + entityNames[i]
		case 1:
			return "&amp;" + entityNames[i] + "<"
		case 2:
			return "x&&" + strings.TrimSuffix(entityNames[i], ";") + "\""
		}
		return entityNames[i] + "&'"
	}
	register(&Check{ID: "C10", Assumptions: []string{
		"the literal's text is what stands between its quotes with the escaped quotes unescaped; texts in which a backslash precedes the quote in use or ends the literal are left out (their reading is a question of lexing)",
		"raw() is applied once; applying it to its own result is not specified",
	}, Families: []Family{
		{Name: "contents", Space: "all texts up to length 5 (thorough: 6) over 12 symbols (< > & ; # quotes backslash letters entity pieces) and length 4 over 16, both quote styles, printed and raw()", Run: func(c *C) {
			n, sy := 5, symbols10[:12]
			if c.Choose(2) == 1 {
				n, sy = 4, symbols10
			} else if c.Thorough {
				n = 6
			}
			var b strings.Builder
			k := c.Choose(n + 1)
			for i := 0; i < k; i++ {
				b.WriteString(sy[c.Choose(len(sy))])
			}
			q := quotes[c.Choose(2)]
			s := b.String()
			if !writable(s, q) {
				c.Skip()
			}
			c.case10(s, q, uses10[0])
		}},
		{Name: "contexts", Space: "22 usage contexts x all texts up to length 3 over 16 symbols, and 41 tricky texts, both quote styles, each with and without raw()", Run: func(c *C) {
			u := uses10[c.Choose(len(uses10))]
			q := quotes[c.Choose(2)]
			s := ""
			if c.Bool() {
				s = words[c.Choose(len(words))]
			} else {
				k := c.Choose(4)
				for i := 0; i < k; i++ {
					s += symbols10[c.Choose(len(symbols10))]
				}
			}
			if !writable(s, q) || strings.Contains(u.src, "'-'") && s == "" && false {
				c.Skip()
			}
			c.case10(s, q, u)
		}},
		{Name: "printed", Space: "literals as keys and values of printed and dumped objects and arrays (15 uses) x all texts up to length 3 over 16 symbols and 41 tricky texts, both quote styles; the frame around the literal is taken from the same use of an ordinary word", Run: func(c *C) {
			u := printed10[c.Choose(len(printed10))]
			q := quotes[c.Choose(2)]
			s := ""
			if c.Bool() {
				s = words[c.Choose(len(words))]
			} else {
				k := c.Choose(4)
				for i := 0; i < k; i++ {
					s += symbols10[c.Choose(len(symbols10))]
				}
			}
			if !writable(s, q) {
				c.Skip()
			}
			const word = "Qkeyq"
			frame := evalString(strings.ReplaceAll(u, "L", lit10(word, q)), nil)
			pre, suf, ok := strings.Cut(frame.S, word)
			if frame.Err != nil || !ok || strings.Contains(suf, word) {
				c.Skip()
			}
			src := strings.ReplaceAll(u, "L", lit10(s, q))
			c.Begin(fmt.Sprintf("%q", src))
			o := evalString(src, nil)
			if !strings.HasPrefix(u, "@dump") {
				c.escaped("printed", o, pre, s, suf)
				return
			}
			// how a dump writes quotes and control characters is its own matter
			if o.Err != nil || !strings.HasPrefix(o.S, pre) || !strings.HasSuffix(o.S, suf) || len(o.S) < len(pre)+len(suf) {
				c.Fail("dumped: rendered %q (%v), must begin with %q and end with %q", cut(o.S), o.Err, cut(pre), cut(suf))
			} else if in := o.S[len(pre) : len(o.S)-len(suf)]; !strings.Contains(in, "&quot;") && !strings.Contains(in, "&#34;") && !strings.Contains(in, "&#39;") {
				if _, ok := decode(in); !ok {
					c.Fail("dumped: %q is not escaped in %q", cut(s), cut(in))
				}
			}
		}},
		{Name: "templates", Space: "11 usage contexts in template trees (insert and component arguments, slots, layouts, loops) x all texts up to length 3 over 16 symbols and 41 tricky texts, both quote styles, each with and without raw()", Run: func(c *C) {
			u := sites10[c.Choose(len(sites10))]
			q := quotes[c.Choose(2)]
			s := ""
			if c.Bool() {
				s = words[c.Choose(len(words))]
			} else {
				k := c.Choose(4)
				for i := 0; i < k; i++ {
					s += symbols10[c.Choose(len(symbols10))]
				}
			}
			if !writable(s, q) {
				c.Skip()
			}
			l := lit10(s, q)
			for i, f := range []map[string]string{u.files, u.raw} {
				m := map[string]string{}
				for n, src := range f {
					m[n] = strings.ReplaceAll(src, "L", l)
				}
				if i == 0 {
					c.Begin(u.name + ": " + showFiles(m))
				}
				t, err := c.load(m)
				if err != nil {
					c.Fail("%s: loading failed: %v", u.name, err)
					return
				}
				o := render(t, "p", nil)
				if i == 0 {
					c.escaped(u.name, o, "[", s, "]")
				} else {
					c.Traces(1)
					c.exactly(u.name+", raw", o, "["+s+"]")
				}
			}
		}},
		{Name: "pairs", Space: "all ordered pairs of 41 tricky texts and 16 symbols, concatenated, in one array, joined, in two variables, and as neighbours in the text; both mixed quote styles", Run: func(c *C) {
			all := append(append([]string(nil), words...), symbols10...)
			a, b := all[c.Choose(len(all))], all[c.Choose(len(all))]
			qa, qb := quotes[c.Choose(2)], quotes[c.Choose(2)]
			if !writable(a, qa) || !writable(b, qb) {
				c.Skip()
			}
			la, lb := lit10(a, qa), lit10(b, qb)
			uses := []struct{ src, raw, sep string }{
				{"{{ A + B }}", "{{ (A + B).raw() }}", ""},
				{"{{ v = A; w = B }}{{ v + w }}", "{{ v = A; w = B }}{{ (v + w).raw() }}", ""},
				{"{{ A }}{{ B }}", "{{ A.raw() }}{{ B.raw() }}", ""},
				{"{{ A; B }}", "{{ A.raw() + B.raw() }}", ""},
				{"{{ [A, B] }}", "{{ [A.raw(), B.raw()] }}", ", "},
				{"{{ [A, B].join('|') }}", "{{ [A, B].join('|').raw() }}", "|"},
				{"@each(v in [A, B]){{ v }}@if(loop.first)|@end@end", "@each(v in [A, B]){{ v.raw() }}@if(loop.first)|@end@end", "|"},
				{"{{ v = A }}{{ v = v + B }}{{ v }}", "{{ v = A }}{{ v = v + B }}{{ v.raw() }}", ""},
			}
			u := uses[c.Choose(len(uses))]
			sub := strings.NewReplacer("A", la, "B", lb)
			src, raw := sub.Replace(u.src), sub.Replace(u.raw)
			c.Begin(fmt.Sprintf("%q and %q", src, raw))
			c.escaped("pair", evalString(src, nil), "", a+u.sep+b, "")
			c.Traces(1)
			c.exactly("pair, raw", evalString(raw, nil), a+u.sep+b)
		}},
		{Name: "entities", Space: "every one of the 2231 named character references of HTML (with and without semicolon, after &amp;, doubled, without the ampersand) and all numeric references up to 0x3000 in 4 notations, both quotes", Run: func(c *C) {
			q := quotes[c.Choose(2)]
			s := ""
			if c.Bool() {
				s = ent(c.Choose(len(entityNames)), c.Choose(4))
			} else {
				s = fmt.Sprintf([]string{"&#%d;", "&#%d", "&#x%x;", "<&#X%X;"}[c.Choose(4)], c.Choose(0x3000))
			}
			c.case10(s, q, uses10[0])
		}},
		{Name: "characters", Space: "every character U+0000..U+FFFF (thorough: U+10FFFF) alone and beside an ampersand, and every invalid byte, as a literal", Run: func(c *C) {
			hi := 0x100
			if c.Thorough {
				hi = 0x1100
			}
			k := c.Choose(hi)
			var b strings.Builder
			for i := 0; i < 0x100; i++ {
				r := k<<8 + i
				if r == '\\' || r >= 0xd800 && r < 0xe000 {
					continue
				}
				fmt.Fprintf(&b, "%c&%c", r, r)
			}
			s := b.String()
			if k == 0xd8 {
				s = ""
				for i := 0x80; i < 0x100; i++ {
					s += "<" + string([]byte{byte(i)}) + "&"
				}
			}
			c.case10(s, quotes[c.Choose(2)], uses10[c.Choose(3)])
		}},
		{Name: "positions", Space: "literals of n ordinary bytes (n = 1..64 and up to 100001 around all powers of two) of 3 kinds with one special text (8 kinds) at the beginning, after a quarter, a half, three quarters, at each of the last two bytes, or at two of these; both quotes, 4 usages", Run: func(c *C) {
			n := ladderN(c, 100001)
			fill := []string{"x", "é", "a b"}[c.Choose(3)]
			p := []string{"<", ">", "&", "&amp;", "'<", "\"&", "<b>", "&#60;"}[c.Choose(8)]
			at := [][]int{{0}, {n / 4}, {n / 2}, {3 * n / 4}, {n - 1}, {n}, {0, n}, {n / 2, n - 1}}[c.Choose(8)]
			use := uses10[c.Choose(4)]
			q := quotes[c.Choose(2)]
			if n > 64 && (fill == "a b" && n != 4096 || len(p) > 2 && n%128 != 0) {
				c.Skip()
			}
			s, from := "", 0
			for _, i := range at {
				s += strings.Repeat(fill, i-from) + p
				from = i
			}
			s += strings.Repeat(fill, n-from)
			c.case10(s, q, use)
		}},
		{Name: "ladders", Space: "literals of 2^k and 2^k+-1 repetitions of 9 pieces (k up to 14), chains of up to 200 concatenated literals, up to 300 literals in one template", Run: func(c *C) {
			p := []string{"<", "&", "&amp;", "'", "\"", "é<", "a&b>", "&lt;", "x"}[c.Choose(9)]
			switch c.Choose(3) {
			case 0:
				n := 1<<uint(c.Choose(15)) + c.Choose(3) - 1
				c.case10(strings.Repeat(p, n), quotes[c.Choose(2)], uses10[c.Choose(4)])
			case 1:
				n := []int{2, 3, 7, 8, 31, 64, 100, 200}[c.Choose(8)]
				q := quotes[c.Choose(2)]
				l := strings.TrimSuffix(strings.Repeat(lit10(p, q)+" + ", n), " + ")
				c.Begin(fmt.Sprintf("%d times %s", n, l[:len(l)/n]))
				c.escaped("chain", evalString("{{ "+l+" }}", nil), "", strings.Repeat(p, n), "")
				c.Traces(1)
				c.exactly("chain, raw", evalString("{{ ("+l+").raw() }}", nil), strings.Repeat(p, n))
			case 2:
				n := []int{2, 10, 100, 300}[c.Choose(4)]
				q := quotes[c.Choose(2)]
				src := strings.Repeat("{{ "+lit10(p, q)+" }}", n)
				c.Begin(fmt.Sprintf("%d prints of %q", n, p))
				c.escaped("many", evalString(src, nil), "", strings.Repeat(p, n), "")
			}
		}},
	}})
}
