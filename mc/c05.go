package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
)

// textScan is the model of text, escapes and comments.  It understands only
// the code block "{{ 7 }}" and @if(true)/@if(false)/@else/@end; everything else
// that is syntax makes the case not comparable.
type textScan struct {
	s   string
	i   int
	bad bool
}

func (m *textScan) block(depth int) (string, string) {
	var b strings.Builder
	for !m.bad && m.i < len(m.s) {
		r := m.s[m.i:]
		switch {
		case strings.HasPrefix(r, "\\{{"):
			if strings.HasPrefix(r[3:], "{{") || strings.HasPrefix(r[3:], "}}") && false {
				m.bad = true
			}
			b.WriteString("{{")
			m.i += 3
		case r[0] == '\\' && startsDirective(r[1:]):
			b.WriteByte('@')
			m.i += 2
		case strings.HasPrefix(r, "{{--"):
			e := strings.Index(r[4:], "--}}")
			if e < 0 || strings.Index(r[2:], "--}}") != e+2 {
				m.bad = true
				break
			}
			m.i += 4 + e + 4
		case strings.HasPrefix(r, "{{ 7 }}"):
			b.WriteByte('7')
			m.i += 7
		case strings.HasPrefix(r, "{{"):
			m.bad = true
		case strings.HasPrefix(r, "@if(true)"), strings.HasPrefix(r, "@if(false)"):
			t := strings.HasPrefix(r, "@if(true)")
			m.i += len("@if(false)") - b2i(t)
			x, stop := m.block(depth + 1)
			y := ""
			if stop == "@else" {
				y, stop = m.block(depth + 1)
			}
			if stop != "@end" {
				m.bad = true
			}
			if t {
				b.WriteString(x)
			} else {
				b.WriteString(y)
			}
		case depth > 0 && strings.HasPrefix(r, "@end"):
			m.i += 4
			return b.String(), "@end"
		case depth > 0 && strings.HasPrefix(r, "@else") && !strings.HasPrefix(r, "@elseif"):
			m.i += 5
			return b.String(), "@else"
		case startsDirective(r):
			m.bad = true
		default:
			b.WriteByte(r[0])
			m.i++
		}
	}
	return b.String(), ""
}

// renderText gives the output of a source, or false when it is not comparable
func renderText(s string) (string, bool) {
	m := &textScan{s: s}
	o, _ := m.block(0)
	return o, !m.bad
}

func (c *C) textCase(s string) {
	want, ok := renderText(s)
	if !ok {
		c.Skip()
	}
	c.Begin(fmt.Sprintf("%q", s))
	o, err := textwire.EvaluateString(s, nil)
	if err != nil {
		c.Fail("failed with %q, must render %q", err, cut(want))
	} else if o != want {
		c.Fail("rendered %q, must render %q", cut(o), cut(want))
	}
	c.Note("value")
}

var textLexemes = []string{"{", "}", "{{", "}}", "@", "\\", "-", "--", "{{--", "--}}", "if", "end", "@if(true)", "@end", "@else", "(", ")", " ", "\n", "\r\n", "a", "é", "\xff", "\x00", "{{ 7 }}", "\\{{", "\\@if", "'", "\"", "&lt;", "@if(false)", "<!-- -->", "\t", "}}}", "\\@end", "日"}

var trickyTexts = []string{"x", " ", "\n", "\r\n", "\t", "}}", "}", "{", "{ {", "} }", "@", "@@", "@ if", "@I", "@If(x)", "@en", "@els", "a@b.c", "@media (x) { }", "@import 'x';", "@font-face", "\\", "\\\\", "\\n", "\\a", "\\}", "\\{", "\\ @if", "$&", "%d%s", "%!", "<script>if(a && b){c()}</script>", "&amp;&#34;\"'", "é", "日本語", "\xff\xfe", "\x00", "\u00a0", "\ufeff", "--}}", "--", "-}}", "'", "\"", "(", ")", "(a)", "[0]", ".x", ";", ",", "?:", "//", "/* */", "in", "nil", "true", "loop", "0", "1.5", "-1", "a\nb\r\nc\rd", " \n ", "  ", "\n\n", "{{ '{' }}{", "\x7f", "\v\f", "style{color:red}", "{a:1}", "end", "else", "if"}

func init() {
	register(&Check{
		ID:          "C05",
		Assumptions: []string{"'\\{{{{', '{{--}}', '{{---}}', comments inside of code and the content of {{ }} other than {{ 7 }} are not part of this check"},
		Families: []Family{
			{Name: "lexemes", Space: "all sequences of up to 4 (quick) / 5 (thorough) of 36 lexemes (braces, comment delimiters, backslash, @, keywords, complete @if/@else/@end, code, UTF-8, invalid UTF-8, NUL, newlines), kept when they form comparable templates", Run: func(c *C) {
				k := 4
				if c.Thorough {
					k = 5
				}
				c.textCase(seqLexemes(c, textLexemes, k))
			}},
			{Name: "core-lexemes", Space: "all sequences of up to 6 (quick) / 8 (thorough) of the 8 lexemes that interact: { } @ \\ - if end blank, and all of up to 5/6 of 12 larger ones", Run: func(c *C) {
				if c.Bool() {
					k := 6
					if c.Thorough {
						k = 8
					}
					c.textCase(seqLexemes(c, []string{"{", "}", "@", "\\", "-", "if", "end", " "}, k))
				} else {
					k := 5
					if c.Thorough {
						k = 6
					}
					c.textCase(seqLexemes(c, []string{"@if(true)", "@if(false)", "@else", "@end", "\\", "{{ 7 }}", "{{--", "--}}", "x", "\n", "}}", "@"}, k))
				}
			}},
			{Name: "bytes", Space: "all strings of one and two bytes, alone and in 5 contexts; thorough: all strings of three bytes", Run: func(c *C) {
				a := string([]byte{byte(c.Choose(256))})
				b := c.Choose(257)
				if b > 0 {
					a += string([]byte{byte(b - 1)})
				}
				if c.Thorough && b > 0 {
					if d := c.Choose(257); d > 0 {
						c.textCase(a + string([]byte{byte(d - 1)}))
						return
					}
				}
				switch c.Choose(6) {
				case 1:
					a = "a" + a + "b"
				case 2:
					a = "@if(true)" + a + "@end"
				case 3:
					a = "{{ 7 }}" + a + "{{ 7 }}"
				case 4:
					a = "{{-- c --}}" + a + "@if(false)" + a + "@else" + a + "@end"
				case 5:
					a = "{{-- " + a + " --}}" + a + "\\{{" + a
				}
				c.textCase(a)
			}},
			{Name: "directives", Space: "each of 16 directive keywords, escaped by a backslash, with 12 continuations and 12 prefixes, at top level and in @if bodies; every proper prefix, case change and one-letter edit of each keyword as plain text", Run: func(c *C) {
				w := directiveWords[c.Choose(len(directiveWords))]
				pre := []string{"", "a", " ", "\n", "\\", "@", "{", "}}", "é", "\xff", "{{ 7 }}", "{{-- x --}}"}[c.Choose(12)]
				var mid string
				switch k := c.Choose(4); k {
				case 0:
					mid = "\\" + w
				case 1:
					n := c.Choose(len(w))
					mid = w[:n]
				case 2:
					n := c.Choose(len(w)-1) + 1
					mid = w[:n] + strings.ToUpper(w[n:n+1]) + w[n+1:]
				case 3:
					n := c.Choose(len(w)-1) + 1
					mid = w[:n] + []string{" ", "_", "é", "\n", "@", "0"}[c.Choose(6)] + w[n:]
				}
				post := []string{"", "(true)", "(x)", "('a')", "s", "If", "if", "(", " ", "\n", "{{ 7 }}", "\\", "@"}[c.Choose(13)]
				s := pre + mid + post
				switch c.Choose(3) {
				case 1:
					s = "@if(true)" + s + "@end"
				case 2:
					s = "@if(false)n@else" + s + "@end" + s
				}
				c.textCase(s)
			}},
			{Name: "comments", Space: "comment content: all sequences of up to 3 (quick) / 4 (thorough) of 28 lexemes incl. directives, code, quotes and near-terminators, in 6 places", Run: func(c *C) {
				lex := []string{"-", "--", "}", "}}", "{", "{{", "{{--", "@if(true)", "@end", "@else", "@", "\\", "\\{{", "{{ 7 }}", "{{ undefined }}", "'", "\"", "`", "x", " ", "\n", "\r\n", "é", "\xff", "\x00", "-}}", "--}", "/*", "@component('nope')", "@use('nope')", "(", ";"}
				k := 3
				if c.Thorough {
					k = 4
				}
				in := seqLexemes(c, lex, k)
				if strings.Contains(in, "--}}") {
					c.Skip()
				}
				com := "{{--" + in + "--}}"
				s := []string{com, "a" + com + "b", " " + com + "\n", "@if(true)" + com + "@else" + com + "x@end", com + "{{ 7 }}" + com + com, "\\" + "x" + com + "}}"}[c.Choose(6)]
				c.textCase(s)
			}},
			{Name: "contexts", Space: "73 tricky texts x 16 places around and inside of every construct (between statements, loop bodies, inserts, slots, components, layouts, after @end) through string, file and template API", Run: func(c *C) {
				t := trickyTexts[c.Choose(len(trickyTexts))]
				o, ok := renderText(t)
				if t == "{{ '{' }}{" {
					o, ok = "{{", true // a brace pair that is not written as one
				}
				if !ok {
					c.Skip()
				}
				if strings.ContainsAny(t[len(t)-1:], "{\\@") {
					t, o = t+" ", o+" " // must not join with the syntax that follows
				}
				T := RawText{t, o}
				one := []Expr{Lit{true}}
				arr := ArrL{ints(1, 2)}
				f := map[string][]Stmt{}
				str := true
				switch c.Choose(16) {
				case 0:
					f["p"] = []Stmt{T}
				case 1:
					f["p"] = []Stmt{T, Print1{Lit{int64(7)}}, T}
				case 2:
					f["p"] = []Stmt{If{C: one, B: [][]Stmt{{T}}}, T}
				case 3:
					f["p"] = []Stmt{If{C: []Expr{Lit{false}, Lit{true}}, B: [][]Stmt{{Text{"n"}}, {T}}, Else: []Stmt{Text{"n"}}, Has: true}}
				case 4:
					f["p"] = []Stmt{Text{"<"}, If{C: []Expr{Lit{false}}, B: [][]Stmt{{T}}, Else: []Stmt{Text{" "}, T}, Has: true}, T}
				case 5:
					f["p"] = []Stmt{Each{V: "v", A: arr, B: []Stmt{T, Print1{Var{"v"}}, T}}, T}
				case 6:
					f["p"] = []Stmt{forTo("i", 2, T, Braces{[]Stmt{Assign{"q", Lit{int64(1)}}}}, T), Text{" "}, T}
				case 7:
					f["p"] = []Stmt{Each{V: "v", A: ArrL{nil}, B: []Stmt{T}, Else: []Stmt{Text{" "}, T, T}, Has: true}}
				case 8:
					f["p"] = []Stmt{Comment{"c"}, T, Comment{" " + t}, T}
					if strings.Contains(t, "-") {
						f["p"] = []Stmt{Comment{"c"}, T, Comment{" " + "x" + " "}, T}
					}
				case 9:
					f["p"] = []Stmt{Each{V: "v", A: arr, B: []Stmt{T, If{C: []Expr{eq(Var{"v"}, 1)}, B: [][]Stmt{{T, Continue{}}}}, Text{" "}, T, BreakIf{Lit{true}}, Text{"n"}}}}
				case 10:
					str = false
					f["l"], f["p"] = []Stmt{T, Reserve{"a"}, Text{" "}, T, Reserve{"b"}, T}, []Stmt{T, Use{"l"}, Text{" "}, T, Insert{N: "a", B: []Stmt{T, Print1{Lit{int64(7)}}, T}}, T}
				case 11:
					str = false
					f["c"], f["p"] = []Stmt{T, Slot{"s", true}, Text{" "}, T}, []Stmt{T, Component{N: "c", Slots: []SlotUse{{N: "s", Has: true, B: []Stmt{T}}}}, T}
				case 12:
					str = false
					f["c"], f["p"] = []Stmt{T, Slot{}, T}, []Stmt{T, Component{N: "c", Slots: []SlotUse{{B: []Stmt{Text{" "}, T}}}}, Text{" "}, T}
					if strings.HasPrefix(t, "(") {
						f["c"] = []Stmt{T, Slot{}, Text{"x"}, T}
					}
				case 13:
					str = false
					f["c"], f["p"] = []Stmt{T}, []Stmt{Component{N: "c"}, Text{"x"}, T, Component{N: "c"}, Text{"\n"}, T}
				case 14:
					str = false
					f["c"], f["p"] = []Stmt{Text{"c"}}, []Stmt{Component{N: "c"}, T, Text{"|"}, Component{N: "c"}}
				case 15:
					f["p"] = []Stmt{RawText{"\\{{ ", "{{ "}, T, RawText{"\\@if", "@if"}, Text{"("}, T, Text{")"}}
				}
				for _, l := range f {
					// text that starts with "(" right after a slot would be its argument
					for i, s := range l {
						if _, ok := s.(Slot); ok && i+1 < len(l) && strings.HasPrefix(siteText(l[i+1]), "(") && !s.(Slot).Has {
							c.Skip()
						}
					}
				}
				if !str {
					c.checkSite(styles[0], &Site{Files: f}, nil, "p")
					return
				}
				src := styles[0].List(f["p"])
				if _, ok := renderText(t); !ok && !strings.HasPrefix(t, "{{ '{' }}{") {
					c.Skip()
				}
				want := Render(nil, f["p"], nil, nil)
				switch c.Choose(3) {
				case 0:
					c.Begin(fmt.Sprintf("%q", src))
					c.expect(evalString(src, nil), want)
				case 1:
					c.checkSite(styles[0], &Site{Files: f}, nil, "p")
				case 2:
					c.Begin(fmt.Sprintf("file %q", src))
					p := filepath.Join(c.w.Scratch, "one.txt")
					if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
						fatal(err)
					}
					s, err := textwire.EvaluateFile(p, nil)
					c.expect(out{s, err}, want)
				}
			}},
			{Name: "characters", Space: "every code point: those below U+10000 one by one, the rest in runs of 64 (quick) / 8 (thorough), as text in 6 places: between letters, before and after code, in @if and @else bodies, inside of and after comments, after escapes, doubled", Run: func(c *C) {
				var b strings.Builder
				if run := map[bool]int{false: 64, true: 8}[c.Thorough]; c.Bool() {
					n := 0x10000 + run*c.Choose(0x100000/run)
					for i := 0; i < run; i++ {
						b.WriteRune(rune(n + i))
					}
				} else {
					r := rune(c.Choose(0x10000))
					if r >= 0xd800 && r < 0xe000 {
						c.Skip()
					}
					b.WriteRune(r)
				}
				t := b.String()
				c.textCase([]string{
					"a" + t + "b",
					t + "{{ 7 }}" + t,
					"@if(true)" + t + "@end" + t + "@if(false)@else" + t + "@end",
					"{{--" + t + "--}}" + t + "{{-- " + t + t + " --}}",
					"\\{{" + t + "\\@if" + t + "\\" + t + "\n" + t + " " + t,
					t + t,
				}[c.Choose(6)])
			}},
			{Name: "joints", Space: "every pair of bytes around each delimiter: the comment's opener and terminator (and a terminator after the terminator), code blocks, @if, @else, @end and escapes, in 14 forms", Run: func(c *C) {
				f := c.Choose(14)
				a, b := string([]byte{byte(c.Choose(256))}), string([]byte{byte(c.Choose(256))})
				c.textCase([]string{
					"x" + a + "{{--" + b + "x--}}y",
					"{{--x" + a + "--}}" + b + "y",
					"{{--" + a + "x" + b + "--}}y",
					"{{--x" + a + "--}}" + b + "--}}y",
					"{{-- " + a + "-" + b + "}} --}}y",
					"x" + a + "{{ 7 }}" + b + "y",
					"x" + a + "@if(true)" + b + "y@end",
					"@if(true)x" + a + "@end" + b + "y",
					"@if(true)x" + a + "@else" + b + "y@end",
					"@if(false)x" + a + "@else" + b + "y@end",
					"x" + a + "\\{{" + b + "y",
					"x" + a + "\\@end" + b + "y",
					"{{--x" + a + "x--}}{{--" + b + "--}}{{ 7 }}",
					a + "x" + b + "{{ 7 }}" + a + "\n" + b,
				}[f])
			}},
			{Name: "pairs", Space: "all ordered pairs of the 73 tricky texts, kept when comparable, joined directly, by a comment and by a code block", Run: func(c *C) {
				a, b := trickyTexts[c.Choose(len(trickyTexts))], trickyTexts[c.Choose(len(trickyTexts))]
				c.textCase(a + []string{"", "{{-- - --}}", "{{ 7 }}", "@if(true)x@end"}[c.Choose(4)] + b)
			}},
			{Name: "ladder", Space: "texts, comments, escapes, lines of n = 0..130 and around 255..257, 511..513, 1023..1025, 4095..4097, 8191..8193, 65535..65537 repetitions of 12 units", Run: func(c *C) {
				big := []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537}
				n := c.Choose(131 + len(big))
				if n > 130 {
					n = big[n-131]
				}
				u := []string{"a", "\n", "é", "日", "{ ", "}}", "\\", "@", "\\{{", "\\@end", "{{-- c --}}", "\r\n", "\xff", "{{ 7 }}"}[c.Choose(14)]
				s := strings.Repeat(u, n)
				switch c.Choose(4) {
				case 1:
					s = "@if(true)" + s + "@end" + s
				case 2:
					if u == "{{-- c --}}" || n > 5000 {
						c.Skip()
					}
					s = "{{--" + s + " --}}|"
				case 3:
					s = "x" + s + "{{ 7 }}"
				}
				c.textCase(s)
			}},
		},
	})
}

func siteText(s Stmt) string { return styles[0].Stmt(s) }
