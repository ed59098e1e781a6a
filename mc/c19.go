package main

import (
	"fmt"
	"strings"

	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/token"
)

// directive keywords, written out here independently of the token package
var directiveWords = []string{"@if", "@else", "@elseif", "@end", "@use", "@reserve", "@insert", "@for", "@each",
	"@continue", "@continueIf", "@break", "@breakIf", "@component", "@slot", "@dump"}

func startsDirective(s string) bool {
	if s == "" || s[0] != '@' {
		return false
	}
	for _, d := range directiveWords {
		if strings.HasPrefix(s, d) {
			return true
		}
	}
	return false
}

// seqLexemes enumerates every sequence of at most k lexemes
func seqLexemes(c *C, lex []string, k int) string {
	var b strings.Builder
	for i := 0; i < k; i++ {
		n := c.Choose(len(lex) + 1)
		if n == 0 {
			break
		}
		b.WriteString(lex[n-1])
	}
	return b.String()
}

// lineCol is the zero based line and byte column of every offset of s,
// including the offset just past the end
func lineCols(s string) (line, col []int) {
	l, c := 0, 0
	for i := 0; i <= len(s); i++ {
		line = append(line, l)
		col = append(col, c)
		if i < len(s) {
			if s[i] == '\n' {
				l++
				c = 0
			} else {
				c++
			}
		}
	}
	return
}

// unescapeHTML gives the text that a text run stands for: a backslash right
// before "{{" or a directive keyword is dropped.  rest is the source from the
// start of the run to the end of the input.
func unescapeHTML(run, rest string) string {
	var b strings.Builder
	for i := 0; i < len(run); {
		if run[i] == '\\' && strings.HasPrefix(rest[i+1:], "{{") && i+2 < len(run) {
			b.WriteString("{{")
			i += 3
			continue
		}
		if run[i] == '\\' && startsDirective(rest[i+1:]) && i+1 < len(run) {
			b.WriteByte('@')
			i += 2
			continue
		}
		b.WriteByte(run[i])
		i++
	}
	return b.String()
}

// stripGap removes comments and (in code) whitespace from a gap
func gapOK(gap string, code bool) bool {
	for gap != "" {
		if strings.HasPrefix(gap, "{{--") {
			e := strings.Index(gap[2:], "--}}")
			if e < 0 {
				return false
			}
			gap = gap[2+e+4:]
			code = true // what follows a comment inside of code is not specified
			continue
		}
		if code && strings.IndexByte(" \t\r\n", gap[0]) >= 0 {
			gap = gap[1:]
			continue
		}
		return false
	}
	return true
}

func checkTiling(c *C, s string) {
	line, col := lineCols(s)
	off := map[[2]int]int{}
	for i := range line {
		off[[2]int{line[i], col[i]}] = i
	}
	l := lexer.New(s)
	var toks []token.Token
	for {
		t := l.NextToken()
		if t.Type == token.EOF {
			if int(t.Pos.StartLine) != line[len(s)] || int(t.Pos.StartCol) != col[len(s)] || t.Pos.EndLine != t.Pos.StartLine || t.Pos.EndCol != t.Pos.StartCol {
				c.Fail("end-of-input token at %+v, the position past the last byte is %d:%d", t.Pos, line[len(s)], col[len(s)])
			}
			for i := range s {
				if t.Pos.Contains(uint(line[i]), uint(col[i])) {
					c.Fail("end-of-input token contains the cursor %d:%d of byte %d", line[i], col[i], i)
				}
			}
			break
		}
		toks = append(toks, t)
		if len(toks) > len(s)+4 {
			c.Fail("more tokens than bytes: %v", t)
			return
		}
	}
	prev := 0 // first byte not covered yet
	code := false
	parens, directive, wild := 0, false, false
	owner := make([]int, len(s))
	for i := range owner {
		owner[i] = -1
	}
	for i, t := range toks {
		a, ok1 := off[[2]int{int(t.Pos.StartLine), int(t.Pos.StartCol)}]
		b, ok2 := off[[2]int{int(t.Pos.EndLine), int(t.Pos.EndCol)}]
		if !ok1 || !ok2 || a > b || b >= len(s) {
			c.Fail("token %d %q has the position %+v which is not a range of the source", i, t.Literal, t.Pos)
			return
		}
		if a < prev {
			c.Fail("token %d %q at %+v overlaps the previous token", i, t.Literal, t.Pos)
			return
		}
		if !gapOK(s[prev:a], code || wild) {
			c.Fail("the gap %q before token %d %q (in code: %v) is neither whitespace in code nor a comment", s[prev:a], i, t.Literal, code)
		}
		if strings.Contains(s[prev:a], "{{--") && code {
			wild = true
		}
		src := s[a : b+1]
		switch t.Type {
		case token.HTML:
			if want := unescapeHTML(src, s[a:]); want != t.Literal {
				c.Fail("text token at bytes %d-%d is %q, the source there is %q", a, b, t.Literal, src)
			}
		case token.STR:
			q := src[0]
			if q != '"' && q != '\'' {
				c.Fail("string token %q does not start at its quote: %q", t.Literal, src)
				break
			}
			inner := src[1:]
			term := len(inner) > 0 && inner[len(inner)-1] == q
			if term {
				inner = inner[:len(inner)-1]
			} else if b != len(s)-1 {
				c.Fail("string token %q does not end at its quote: %q", t.Literal, src)
			}
			un := strings.ReplaceAll(inner, "\\"+string(q), string(q))
			if un != t.Literal && !(b == len(s)-1 && strings.ReplaceAll(src[1:], "\\"+string(q), string(q)) == t.Literal) {
				c.Fail("string token %q does not match its source %q", t.Literal, src)
			}
		default:
			if src != t.Literal {
				c.Fail("token %q at bytes %d-%d, the source there is %q", t.Literal, a, b, src)
			}
		}
		for j := a; j <= b; j++ {
			owner[j] = i
		}
		prev = b + 1
		// an independent view of where code is
		switch t.Type {
		case token.LBRACES:
			code = true
		case token.RBRACES:
			if directive {
				wild = true // }} inside of directive arguments: no template
			}
			code = false
		case token.LPAREN:
			if directive {
				parens++
			}
		case token.RPAREN:
			if directive {
				if parens--; parens == 0 {
					directive, code = false, false
				}
			}
		case token.IF, token.ELSE_IF, token.FOR, token.EACH, token.USE, token.RESERVE, token.INSERT, token.COMPONENT,
			token.BREAK_IF, token.CONTINUE_IF, token.DUMP:
			directive, code, parens = true, true, 0
		case token.SLOT:
			if b+1 < len(s) && s[b+1] == '(' {
				directive, code, parens = true, true, 0
			}
		case token.ILLEGAL:
			wild = true
		}
	}
	if !gapOK(s[prev:], code || wild) {
		c.Fail("the tail %q is covered by no token", s[prev:])
	}
	// every cursor position
	for j := range s {
		for i, t := range toks {
			if got := t.Pos.Contains(uint(line[j]), uint(col[j])); got != (owner[j] == i) {
				c.Fail("cursor %d:%d on byte %d (%q): token %d %q at %+v contains it: %v, covers it: %v", line[j], col[j], j, s[j], i, t.Literal, t.Pos, got, owner[j] == i)
				return
			}
		}
	}
	if len(toks) > 0 && toks[len(toks)-1].Type == token.ILLEGAL {
		c.Note("ends illegal")
	} else {
		c.Note("tiled")
	}
}

var lex19 = []string{"a", " ", "\n", "{{", "}}", "(", ")", "'", "\"", "\\", "@if", "@else", "@slot", "{{--", "--}}", "é", "\r\n",
	"1.5", "<=", "--", "{", "}", "@", "\x00", "\xff", "in", "!", "@breakIf", "++", "=", ";"}

var lex19html = []string{"a", "\n", "\\", "{", "{{", "}}", "@if", "@", "{{--", "--}}", "-", "@end", "é", "("}

var lex19code = []string{"x", "\n", " ", "'", "\"", "\\", "}}", "}", "{", "(", ")", "é", "<", "=", "-", "+", "1", ".", "#"}

// characters that somebody might take for something else
var chars19 = []string{"\u0080", "\u0085", "\u00a0", "\u00ad", "é", "ß", "\u0300", "\u070f", "\u1680", "\u2002", "\u200b", "\u200d", "\u200e", "\u2028", "\u2029", "\u202e", "\u2060", "\u3000", "日", "\ud7ff", "\ufeff", "\ufffd", "\uffff", "😀", "\U0010ffff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x8a", "\xe2\x80", "\xc2", "\r\n", "\n\r"}

var spots19 = []string{"%", "a%b", "a\n%b", "%{{ x }}", "{{-- % --}}", "{{-- a%\n --}}b", "{{ '%' }}", "{{ \"a%b\" + 1 }}", "{{ '%", "{{ %", "{{ x%y }}", "{{ 1 % 2 }}%", "{{%x%}}", "\\{{%", "\\%@if(", "@if(%true%)", "@if(a)%@end", "@each(x in%[1,%2])", "@slot%('s')", "@component('c',%{a:%1})", "@end%", "@if%(a)", "{{ '\\%' }}", "{{ x }}%"}

func char19(c *C) string {
	k := c.Choose(256 + len(chars19))
	if k < 256 {
		return string([]byte{byte(k)})
	}
	return chars19[k-256]
}

func init() {
	posTemplates := []string{
		"a{{ x }}b", "@if(a)\nx\n@elseif(b)\ny\n@else\nz\n@end\n", "{{ 'a\nb' }}c", "{{ \"a\\\"\nb\" + 'q' }}\n", "{{-- a\n\nb --}}{{ x }}",
		"@each(v in [1, 2,\n 3]){{ v }}\n@else e@end", "@for(i = 0; i <= 3; i++)\n{{ loop.index }}@breakIf(i == 2)@end",
		"@component('~c', {a: 1, b: {c: 'x'}})\n@slot('t')\nT\n@end\n@slot D @end\n@end", "@use('~main')\n@insert('a', 'b')\n@insert('c')\nq@end",
		"\\{{ x }}\n\\@if(a)\n{{ x.y[0].f(1, -2) ? !a : b-- }}\n", "@dump(a, [1], {x: 1})\n@continueIf(x != 1)@continue@break@reserve('x')",
		"<p class=\"é\">ü\n{{ 'é\nü' }}ö</p>\n",
	}
	fills := []string{"", "a", "\n", "\r\n", "é\n", "{{-- \n --}}", "{{ '\n' }}", "\\{{\n", "{{\n1\n}}", "@if(a\n)\n@end", "\n\n\n\n\n\n\n\n\n\n\n\n", "\\@if\n", "abcdefghijklmnopqrstuvwxyz0123456789"}
	register(&Check{
		ID: "C19",
		Assumptions: []string{
			"an unterminated string literal may be a string token that extends to the end of input",
			"what follows a comment placed inside {{ }} or directive arguments, or an illegal character, or }} inside of directive arguments, may be lexed as text or as code",
		},
		Families: []Family{
			{Name: "lexeme-seq", Space: "all sequences of up to 4 (quick) / 5 (thorough) lexemes of a 31 lexeme alphabet; every token and every cursor", Run: func(c *C) {
				k := 4
				if c.Thorough {
					k = 5
				}
				s := seqLexemes(c, lex19, k)
				c.Begin(fmt.Sprintf("%q", s))
				checkTiling(c, s)
			}},
			{Name: "text-mode", Space: "all sequences of up to 6 (quick) / 7 (thorough) of 14 text-mode lexemes", Run: func(c *C) {
				k := 6
				if c.Thorough {
					k = 7
				}
				s := seqLexemes(c, lex19html, k)
				c.Begin(fmt.Sprintf("%q", s))
				checkTiling(c, s)
			}},
			{Name: "code-mode", Space: "'{{' followed by all sequences of up to 5 (quick) / 6 (thorough) of 19 code-mode lexemes, then optionally '}}', newline and text", Run: func(c *C) {
				k := 5
				if c.Thorough {
					k = 6
				}
				pre := []string{"{{", "\n@if("}[c.Choose(2)]
				s := pre + seqLexemes(c, lex19code, k) + []string{"", "}}\nz"}[c.Choose(2)]
				c.Begin(fmt.Sprintf("%q", s))
				checkTiling(c, s)
			}},
			{Name: "templates", Space: "12 templates covering every directive, with every pair of 13 multi-line fillers before and after, every cut point of the result, CRLF and LF", Run: func(c *C) {
				s := posTemplates[c.Choose(len(posTemplates))]
				s = fills[c.Choose(len(fills))] + s
				s += fills[c.Choose(len(fills))]
				if c.Bool() {
					s = strings.ReplaceAll(s, "\n", "\r\n")
				}
				cut := c.Choose(2)
				if cut == 1 {
					s = s[:c.Choose(len(s))]
				}
				c.Begin(fmt.Sprintf("%q", s))
				checkTiling(c, s)
			}},
			{Name: "bytes", Space: fmt.Sprintf("every byte 0..255 and %d multi-byte characters (Unicode line and paragraph separators, next line, spaces, byte order marks, surrogates, combining, 2 to 4 byte forms), alone and doubled, and every one after every one of 12 control characters, in each of %d surroundings (text, comments, strings, code, escapes, directive arguments) x the tokens that follow on the same and the next line", len(chars19), len(spots19)), Run: func(c *C) {
				sp := spots19[c.Choose(len(spots19))]
				b := char19(c)
				switch c.Choose(3) {
				case 1:
					b += b
				case 2:
					ctl := []string{"\t", "\n", "\v", "\f", "\r", "\x00", "\x1b", "\x7f", "\\", "\xc2", "\xe2\x80", "\ufeff"}
					b = ctl[c.Choose(len(ctl))] + b
				}
				s := strings.ReplaceAll(sp, "%", b) + []string{"", "{{ x }}z\n{{ y }}", "\n@if(a) 'b'"}[c.Choose(3)]
				c.Begin(fmt.Sprintf("%q", s))
				checkTiling(c, s)
			}},
			{Name: "ladder", Space: "n copies (n = 0..70 and 100, 255, 256, 300, 1000, 5000; letters and line ends also 32767, 65533..65536, 70000, 140000) of each of 14 units followed by a probe: counters that wrap or overflow", Run: func(c *C) {
				units := []string{"\n", "a", "é", "{{ x }}", "{{ '\n' }}", "{{--\n--}}", "@if(a)", "@if(a)\n@end", "\\{{", "\\@if", "{{ ( ", "{{ { ", "\r\n", "@break\n"}
				u := units[c.Choose(len(units))]
				ns := []int{100, 255, 256, 300, 1000, 5000}
				if len(u) <= 2 {
					ns = append(ns, 32767, 65533, 65534, 65535, 65536, 70000, 140000)
				}
				n := c.Choose(71 + len(ns))
				if n > 70 {
					n = ns[n-71]
				}
				probe := []string{"{{ x }}", "z\n", "@else"}[c.Choose(3)]
				if n > 300 && len(u) > 2 {
					n /= 5
				}
				c.Begin(fmt.Sprintf("%d times %q then %q", n, u, probe))
				checkTiling(c, strings.Repeat(u, n)+probe)
			}},
		},
	})
}
