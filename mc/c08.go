package main

import (
	"fmt"
	"regexp"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/lexer"
	"github.com/textwire/textwire/v2/parser"
	"github.com/textwire/textwire/v2/token"
)

// lexAll reads the whole token stream
func (c *C) lexAll(src string) []token.Token {
	l := lexer.New(src)
	var ts []token.Token
	for {
		t := l.NextToken()
		ts = append(ts, t)
		if t.Type == token.EOF {
			break
		}
		if t.Type == token.ILLEGAL && len(ts) > len(src)+8 {
			break
		}
		if len(ts) > 2*len(src)+8 {
			c.Fail("the lexer returned %d tokens for %d bytes and no end of input", len(ts), len(src))
			return ts
		}
	}
	if n := l.NextToken(); ts[len(ts)-1].Type == token.EOF && n.Type != token.EOF {
		c.Fail("the lexer returned %q after the end of input", n.Literal)
	}
	return ts
}

// unbalanced names a construct that is still open at the end of the tokens
func unbalanced(ts []token.Token) string {
	n := map[token.TokenType]int{}
	blocks := 0
	var open []token.TokenType
	stray := false // a stray @elseif: what follows it is not specified
	for i, t := range ts {
		// object keys may be any token
		inObj := len(open) > 0 && open[len(open)-1] == token.RBRACE
		if !inObj || i+1 >= len(ts) || ts[i+1].Type != token.COLON || ts[i-1].Type != token.LBRACE && ts[i-1].Type != token.COMMA {
			n[t.Type]++
			switch t.Type {
			case token.LPAREN:
				open = append(open, token.RPAREN)
			case token.LBRACKET:
				open = append(open, token.RBRACKET)
			case token.LBRACE:
				open = append(open, token.RBRACE)
			default:
				if len(open) > 0 && open[len(open)-1] == t.Type {
					open = open[:len(open)-1]
				}
			}
		}
		switch t.Type {
		case token.ILLEGAL:
			return fmt.Sprintf("contains the illegal token %q", t.Literal)
		case token.IF, token.EACH, token.FOR:
			blocks++
		case token.INSERT:
			if i+3 < len(ts) && ts[i+3].Type == token.RPAREN {
				blocks++
			}
		case token.ELSE_IF:
			stray = stray || blocks == 0
		case token.END:
			blocks-- // may not close anything: the count is a lower bound
			if blocks < 0 {
				blocks = 0
			}
		}
	}
	switch {
	case stray:
	case n[token.LBRACES] > n[token.RBRACES]:
		return "has an unclosed {{"
	case n[token.LPAREN] > n[token.RPAREN]:
		return "has an unclosed ("
	case n[token.LBRACKET] > n[token.RBRACKET]:
		return "has an unclosed ["
	case n[token.LBRACE] > n[token.RBRACE]:
		return "has an unclosed {"
	case blocks > 0:
		return "has an unclosed block"
	}
	return ""
}

// parseVerdict runs lexer and parser on a source; it returns whether the source
// was rejected
func (c *C) parseVerdict(src string) bool {
	ts := c.lexAll(src)
	p := parser.New(lexer.New(src), "")
	prog := p.ParseProgram()
	errs := p.Errors()
	if p.HasErrors() != (len(errs) > 0) {
		c.Fail("HasErrors() is %v with %d errors", p.HasErrors(), len(errs))
	}
	if len(errs) == 0 {
		c.Note("program")
		if prog == nil {
			c.Fail("neither a program nor an error")
		}
		if why := unbalanced(ts); why != "" {
			c.Fail("accepted although it %s", why)
		}
		return false
	}
	c.Note("rejected")
	lines := uint(1 + strings.Count(src, "\n"))
	for _, e := range errs {
		if e == nil || e.Line() < 1 || e.Line() > lines {
			c.Fail("error %v without a line of the source (%d lines)", e, lines)
		}
	}
	return true
}

func (c *C) totalCase(src string, mustReject string) {
	c.Begin(fmt.Sprintf("%q", src))
	if c.parseVerdict(src) {
		o, err := textwire.EvaluateString(src, nil)
		if err == nil || o != "" {
			c.Fail("the parser rejects it, EvaluateString returned %q, %v", cut(o), err)
		} else if _, line, _, ok := errParts(err); !ok || line < 1 {
			c.Fail("error %q carries no line number", err)
		}
	} else if mustReject != "" {
		c.Fail("accepted although it %s", mustReject)
	}
}

// fileCase loads the source as a page, layout or component file
func (c *C) fileCase(role int, src string, mustReject string) {
	var f map[string]string
	switch role {
	case 0:
		f = map[string]string{"p": src, "good": "x"}
	case 1:
		f = map[string]string{"lay": src, "p": "@use('lay')@insert('a', 1)", "good": "x"}
	case 2:
		f = map[string]string{"c": src, "p": "a@component('c', {k: 1})@slot('a')x@end@end", "good": "x"}
	case 3:
		f = map[string]string{"lay": "@reserve('a')", "c": "@slot('a')@slot", "p": "@use('lay')@insert('a')" + src, "good": "x"}
	}
	c.Begin(showFiles(f))
	bad := c.parseVerdict(f[[]string{"p", "lay", "c", "p"}[role]])
	if !bad && mustReject != "" {
		c.Fail("accepted although it %s", mustReject)
	}
	t, err := c.load(f)
	if bad && (err == nil || t != nil) {
		c.Fail("the parser rejects it, NewTemplate returned %v, %v", t, err)
	} else if bad {
		if _, line, _, ok := errParts(err); !ok || line < 1 {
			c.Fail("error %q carries no line number", err)
		}
	}
}

var allLexemes = []string{"{{", "}}", "{", "}", "(", ")", "[", "]", "@if", "@elseif", "@else", "@end", "@each", "@for", "@break", "@breakIf", "@continue", "@continueIf", "@use", "@insert", "@reserve", "@component", "@slot", "@dump",
	"x", "in", "nil", "true", "loop", "1", "2.5", "'s'", "\"t\"", "'", "\"", "+", "-", "++", "--", "*", "/", "%", "=", "==", "!", "!=", "<", "<=", ">", ".", ",", ";", ":", "?", " ", "\n", "{{--", "--}}", "\\", "@", "#", "é", "\xff", "\x00", "text"}

// nests08 are the constructs that nest
var nests08 = []struct {
	open, close string
	block       bool
}{
	{"(", ")", false}, {"[", "]", false}, {"{a: ", "}", false}, {"x.f(", ")", false}, {"x[", "]", false}, {"1 ? ", " : 2", false}, {"1 ? 2 : ", "", false}, {"-", "", false}, {"!", "", false}, {"1 + (", ")", false},
	{"'s'.f(1, ", ")", false}, {"[1, ", ", 2]", false}, {"{a: 1, 'b': ", ", c}", false}, {"1 ? (", ") : 2", false}, {"(", ") ? 1 : 2", false}, {"(", ").f()", false}, {"(", ")[0]", false}, {"1 * ", " + 2", false},
	{"@if(1)", "@end", true}, {"@if(0)a@else", "@end", true}, {"@if(0)@elseif(1)", "@end", true}, {"@if(x)", "@else b@end", true}, {"@each(v in [1])", "@end", true}, {"@each(v in [])@else", "@end", true}, {"@for(;;)", "@break@end", true}, {"@insert('a')", "@end", true},
	{"@component('c')@slot('s')", "@end@end", true}, {"@component('c')@slot ", "@end@end", true},
}

// constructs are complete constructs; the opener is the prefix length from
// which on a cut leaves the construct open
type construct struct {
	src  string
	open int
}

var constructs = []construct{
	{"{{ 1 }}", 2}, {"{{x}}", 2}, {"{{ x = 1 }}", 2}, {"{{ x = 1; x }}", 2}, {"{{ 'a}}b' }}", 2}, {"{{ \"q'\\\"\" }}", 2}, {"{{ {a: {b: 1}} }}", 2}, {"{{ {a, 'b': [1, 2,],} }}", 2}, {"{{ [1, [2, 3]][0] }}", 2}, {"{{ x.y.z() }}", 2},
	{"{{ x.y(1, 'a').z }}", 2}, {"{{ a ? b : c ? d : e }}", 2}, {"{{ -(1 + 2) * !x }}", 2}, {"{{ x++ }}", 2}, {"{{ 1.5--; 2 }}", 2}, {"{{ a <= b == c != d >= e }}", 2}, {"{{\n nil \n}}", 2}, {"{{-- a --}}", 2}, {"{{-- @if(x) {{ --}}", 2}, {"{{ x % 2 / 3 - 1 }}", 2},
	{"@if(x)a@end", 3}, {"@if(x)a@else b@end", 3}, {"@if(x)a@elseif(y)b@elseif(z)c@else d@end", 3}, {"@if((x))@end", 3}, {"@if({a: 1}.a){{ x }}@end", 3},
	{"@each(v in x)a{{ v }}@end", 5}, {"@each(v in [1, 2])a@else b@end", 5}, {"@each(v in x)@break@end", 5}, {"@each(v in x)@breakIf(v)b@continueIf(v == 1)@continue@end", 5},
	{"@for(i = 0; i < 3; i++)a{{ i }}@end", 4}, {"@for(;;)a@break@end", 4}, {"@for(i = 0; i < 0; i = i + 1)a@else b@end", 4}, {"@dump(x, 'y')", 5}, {"@dump([1], {a: 2})", 5}, {"@insert('a', 'b')", 7}, {"@insert('a', x + 1)", 7}, {"@insert(\"a\")x{{ y }}@end", 7},
	{"@use('~lay')", 4}, {"@reserve('a')", 8}, {"@component('c')", 10}, {"@component('c', {a: 1, b})", 10}, {"@slot('a')", 6}, {"@breakIf(x)", 8}, {"@continueIf(x)", 11}, {"@if('a)b')x@end", 3}, {"@if(x)\\@end@end", 3}, {"@if(x){{-- @end --}}@end", 3},
	{"@component('c')@slot('a')x@end@end", -len("@component('c')")}, {"@component('c', {a: 1})\n @slot x@end\n @slot('b'){{ y }}@end\n@end", -len("@component('c', {a: 1})\n ")}, {"@component('~c')@slot@if(x)b@end@end@end", -len("@component('~c')")},
}

// openFrom tells whether the construct cut to n bytes is open
func (k construct) openAt(n int) bool {
	if n >= len(k.src) {
		return false
	}
	if k.open > 0 {
		return n >= k.open
	}
	// component with slots: it is complete without them
	bare := strings.IndexByte(k.src, ')') + 1
	return n >= 10 && n < bare || n >= -k.open+5
}

var wraps08 = [][2]string{{"@if(a)", "@end"}, {"@if(a)x@else", "@end"}, {"@if(a)x@elseif(b)", "@else y@end"}, {"@each(v in a)", "@end"}, {"@each(v in a)x@else", "@end"}, {"@for(i = 0; i < 2; i++)", "@end"}, {"@insert('n')", "@end"}, {"@component('c')@slot('a')", "@end@end"}, {"@component('c')@slot", "@end @end"}}

var lexRe = regexp.MustCompile(`(?s)\{\{--.*?--\}\}|@[A-Za-z]+|\{\{|\}\}|'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*"|[0-9]+(?:\.[0-9]+)?|[A-Za-z_][A-Za-z_0-9]*|\+\+|--|[=!<>]=|\s+|.`)

// codeGaps lists the offsets inside of code and outside of strings
func codeGaps(src string) []int {
	var r []int
	depth, mode := 0, byte(0) // mode: 0 text, '{' braces, '(' directive
	off := 0
	for _, t := range lexRe.FindAllString(src, -1) {
		switch {
		case mode == 0 && t == "{{":
			mode, depth = '{', 0
		case mode == 0 && t[0] == '@' && off+len(t) < len(src) && src[off+len(t)] == '(' && (off == 0 || src[off-1] != '\\'):
			mode, depth = '(', 0
		case mode == '{' && t == "}}" && depth == 0:
			r = append(r, off)
			mode = 0
		case mode == '{' || mode == '(':
			if depth > 0 || mode == '{' {
				r = append(r, off)
				if t[0] != '\'' && t[0] != '"' {
					for i := 1; i < len(t); i++ {
						r = append(r, off+i)
					}
				}
			}
			if mode == '{' {
				switch t {
				case "{":
					depth++
				case "}":
					depth--
				case "}}":
					depth -= 2
				}
			} else {
				switch t {
				case "(":
					depth++
				case ")":
					depth--
					if depth == 0 {
						mode = 0
					}
				}
			}
		}
		off += len(t)
	}
	return r
}

func init() {
	illegal := []string{"#", "$", "&", "^", "~", "|", "`", "\\", "@", "\x00", "\x01", "\x7f", "\xff", "\x80", "é", "→", "\u00a0", "@if"}
	register(&Check{
		ID: "C08",
		Assumptions: []string{
			"sources accepted by the parser are not evaluated here (C09); accepted sources are only required to be balanced and free of illegal tokens",
			"'never waited on forever' is decided with a limit of 8 s of CPU time per case, measured by a watchdog outside of the code under test",
		},
		Families: []Family{
			{Name: "lexemes", Space: "all sequences of up to 3 (quick) / 4 (thorough) lexemes of the full alphabet of 65 (every directive, bracket, operator, literal, quote, illegal and invalid byte, comment delimiter)", Run: func(c *C) {
				k := 3
				if c.Thorough {
					k = 4
				}
				c.totalCase(seqLexemes(c, allLexemes, k), "")
			}},
			{Name: "code", Space: "'{{ ' + all sequences of up to 4 (quick) / 5 (thorough) of 19 code lexemes, closed, closed twice or cut", Run: func(c *C) {
				k := 4
				if c.Thorough {
					k = 5
				}
				s := "{{ " + seqLexemes(c, []string{"x ", "1 ", "'s' ", "(", ")", "[", "]", "{", "}", ".", ",", ":", "?", "+", "-", "++", "=", ";", "!"}, k)
				switch c.Choose(3) {
				case 0:
					c.totalCase(s, []string{"", "has an unclosed {{"}[b2i(!strings.Contains(s, "}}"))])
				case 1:
					c.totalCase(s+" }}", "")
				case 2:
					c.totalCase(s+"}} }}@end", "")
				}
			}},
			{Name: "directive", Space: "each of 12 directives with '(' + all sequences of up to 3 (quick) / 4 (thorough) of 17 lexemes, cut, closed, closed with a body, closed with @end", Run: func(c *C) {
				k := 3
				if c.Thorough {
					k = 4
				}
				d := []string{"@if", "@each", "@for", "@insert", "@use", "@reserve", "@component", "@slot", "@dump", "@breakIf", "@elseif", "@continueIf"}[c.Choose(12)]
				s := d + "(" + seqLexemes(c, []string{"x ", "in ", "1 ", "'s'", "(", ")", "[", "]", "{", "}", ".", ",", ":", ";", "=", "+", "nil "}, k)
				switch c.Choose(4) {
				case 0:
					c.totalCase(s, "")
				case 1:
					c.totalCase(s+")", "")
				case 2:
					c.totalCase(s+")b@else", "")
				case 3:
					c.totalCase(s+")b@end c", "")
				}
			}},
			{Name: "blocks", Space: "all sequences of up to 5 (quick) / 6 (thorough) of 16 complete block heads, block ends, code and text", Run: func(c *C) {
				k := 5
				if c.Thorough {
					k = 6
				}
				c.totalCase(seqLexemes(c, []string{"@if(x)", "@elseif(y)", "@else", "@end", "@each(v in x)", "@for(;x;)", "@insert('a')", "@insert('a', 1)", "@component('c')", "@slot", "@slot('a')", "@break", "{{ x }}", "t", "\n", "{{-- c --}}"}, k), "")
			}},
			{Name: "bytes", Space: "all strings of up to 2 bytes as template, as code between {{ and }}, after {{, as directive argument and inside of a string; 3 bytes as code (thorough)", Run: func(c *C) {
				s := string([]byte{byte(c.Choose(256))})
				if b := c.Choose(257); b > 0 {
					s += string([]byte{byte(b - 1)})
					if c.Thorough {
						if b := c.Choose(257); b > 0 {
							c.totalCase("{{"+s+string([]byte{byte(b - 1)})+"}}", "")
							return
						}
					}
				}
				switch c.Choose(6) {
				case 0:
					c.totalCase(s, "")
				case 1:
					c.totalCase("{{ "+s+" }}", "")
				case 2:
					c.totalCase("a{{"+s, []string{"", "has an unclosed {{"}[b2i(s != "}}")])
				case 3:
					c.totalCase("@if("+s+")a@end", "")
				case 4:
					c.totalCase("{{ '"+s+"' }}", "")
				case 5:
					c.totalCase("@"+s+"{{ 1 }}", "")
				}
			}},
			{Name: "prefixes", Space: "every prefix of 50 constructs alone and in up to 2 (quick) / 3 (thorough) of 9 enclosing blocks, after 3 beginnings, through the string API", Run: func(c *C) {
				src, cutAt, open := c.prefixCase(b2i(c.Thorough) + 2)
				why := ""
				if open {
					why = "ends inside of an open construct"
				}
				c.totalCase(src[:cutAt], why)
			}},
			{Name: "file-prefixes", Space: "every prefix of 50 constructs alone and in 1 of 9 enclosing blocks as the content of a page, layout, component file and insert body", Run: func(c *C) {
				role := c.Choose(4)
				src, cutAt, open := c.prefixCase(1)
				why := ""
				if open || role == 3 {
					why = "ends inside of an open construct"
				}
				c.fileCase(role, src[:cutAt], why)
			}},
			{Name: "file-lexemes", Space: "all sequences of up to 2 (quick) / 3 (thorough) lexemes of the full alphabet as the content of a page, layout, component file and insert body", Run: func(c *C) {
				k := 2
				if c.Thorough {
					k = 3
				}
				role := c.Choose(4)
				c.fileCase(role, seqLexemes(c, allLexemes, k), "")
			}},
			{Name: "edits", Space: "50 constructs x every single-token deletion, duplication, swap, replacement by and insertion of each of 65 lexemes, at every position; and every pair of deletions/duplications/swaps", Run: func(c *C) {
				k := constructs[c.Choose(len(constructs))]
				ts := lexRe.FindAllString(k.src, -1)
				n := 1
				op := c.Choose(5)
				if op < 3 {
					n = 1 + c.Choose(2+b2i(c.Thorough && len(ts) < 16))
				}
				for j := 0; j < n; j++ {
					if j > 0 {
						op = c.Choose(3)
					}
					i := c.Choose(len(ts))
					var r []string
					r = append(r, ts[:i]...)
					switch op {
					case 0:
						r = append(r, ts[i+1:]...)
					case 1:
						r = append(append(r, ts[i]), ts[i:]...)
					case 2:
						if i+1 >= len(ts) {
							c.Skip()
						}
						r = append(append(r, ts[i+1], ts[i]), ts[i+2:]...)
					case 3:
						r = append(append(r, allLexemes[c.Choose(len(allLexemes))]), ts[i+1:]...)
					case 4:
						r = append(append(r, allLexemes[c.Choose(len(allLexemes))]), ts[i:]...)
					}
					ts = r
					if len(ts) == 0 {
						c.Skip()
					}
				}
				c.totalCase(strings.Join(ts, ""), "")
			}},
			{Name: "illegal", Space: "18 illegal characters at every gap of the code of 50 constructs (alone and in 9 blocks), through the string API and as page, layout and component file", Run: func(c *C) {
				k := constructs[c.Choose(len(constructs))]
				s := k.src
				w := c.Choose(1 + len(wraps08))
				if w > 0 {
					s = wraps08[w-1][0] + s + wraps08[w-1][1]
				}
				g := codeGaps(s)
				if len(g) == 0 {
					c.Skip()
				}
				at := g[c.Choose(len(g))]
				ill := illegal[c.Choose(len(illegal))]
				s = s[:at] + ill + s[at:]
				why := fmt.Sprintf("contains the illegal character %q in code", ill)
				if w > 0 {
					c.totalCase(s, why)
					return
				}
				switch r := c.Choose(4); r {
				case 0:
					c.totalCase(s, why)
				default:
					c.fileCase(r-1, s, why)
				}
			}},
			{Name: "nests", Space: "28 kinds of bracket, operator and block (24 closed, 4 prefix) nested n = 1..64, 200, 1000, 3000 levels deep, alone and (n = 2..40, 200, 1000) alternating in every ordered pair; complete, one closer short, one closer too many, with an empty and with an illegal core", Run: func(c *C) {
				k := c.Choose(len(nests08) * (1 + len(nests08)))
				a := nests08[k%len(nests08)]
				b := a
				pair := k >= len(nests08)
				if pair {
					b = nests08[k/len(nests08)-1]
				}
				if pair && (a == b || a.block != b.block) {
					c.Skip()
				}
				ns := []int{200, 1000, 3000}
				if pair {
					ns = ns[:2]
				}
				lim := 64
				if pair {
					lim = 40
				}
				n := c.Choose(lim+len(ns)) + 1
				if n > lim {
					n = ns[n-lim-1]
				}
				core := []string{"1", "", "#", "x.y"}[c.Choose(4)]
				short := c.Choose(3)
				if pair && !c.Thorough && (n > 6 && n%8 != 0 || short > 0 || core == "x.y") {
					c.Skip()
				}
				var l, r strings.Builder
				cl := []string{}
				for i := 0; i < n; i++ {
					q := a
					if i%2 == 1 {
						q = b
					}
					l.WriteString(q.open)
					cl = append(cl, q.close)
				}
				for i := n - 1; i >= 0; i-- {
					if i > 0 || short != 1 {
						r.WriteString(cl[i])
					}
				}
				if short == 2 {
					r.WriteString(a.close)
				}
				s := l.String() + core + r.String()
				if !a.block {
					s = "{{ " + s + " }}"
				}
				why := ""
				if core == "#" && !a.block {
					why = "contains the illegal character # in code"
				}
				if n > 64 {
					// parsed, not evaluated: printing is not part of this property
					c.Begin(fmt.Sprintf("%d levels of %q and %q around %q, closers %d", n, a.open, b.open, core, short))
					if !c.parseVerdict(s) && why != "" {
						c.Fail("accepted although it %s", why)
					}
					return
				}
				c.totalCase(s, why)
			}},
			{Name: "ladder", Space: "each of 65 lexemes and 24 longer units repeated n = 1..64, 100, 1000, 5000, 12000 times: alone, in braces, as directive argument; nesting units to 100000; 6 million comments", Run: func(c *C) {
				units := append(append([]string{}, allLexemes...), "@if(1)", "@if(1)x@else", "@each(v in x)", "@for(;;)", "{{ 1 }}", "{{-- c --}}", "(", "x.", "x[", "f(", "{a:", "1+", "1,", "0?", "0?1:", "a.b()", "- ", "! ", "@insert('a')", "@component('c')@slot", "{{ x = 1 }}", "\\{{", "\\@if", "'a'+")
				n := c.Choose(70) + 1
				if n > 64 {
					n = []int{100, 1000, 5000, 12000, 100000, 6000000}[n-65]
				}
				u := units[c.Choose(len(units))]
				if n == 100000 {
					ok := false
					for _, x := range units[65:] {
						ok = ok || x == u
					}
					if !ok {
						c.Skip()
					}
				}
				s := ""
				if n == 6000000 {
					if u != "{{-- c --}}" {
						c.Skip()
					}
					u = "{{----}}"
					u = "{{--c--}}"
				}
				m := c.Choose(3)
				if m > 0 && n > 12000 {
					c.Skip()
				}
				switch m {
				case 0:
					s = strings.Repeat(u, n)
				case 1:
					s = "{{ " + strings.Repeat(u, n) + " }}"
				case 2:
					s = "@if(" + strings.Repeat(u, n) + ")x@end"
				}
				if len(s) < 2000 {
					c.totalCase(s, "")
					return
				}
				c.Begin(fmt.Sprintf("%q repeated %d times, context %d", u, n, m))
				p := parser.New(lexer.New(s), "")
				prog := p.ParseProgram()
				if !p.HasErrors() && prog == nil {
					c.Fail("neither a program nor an error")
				}
				for _, e := range p.Errors() {
					if e.Line() < 1 {
						c.Fail("error without a line: %v", e)
					}
				}
			}},
		},
	})
}

// prefixCase chooses a construct in a context and a cut; open tells whether the
// cut leaves something open
func (c *C) prefixCase(depth int) (src string, cutAt int, open bool) {
	pre := []string{"", "text ", "{{ 1 }}@if(q)z@end\n"}[c.Choose(3)]
	k := constructs[c.Choose(len(constructs))]
	for d := c.Choose(depth + 1); d > 0; d-- {
		w := wraps08[c.Choose(len(wraps08))]
		o := map[byte]int{'i': 3, 'e': 5, 'f': 4}[w[0][1]]
		if strings.HasPrefix(w[0], "@insert") {
			o = 7
		} else if strings.HasPrefix(w[0], "@component") {
			o = -len("@component('c')")
		}
		in := k.src
		if strings.HasSuffix(w[0], "@slot") && strings.HasPrefix(in, "(") {
			c.Skip()
		}
		k = construct{w[0] + in + w[1], o}
	}
	n := c.Choose(len(k.src) + 1)
	return pre + k.src, len(pre) + n, k.openAt(n)
}
