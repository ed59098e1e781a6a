package main

import (
	"fmt"
	"path/filepath"
	"reflect"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// Sources with a fault carry marks: the fault is reported for the line of the
// mark \x01, or, where two tokens of the faulty construct stand on different
// lines, for a line between the first and the last mark.  Marks are taken out
// before the source is used.

func unmark(s string) (src string, lo, hi int) {
	line := 1
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			if lo == 0 {
				lo = line
			}
			hi = line
			continue
		case '\n':
			line++
		}
		b.WriteByte(s[i])
	}
	return b.String(), lo, hi
}

type fault13 struct {
	s     string
	parse bool
	words string // a part of the message that must appear
}

// faults that are expressions; \x01 before the last byte of the token
var exprFaults = []fault13{
	{"\x01undef", false, "undef"}, {"undef.a.\x01b", false, "undef"}, {"\x01n + 'a'", false, ""}, {"\x01'a' - 'b'", false, ""}, {"\x01'a' * 2", false, ""}, {"\x01n / 0", false, "zero"}, {"\x01n % 0", false, "zero"},
	{"-\x01's'", false, ""}, {"\x01's'++", false, ""}, {"n.\x01nope()", false, "nope"}, {"'s'.\x01nope(1)", false, "nope"}, {"[1].\x01nope()", false, "nope"}, {"o.\x01nope", false, "nope"}, {"o[\x01'nope']", false, "nope"}, {"n\x01[0]", false, ""}, {"n\x01.a", false, ""}, {"s.\x01repeat('x')", false, "repeat"}, {"s.\x01at([])", false, "at"},
	// tokens that span lines
	{"'a\nb\x01' - 1", false, ""}, {"'a\r\n\r\nb\x01'.nope()", false, "nope"}, {"\"a\n\n\x01\" * 2", false, ""}, {"'\n\x01'++", false, ""}, {"o['\n\nno\x01']", false, ""},
	{"[\n1,\n2\n]\x01.nope()", false, "nope"}, {"s.repeat(\n2\n).\x01nope()", false, "nope"}, {"[1,\n\x01undef,\n2]", false, "undef"}, {"{a:\n1, b:\r\n\x01undef\n}", false, "undef"}, {"true ?\n\x01undef\n: 1", false, "undef"}, {"false ?\n1\n:\n\x01undef", false, "undef"}, {"[1][\n\x01undef\n]", false, "undef"}, {"s.repeat(\n\x01undef\n)", false, "undef"}, {"1 +\n\x01undef", false, "undef"}, {"(\n(\n\x01undef\n)\n)", false, "undef"}, {"-\n\x01undef", false, "undef"}, {"!\r\n\x01undef", false, "undef"},
	{"\x01n\n+\x01\n'a'", false, ""}, {"\x01n /\n\x010", false, "zero"}, {"o\x01.\n\x01nope", false, "nope"}, {"o\x01[\n\x01'nope'\n]", false, "nope"},
	{"'a\\\n\x01' - 1", false, ""}, {"'\\\r\n\\\n\x01'.nope()", false, "nope"}, {"\"\\\\\n\\'\x01\" * 2", false, ""}, {"'a\n\\\nb\x01' / 2", false, ""}, {"'\n\n\\n\x01'++", false, ""}, {"'\\'\n\\'\x01' % 1", false, ""}, {"'\v\f\u0085\u2028\r\x01' - 1", false, ""},
	// faults of the syntax
	{"\x01#", true, "#"}, {"n \x01~ 2", true, "~"}, {"n +\n\x01^", true, "^"}, {"[1,\n\x01$]", true, "$"}, {"n \x012", true, "INT"}, {"n\n\x01's'", true, "STR"}, {"[1\n\x012]", true, "INT"}, {"[1, \x01; 2]", true, ""}, {"(1\n\x012)", true, "INT"}, {"o.\n\x011", true, "INT"}, {"o[\n\x01]", true, ""}, {"o[1\n\x01 2]", true, "INT"}, {"{a:\n\x01}", true, ""}, {"{a: 1\n\x01b: 2}", true, "IDENT"}, {"\x0199999999999999999999", true, "99999999999999999999"}, {"1 *\n\x01* 2", true, "*"}, {"true ? 1\n\x012", true, "INT"}, {"s.len(1\n\x012)", true, "INT"}, {"n \x01= 2 + 1 = 3", true, ""}, {"\x01in", true, "in"}, {"\x01)", true, ")"},
}

// faults that are statements
var stmtFaults = []fault13{
	{"{{ n \x01= 'a' }}", false, "n"}, {"{{ loop\x01 = 1 }}", false, "loop"}, {"@\x01each(x in 5)a@end", false, "INTEGER"}, {"@eac\x01h(x in 'ab')a@else\nb@end", false, "STRING"}, {"@fo\x01r(i = 0; ; i++)@end", false, "@for"}, {"@each(loo\x01p in [1])a@end", false, "loop"}, {"@for(loo\x01p = 0; loop < 1; loop++)a@end", false, "loop"},
	{"@each(n\x01 in ['a'])a@end", false, "n"},
	{"{{ \x01 }}", true, ""}, {"{{\x01\n\x01}}", true, ""}, {"{{ 1;\n\x01}}", true, ""}, {"{{ n =\n\x01}}", true, ""}, {"@if(true)\n@else\n@elsei\x01f(true)\n@end", true, "@elseif"}, {"@if(true\n\x01x)a@end", true, "IDENT"}, {"@if(\x01)a@end", true, ""}, {"@each(\x011 in [1])@end", true, "INT"}, {"@each(x\n\x01of [1])@end", true, "IDENT"}, {"@each(x in\n\x01)@end", true, ""}, {"@for(i = 0\n\x01)@end", true, ""}, {"@for(i = 0; i < 2\n\x01)@end", true, ""}, {"@for(i = 0; i < 2; i++\n\x01; 2)@end", true, ""}, {"@breakIf(\n\x01)", true, ""}, {"@dump(\n\x01#)", true, "#"}, {"@dump(1\n\x012)", true, "INT"}, {"@if(true)\na\n@end{{ \x01# }}", true, "#"}, {"@insert(\n\x011)@end", true, "INT"}, {"@insert('t'\n\x01;)@end", true, ""}, {"@component(\n\x011)", true, "INT"}, {"@component(\x01'')", true, ""}, {"@component('c'\n\x011)", true, "INT"}, {"@component('c',\n\x011)", true, "1"}, {"@component('c', {a: 1\n\x01)", true, ""}, {"@use(\n\x011)", true, "INT"}, {"@use('l'\n\x01, 1)", true, ""}, {"@reserve(\n\x011)", true, "INT"}, {"@slot(\n\x011)", true, "INT"}, {"@insert('a', 'b')\n@insert(\x01'a', 'c')", true, "a"}, {"@if(true)\n\x01", true, "EOF"}, {"@if(true)\n{{ 1 }}\x01", true, "EOF"}, {"{{ 1\n\x01", true, "EOF"}, {"{{ [1,\n2\x01", true, "EOF"}, {"@each(x in [1])\n@if(x)\na@end\n\x01", true, "EOF"}, {"\x01{{-- never\nclosed\x01", true, ""}, {"@for(i = 0; i < 1; i++)a\n\x01", true, "EOF"},
}

func exprStmt(f fault13) fault13 { return fault13{"{{ " + f.s + " }}", f.parse, f.words} }

var fillers13 = []string{
	"\n", "text\n\nmore\n\n\n", "a\r\nb\r\n", "\r\r\n\r", "é日本\n😀\n", "\t\n \n",
	"{{-- c\n\nd --}}", "{{-- {{ 1 }} @if(\r\n--}}{{----}}", "{{-- a\n--}}{{-- b\n--}}{{-- c\n--}}",
	"{{ 'a\nb' }}", "{{ \"\r\n\n\" }}", "{{\n\n1\n}}", "{{ 1;\n2;\r\n3 }}", "{{ q = [\n1,\n2\n] }}", "{{ r = {\na: 'x\ny',\nb: 2\n} }}", "{{ s\n.repeat(\n2\n) }}", "{{ 1\n+\n2\r\n* 3 }}", "{{ 'a\\'\n\\'b' }}", "{{ true\n?\n1\n:\n2 }}",
	"@if(\ntrue\n)\nx\n@end", "@if(false)\na\n@elseif(\nfalse\n)b\n@else\nc\n@end\n", "@for(i = 0;\ni < 2;\ni++\n)\n{{ i }}\n@end", "@each(x in [\n1,\n2\n])\n{{ x }}\n@end", "@each(x in [])\na@else\nb\n@end",
	"\\{{ x\n}}\n", "\\@if(\n", "@ \n@foo\n{ {\n} }\n", "user@x.com\n", "{{ 'a\\\nb' }}", "{{ \"\\\r\n\\\\\n\" }}\v", "\v\f\u0085\u2028\u2029\x00\x1c\x1d\x1e", "{{ '\v\f\u0085\u2028\u2029' }}", "{{ [1]\n\n[0] }}", "\\\n\\\\\n", "@dump(\n1,\n'a\nb'\n)", "{{ n }}{{ s }}", "@breakIf(false)@continueIf(\nfalse)",
}

// contexts put a statement somewhere; expression contexts an expression
var stmtCtx13 = []string{"%s", "@if(true)\n%s\n@end\n", "@if(\nfalse)\na\n@else\n%s@end", "@if(false)\n@elseif(\r\ntrue)\n%s\n@end", "@each(q1 in [1,\n2])\n%s\n@end", "@for(q2 = 0;\nq2 < 1;\nq2++)\n%s\n@end", "@each(q3 in [])\n@else\r\n%s\n@end", "@for(q4 = 0; q4 < 0; q4++)\na\n@else\n%s\n@end", "@each(q5 in [1])@if(\nq5)\n%s@end\n@end", "{{ q6 = 'x\ny' }}%s\n{{ q6 }}"}

var exprCtx13 = []string{"{{ %s }}", "{{\n%s\n}}", "{{ 1;\n%s; 2 }}", "{{ z =\n%s }}", "{{ [1,\n%s,\n2] }}", "{{ {a: 'x\ny', b:\n%s} }}", "{{ true ?\n(%s) : 1 }}", "{{ false ? 1 :\r\n%s }}", "{{ 'a\n'.repeat(\n%s) }}", "@if(\n%s)\na@end", "@if(false)\n@elseif(\n%s\n)a@end", "@each(x in\n%s)\na@end", "@each(x in [1,\n%s\n])\na@end", "@for(i =\n%s; i < 1; i++)\n@end", "@for(i = 0;\n%s; i++)\n@end", "@each(x in [1])\n@breakIf(\n%s)\n@end", "@each(x in [1])\n@continueIf(%s\n)\n@end", "{{ [1][\n%s\n] }}", "{{ (\n(%s)\n) }}", "{{ !(\n%s) }}", "{{ [[1,\r\n{k: (%s)}]] }}"}

var data13 = map[string]any{"n": 4, "s": "t", "o": map[string]any{"a": 1}, "a": []int{1, 2}}

// mustFailAt checks an error against the marks; path "" means no path, "*" any
func (c *C) mustFailAt(err error, lo, hi int, path, words string) {
	p, l, msg, ok := errParts(err)
	switch {
	case !ok:
		c.Fail("error %q is not of the usual form", err)
	case l < lo || l > hi:
		if lo == hi {
			c.Fail("error %q reports line %d, the fault is on line %d", err, l, lo)
		} else {
			c.Fail("error %q reports line %d, the fault is on lines %d to %d", err, l, lo, hi)
		}
	case path != "*" && p != path:
		c.Fail("error %q reports the path %q, the fault is in %q", err, p, path)
	case words != "" && !strings.Contains(msg, words):
		c.Fail("error %q does not mention %q", err, words)
	default:
		c.Note("located")
	}
}

func (c *C) faultString(marked string, f fault13) {
	src, lo, hi := unmark(marked)
	c.Begin(fmt.Sprintf("%q (fault on line %d)", cut(src), lo))
	o := evalString(src, data13)
	if o.Err == nil {
		c.Fail("rendered %q, must fail", cut(o.S))
		return
	}
	c.mustFailAt(o.Err, lo, hi, "", f.words)
}

func join13(l []string) string { return strings.Join(l, "") }

// pickFill chooses up to n fillers
func pickFill(c *C, set []string, n int) string {
	var b strings.Builder
	for k := c.Choose(n + 1); k > 0; k-- {
		b.WriteString(set[c.Choose(len(set))])
	}
	return b.String()
}

func absSite(name string) string {
	p, err := filepath.Abs(filepath.Join(siteDir, name+siteExt))
	if err != nil {
		fatal(err)
	}
	return p
}

// file13 is a place in a tree of files where faults are put
type place13 struct {
	name  string
	files map[string]string // %s is the place
	at    string            // the file that contains it
	page  string
	own   bool // the fault is in the page itself
	expr  bool // the place takes an expression
	// what stands in front of %s within the same file counts its lines by itself
}

var places13 = []place13{
	{"page", map[string]string{"p": "%s"}, "p", "p", true, false},
	{"nested page", map[string]string{"deep/er/p": "%s", "p": "x"}, "deep/er/p", "deep/er/p", true, false},
	{"page with a component before", map[string]string{"p": "a\n@component('c', {\na: 1\n})\n@slot('s')\nx\n@end\n@end\n%s", "c": "\n\n@slot('s')\n{{ a }}\n"}, "p", "p", true, false},
	{"insert block", map[string]string{"p": "@use('l')\n@insert('t')\nx\n%s\n@end\n", "l": "\n\n\n<a>\n@reserve('t')\n"}, "p", "p", true, false},
	{"second insert", map[string]string{"p": "@use('l')\n@insert('u',\n'x\ny')\n@insert('t')\n%s@end", "l": "@reserve('t')\n@reserve('u')"}, "p", "p", true, false},
	{"insert expression", map[string]string{"p": "@use('l')\n@insert('t',\n%s\n)\n", "l": "\n\n\n<a>\n@reserve('t')\n"}, "p", "p", true, true},
	{"component argument", map[string]string{"p": "\n@component('c', {\na: 1,\nb: %s\n})\n", "c": "\n\n{{ a }}"}, "p", "p", true, true},
	{"slot body", map[string]string{"p": "\n@component('c')\n@slot('s')\n%s\n@end\n@end", "c": "\n\n\n\n@slot('s')\n"}, "p", "p", true, false},
	{"default slot body", map[string]string{"p": "\n@component('c', {a:\n1})\n\n@slot\n%s\n@end\n@end", "c": "\n\n\n\n@slot\n"}, "p", "p", true, false},
	{"slot body in an insert", map[string]string{"p": "@use('l')\n@insert('t')\n@component('c')\n@slot('s')\n%s\n@end\n@end\n@end", "c": "\n\n@slot('s')\n", "l": "\n@reserve('t')"}, "p", "p", true, false},
	{"layout before the reserve", map[string]string{"p": "\n\n@use('l')\n\n@insert('t', 'x')", "l": "<b>\n%s\n@reserve('t')"}, "l", "p", false, false},
	{"layout after the reserve", map[string]string{"p": "@use('l')@insert('t')\n\n\n\nx@end", "l": "<b>\n@reserve('t')\n%s\n"}, "l", "p", false, false},
	{"component file", map[string]string{"p": "\n\n\n@component('c')", "c": "<c>\n%s\n"}, "c", "p", false, false},
	{"component file after a slot", map[string]string{"p": "@component('c')\n@slot\n\n\n\n@end@end", "c": "<c>\n@slot\n%s\n"}, "c", "p", false, false},
	{"nested component file", map[string]string{"p": "\n\n\n@component('parts/c', {n: 4, s: 't'})", "parts/c": "<c>\n%s\n"}, "parts/c", "p", false, false},
}

// faultFile loads the files with a fault and renders
func (c *C) faultFile(pl place13, fill string, f fault13) {
	files := map[string]string{}
	lo, hi := 0, 0
	for n, s := range pl.files {
		if n == pl.at {
			s = strings.Replace(s, "%s", "\x02", 1)
			pre, post, _ := strings.Cut(s, "\x02")
			// the filler stands at the top of the file, behind an @use
			if strings.HasPrefix(pre, "@use('l')") {
				pre = "@use('l')" + fill + pre[len("@use('l')"):]
			} else {
				pre = fill + pre
			}
			s, lo, hi = unmark(pre + f.s + post)
		}
		files[n] = s
	}
	c.Begin(fmt.Sprintf("%s (fault in %s line %d)", showFiles(files), pl.at, lo))
	t, err := c.load(files)
	if f.parse {
		if err == nil {
			c.Fail("loaded, must be refused")
			return
		}
		c.mustFailAt(err, lo, hi, absSite(pl.at), f.words)
		return
	}
	if err != nil {
		c.Fail("loading failed: %v", err)
		return
	}
	if t == nil {
		return
	}
	path := absSite(pl.at)
	if !pl.own {
		path = "*"
	}
	data := map[string]any{}
	for k, v := range data13 {
		data[k] = v
	}
	s, ferr := t.String(pl.page, data)
	if ferr == nil {
		c.Fail("rendered %q, must fail", cut(s))
		return
	}
	c.mustFailAt(ferr.Error(), lo, hi, path, f.words)
	if int(ferr.Line()) < lo || int(ferr.Line()) > hi || path != "*" && ferr.Filepath() != path {
		c.Fail("Line() is %d and Filepath() is %q", ferr.Line(), ferr.Filepath())
	}
}

// load faults: a tree, the file with the fault, the mark
type loadFault struct {
	name  string
	files map[string]string // %s: filler
	at    string
	words string
}

var loadFaults = []loadFault{
	{"undefined insert", map[string]string{"p": "@use('l')%s@inser\x01t('nope', 'x')", "l": "\n\n@reserve('t')"}, "p", "nope"},
	{"undefined insert block", map[string]string{"p": "@use('l')%s@insert('t', 'a\nb')\n@inser\x01t('nope')\nx\n@end\n", "l": "@reserve('t')"}, "p", "nope"},
	{"undefined insert before @use", map[string]string{"p": "%s@inser\x01t('nope')\nx\n@end\n@use('l')", "l": "@reserve('t')"}, "p", "nope"},
	{"undefined insert, the second of three", map[string]string{"p": "@use('l')%s@insert('t', 'a\nb')\n@inser\x01t('nope')\nx\n@end\n@insert('u', 'x')", "l": "@reserve('t')@reserve('u')"}, "p", "nope"},
	{"undefined insert, the first of four", map[string]string{"p": "@use('l')%s@inser\x01t('nope')\nx\n@end\n@insert('t', 'a\nb')\n@insert('v', 1)\n@insert('u', 'x')", "l": "@reserve('t')@reserve('u')@reserve('v')"}, "p", "nope"},
	{"undefined insert, the last of five", map[string]string{"p": "@use('l')%s@insert('t', 'a\nb')\n@insert('v', 1)\n@insert('u')x\n@end@insert('w')\n@end\n@inser\x01t('nope', 's')", "l": "@reserve('w')@reserve('t')\n\n@reserve('u')@reserve('v')"}, "p", "nope"},
	{"undefined insert, a layout without reserves", map[string]string{"p": "@use('l')%s@inser\x01t('nope', 's')", "l": "x\n"}, "p", "nope"},
	{"undefined insert after components and loops", map[string]string{"p": "@use('l')%s@component('c')@slot\n@end\n@end@each(x in [1])\n@end{{ z = 1 }}@inser\x01t('nope', 's')", "l": "x\n@reserve('t')", "c": "@slot"}, "p", "nope"},
	{"undefined insert in a nested page", map[string]string{"a/b/p": "@use('l')%s@inser\x01t('nope')x@end", "l": "@reserve('t')"}, "a/b/p", "nope"},
	{"missing layout", map[string]string{"p": "%s@us\x01e('nope')\n\n"}, "p", "nope"},
	{"missing nested layout", map[string]string{"a/p": "%s@us\x01e('x/nope')"}, "a/p", "nope"},
	{"unknown component", map[string]string{"p": "%s\n@componen\x01t('nope')\n"}, "p", "nope"},
	{"unknown component with arguments", map[string]string{"a/p": "%s\n@componen\x01t('nope', {a: 1})\n@component('c')", "c": "x"}, "a/p", "nope"},
	{"unknown component after a good one", map[string]string{"p": "@component('c', {\na: 1})%s\n@componen\x01t('nope')\n", "c": "x\n"}, "p", "nope"},
	{"unknown component in @if", map[string]string{"p": "@if(false)\n%s@componen\x01t('nope')@end\n"}, "p", "nope"},
	{"unknown component in @each", map[string]string{"p": "@each(x in [\n1])\n%s@componen\x01t('nope')@end\n"}, "p", "nope"},
	{"unknown component in an insert", map[string]string{"p": "@use('l')%s@insert('t')\n@componen\x01t('nope')@end\n", "l": "@reserve('t')"}, "p", "nope"},
	{"unknown component in a slot body", map[string]string{"p": "%s@component('c')\n@slot\n@componen\x01t('nope')@end@end\n", "c": "@slot\n"}, "p", "nope"},
	{"undefined slot", map[string]string{"p": "%s@component('c')\n@slo\x01t('nope')\nx\n@end\n@end", "c": "\n\n\n\n\n\n@slot('s')"}, "p", "nope"},
	{"undefined second slot", map[string]string{"p": "%s@component('c')\n@slot('s')\n\n@end\n@slo\x01t('nope')\nx\n@end\n@end", "c": "@slot('s')"}, "p", "nope"},
	{"undefined default slot", map[string]string{"p": "%s@component('c')\n@slo\x01t\nx\n@end\n@end", "c": "@slot('s')"}, "p", ""},
	{"undefined slot of the second use", map[string]string{"p": "@component('c')@slot('s')\n@end\n@end%s@component('c')\n@slo\x01t('nope')\nx\n@end\n@end", "c": "@slot('s')"}, "p", "nope"},
	{"duplicate slot", map[string]string{"p": "%s@component('c')\n@slo\x01t('s')\nx\n@end\n@slo\x01t('s')\n@end\n@end", "c": "@slot('s')"}, "p", ""},
	{"illegal character in an unused page", map[string]string{"p": "x", "q": "%s{{ \x01# }}\n"}, "q", "#"},
	{"illegal character in a layout", map[string]string{"p": "\n\n@use('l')\n@insert('t', 'x')", "l": "%s@reserve('t')\n{{ \x01# }}\n"}, "l", "#"},
	{"unexpected token in a component", map[string]string{"p": "\n\n@component('c')\n", "c": "%s{{ 1\n\x012 }}\n"}, "c", "INT"},
	{"unclosed block in a component", map[string]string{"p": "\n\n@component('c')\n", "c": "%s@if(true)\n\x01"}, "c", "EOF"},
}

// mutateExprs calls f for every expression below a list of statements with a
// function that yields the list with that expression replaced
func exprPositions(l []Stmt, put Expr) (r [][]Stmt) {
	n := countExprs(reflect.ValueOf(l))
	for i := 0; i < n; i++ {
		k := i
		v := replaceExpr(reflect.ValueOf(l), &k, put)
		r = append(r, v.Interface().([]Stmt))
	}
	return
}

var exprTypes = map[reflect.Type]bool{}

func init() {
	for _, e := range []Expr{Lit{}, Num{}, Var{}, Un{}, Post{}, Bin{}, Tern{}, Idx{}, Dot{}, Call{}, ArrL{}, ObjL{}, Par{}} {
		exprTypes[reflect.TypeOf(e)] = true
	}
}

func countExprs(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		n := 0
		if exprTypes[v.Elem().Type()] {
			n = 1
		}
		return n + countExprs(v.Elem())
	case reflect.Slice:
		n := 0
		for i := 0; i < v.Len(); i++ {
			n += countExprs(v.Index(i))
		}
		return n
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(Lit{}) {
			return 0
		}
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += countExprs(v.Field(i))
		}
		return n
	}
	return 0
}

func replaceExpr(v reflect.Value, k *int, put Expr) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		if exprTypes[v.Elem().Type()] {
			if *k == 0 {
				*k = -1
				r.Set(reflect.ValueOf(put))
				return r
			}
			*k--
		}
		r.Set(replaceExpr(v.Elem(), k, put))
		return r
	case reflect.Slice:
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(replaceExpr(v.Index(i), k, put))
		}
		if v.IsNil() {
			return v
		}
		return r
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(Lit{}) {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			r.Field(i).Set(replaceExpr(v.Field(i), k, put))
		}
		return r
	}
	return v
}

func init() {
	var all []fault13
	for _, f := range exprFaults {
		all = append(all, exprStmt(f))
	}
	all = append(all, stmtFaults...)
	var inFile []fault13 // faults that make sense in a file of a tree
	for _, f := range all {
		if strings.Contains(f.s, "@use") || strings.Contains(f.s, "@insert") || strings.Contains(f.s, "@reserve") || strings.Contains(f.s, "@slot") || strings.Contains(f.s, "@component") {
			continue
		}
		inFile = append(inFile, f)
	}
	few := []string{"text\n\nmore\n", "a\r\nb\r\n", "{{-- c\n\nd --}}", "{{ 'a\nb' }}", "{{\n\n1\n}}", "{{ q = [\n1,\n2\n] }}", "@if(\ntrue\n)\nx\n@end", "@each(x in [\n1,\n2\n])\n{{ x }}\n@end", "\\{{ x\n}}\n"}
	endsOpen := func(f fault13) bool {
		return strings.Contains(f.words, "EOF") || strings.HasPrefix(f.s, "\x01{{--")
	}

	register(&Check{ID: "C13", Assumptions: []string{
		"the fault's line is known by construction: a mark in the source next to the faulty token, newlines before it are counted",
		"where tokens of the faulty construct stand on different lines (an operator and its operands) any line between them is accepted; the path of faults that only show while rendering a layout or component file is not compared",
		"an unexpected end of file is on the last line; data that cannot be converted has no line",
	}, Families: []Family{
		{Name: "fillers", Space: fmt.Sprintf("every sequence of 0..2 (thorough 0..3) fillers out of %d (text with LF/CRLF/CR, comments, multi-line strings, braces, literals, directive arguments, blocks, escapes) x %d faults (evaluation, illegal character, unexpected token, end of file)", len(fillers13), len(all)), Run: func(c *C) {
			f := all[c.Choose(len(all))]
			n := 2
			if c.Thorough {
				n = 3
			}
			fill := pickFill(c, fillers13, n)
			c.faultString(fill+f.s, f)
		}},
		{Name: "contexts", Space: fmt.Sprintf("%d expression faults in every one of %d expression contexts, and all faults, in every nest of 0..2 (thorough 0..3) out of %d statement contexts, behind each of %d fillers, LF and CRLF", len(exprFaults), len(exprCtx13), len(stmtCtx13), len(few)+1), Run: func(c *C) {
			var f fault13
			if k := c.Choose(len(exprFaults) + len(stmtFaults)); k < len(exprFaults) {
				f = exprFaults[k]
				ctx := exprCtx13[c.Choose(len(exprCtx13))]
				if strings.HasPrefix(f.s, "n \x01=") && ctx != "{{ %s }}" {
					c.Skip()
				}
				if f.parse && (strings.Contains(f.s, "\x01)") || strings.HasPrefix(f.s, "n\n\x01's'") && ctx != "{{ %s }}") {
					if ctx != "{{ %s }}" && ctx != "{{\n%s\n}}" {
						c.Skip()
					}
				}
				if strings.Contains(ctx, "false ? 1 :") && strings.Contains(f.s, " ? 1") || strings.Contains(ctx, "? ") && strings.Contains(f.s, "?") {
					c.Skip()
				}
				f.s = strings.Replace(ctx, "%s", f.s, 1)
			} else {
				f = stmtFaults[k-len(exprFaults)]
			}
			n := 2
			if c.Thorough {
				n = 3
			}
			s := f.s
			for k := c.Choose(n); k > 0; k-- {
				if endsOpen(f) {
					c.Skip()
				}
				s = strings.Replace(stmtCtx13[c.Choose(len(stmtCtx13))], "%s", s, 1)
			}
			if i := c.Choose(len(few) + 1); i > 0 {
				s = few[i-1] + s
			}
			if c.Bool() {
				s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
			}
			c.faultString(s, f)
		}},
		{Name: "generated", Space: "every generated program of @if/@elseif/@else, @each, @for, assignments and prints with at most 3 statements x every expression position replaced by one of 5 faults x 2 (thorough 6) layouts, thorough also 4 statements x 2 faults x 1 layout; where the reference interpreter reaches the fault the render fails with its line, else it renders", Run: func(c *C) {
			g := gen13(c)
			n := 3
			if c.Thorough {
				n = 4
			}
			size := c.Choose(n) + 1
			l := g.list(size, false)
			texts := []string{"undef\x01ined", "(1 / \x010)", "('x'.nop\x01e())", "\x01#", "(\x01-'a\n\x01b')"}
			if size == 4 {
				texts = []string{texts[0], texts[3]}
			}
			ti := c.Choose(len(texts))
			pos := exprPositions(l, Var{texts[ti]})
			if len(pos) == 0 {
				c.Skip()
			}
			m := pos[c.Choose(len(pos))]
			p := styles[2]
			if size == 4 {
			} else if c.Thorough {
				p = c.style()
			} else if c.Bool() {
				p = styles[3]
			}
			src, lo, hi := unmark("top\n" + p.List(m))
			data := Data{"n": int64(3), "b": true}
			c.Begin(fmt.Sprintf("%q (fault on line %d)", src, lo))
			o := evalString(src, GoMap(data))
			if !strings.Contains(texts[ti], "#") {
				r := Render(nil, m, data, nil)
				if r.Fail != nil && r.Fail.Unspec {
					c.Note("unspecified")
					return
				}
				if r.Fail == nil {
					c.Note("not reached")
					if o.Err != nil && !r.MayError {
						c.Fail("failed with %q, the fault is never evaluated", o.Err)
					}
					return
				}
			}
			if o.Err == nil {
				c.Fail("rendered %q, must fail", o.S)
				return
			}
			c.mustFailAt(o.Err, lo, hi, "", "")
		}},
		{Name: "files", Space: fmt.Sprintf("%d places in trees of files (page, nested page, insert block and expression, component argument, slot bodies, layout before/after the reserve, component files) x %d faults x %d fillers at the top of the file (thorough: pairs of fillers): line, and for load faults and the page itself the absolute path", len(places13), len(inFile), len(few)+1), Run: func(c *C) {
			pl := places13[c.Choose(len(places13))]
			var f fault13
			if pl.expr {
				f = exprFaults[c.Choose(len(exprFaults))]
				if f.parse && (strings.HasPrefix(f.s, "n \x01=") || f.s == "\x01)" || strings.HasPrefix(f.s, "n\n\x01's'")) {
					c.Skip()
				}
			} else {
				f = inFile[c.Choose(len(inFile))]
			}
			if endsOpen(f) && !strings.HasSuffix(pl.files[pl.at], "%s") {
				c.Skip()
			}
			fill := ""
			if i := c.Choose(len(few) + 1); i > 0 {
				fill = few[i-1]
				if c.Thorough {
					if j := c.Choose(len(few) + 1); j > 0 {
						fill += few[j-1]
					}
				}
			}
			c.faultFile(pl, fill, f)
		}},
		{Name: "load faults", Space: fmt.Sprintf("%d trees whose loading fails (undefined insert, missing layout, unknown component in every place, undefined and duplicate slots, syntax faults in unused pages, layouts and components) x 0..2 fillers out of %d before the fault: line and absolute path", len(loadFaults), len(fillers13)), Run: func(c *C) {
			lf := loadFaults[c.Choose(len(loadFaults))]
			fill := pickFill(c, fillers13, 2)
			files := map[string]string{}
			lo, hi := 0, 0
			for n, s := range lf.files {
				if n == lf.at {
					s, lo, hi = unmark(strings.Replace(s, "%s", fill, 1))
				}
				files[n] = s
			}
			c.Begin(fmt.Sprintf("load %s (fault in %s line %d)", showFiles(files), lf.at, lo))
			_, err := c.load(files)
			if err == nil {
				c.Fail("loaded, must be refused")
				return
			}
			c.mustFailAt(err, lo, hi, absSite(lf.at), lf.words)
		}},
		{Name: "spellings", Space: "7 spellings of the template directory x 4 extensions x {load fault, page fault} in 4 file names (blank, percent sign, nested, non-ASCII): the reported path is the clean absolute path", Run: func(c *C) {
			sp := []string{"pdir", "pdir/", "./pdir", "pdir//", "x/../pdir", "pdir/.", "./x/.././pdir/"}[c.Choose(7)]
			ext := []string{".tw.html", ".tw", ".html", ".t%d"}[c.Choose(4)]
			name := []string{"p", "a b", "50%d", "in/ner/é"}[c.Choose(4)]
			f := []fault13{{"x\n\n{{ \x01# }}", true, "#"}, {"x\r\n{{ \x01undef }}", false, "undef"}, {"\n@componen\x01t('nope')", true, "nope"}, {"\n@us\x01e('nope')", true, "nope"}}[c.Choose(4)]
			src, lo, hi := unmark(f.s)
			c.w.fs("x").sync(map[string]string{"keep": ""})
			c.Begin(fmt.Sprintf("dir %q ext %q file %q: %q", sp, ext, name, src))
			t, err := c.loadAs("pdir", sp, ext, map[string]string{name: src})
			want, aerr := filepath.Abs(filepath.Join("pdir", name+ext))
			if aerr != nil {
				fatal(aerr)
			}
			if f.parse {
				if err == nil {
					c.Fail("loaded, must be refused")
					return
				}
				c.mustFailAt(err, lo, hi, want, f.words)
				return
			}
			if err != nil {
				c.Fail("loading failed: %v", err)
				return
			}
			o := render(t, name, nil)
			if o.Err == nil {
				c.Fail("rendered %q", o.S)
				return
			}
			c.mustFailAt(o.Err, lo, hi, want, f.words)
		}},
		{Name: "scale", Space: fmt.Sprintf("each of %d fillers repeated 10, 300, 5000 times (line ends and strings also 70000 and 140000, thorough all of them) before each of 6 faults: the line number stays exact", len(fillers13)), Run: func(c *C) {
			fs := []fault13{all[0], all[5], all[19], exprStmt(exprFaults[40]), exprStmt(exprFaults[44]), stmtFaults[len(stmtFaults)-5]}
			f := fs[c.Choose(len(fs))]
			fill := fillers13[c.Choose(len(fillers13))]
			ns := []int{10, 300, 5000}
			if c.Thorough {
				ns = append(ns, 70000)
			}
			if !c.Thorough && (fill == "\n" || strings.HasPrefix(fill, "{{ 'a\nb' }}")) {
				ns = append(ns, 255, 256, 65535, 65536, 70000, 140000)
			}
			n := ns[c.Choose(len(ns))]
			c.faultString(strings.Repeat(fill, n)+f.s, f)
		}},
		{Name: "text bytes", Space: "every text of length 0..5 (thorough 0..6) over {a, LF, CR, blank, {, @, \\, é} before a fault: only LF ends a line", Run: func(c *C) {
			al := []string{"a", "\n", "\r", " ", "{", "@", "\\", "é"}
			n := 6
			if c.Thorough {
				n = 7
			}
			var b strings.Builder
			for k := c.Choose(n); k > 0; k-- {
				b.WriteString(al[c.Choose(len(al))])
			}
			t := b.String()
			// the text must not open or escape the braces of the fault
			if strings.Contains(t, "{{") || strings.HasSuffix(t, "{") || strings.HasSuffix(t, "\\") {
				c.Skip()
			}
			f := []fault13{{"{{ \x01undef }}", false, "undef"}, {"{{ \x01# }}", true, "#"}}[c.Choose(2)]
			c.faultString(t+f.s, f)
		}},
		{Name: "string bytes", Space: "every string literal of length 0..4 (thorough 0..5) over {a, LF, CR, blank, \\', \\\\, }, é} in either quotes, before a fault in the same and in the next braces", Run: func(c *C) {
			al := []string{"a", "\n", "\r", " ", "\\'", "\\\\ ", "}}", "é"}
			n := 5
			if c.Thorough {
				n = 6
			}
			var b strings.Builder
			for k := c.Choose(n); k > 0; k-- {
				b.WriteString(al[c.Choose(len(al))])
			}
			q := []string{"'", "\""}[c.Choose(2)]
			t := b.String()
			if q == "\"" {
				t = strings.ReplaceAll(t, "\\'", "\\\"")
			}
			lit := q + t + q
			f := fault13{words: "undef"}
			f.s = []string{"{{ " + lit + " }}{{ \x01undef }}", "{{ " + lit + "; \x01undef }}", "{{ [" + lit + ", \x01undef] }}", "@if(" + lit + " == \x01undef)@end", "@component(" + lit + ")"}[c.Choose(4)]
			c.faultString(f.s, f)
		}},
		{Name: "comment bytes", Space: "every comment of length 0..5 (thorough 0..6) over {a, LF, CR, -, {, }} before a fault", Run: func(c *C) {
			al := []string{"a", "\n", "\r", "-", "{", "}"}
			n := 6
			if c.Thorough {
				n = 7
			}
			var b strings.Builder
			for k := c.Choose(n); k > 0; k-- {
				b.WriteString(al[c.Choose(len(al))])
			}
			t := "{{--" + b.String() + "--}}"
			if strings.Index(t[2:], "--}}") != len(t)-6 {
				c.Skip()
			}
			f := []fault13{{"{{ \x01undef }}", false, "undef"}, {"\n{{\x01#}}", true, "#"}, {"{{ 'a\n\x01' - 1 }}", false, ""}}[c.Choose(3)]
			c.faultString("x"+t+f.s, f)
		}},
	}})
	_ = textwire.EvaluateString
	_ = config.New
}

// gen13 generates small programs
func gen13(c *C) *sgen {
	g := &sgen{c: c}
	cond := func(v bool) Expr { return Bin{"==", Lit{int64(1)}, Lit{int64(1 + int64(b2i(!v)))}} }
	g.simple = func(g *sgen, loop bool) Stmt {
		switch c.Choose(4) {
		case 0:
			return Print1{Bin{"+", Var{"n"}, Lit{int64(1)}}}
		case 1:
			return Assign{"m", ArrL{[]Expr{Lit{int64(1)}, Tern{Lit{false}, Lit{int64(2)}, Lit{int64(3)}}}}}
		case 2:
			return Braces{[]Stmt{Assign{"k", Lit{"a\nb"}}, Print1{Call{Lit{"c\r\n"}, "repeat", []Expr{Lit{int64(2)}}}}}}
		}
		if loop {
			return BreakIf{cond(false)}
		}
		return Print1{Idx{ObjL{[]string{"a"}, []Expr{Un{"-", Var{"n"}}}}, Lit{"a"}}}
	}
	g.comp = []func(g *sgen, n int, loop bool) Stmt{
		func(g *sgen, n int, loop bool) Stmt {
			s := g.split(n-1, 2)
			return If{C: []Expr{cond(c.Bool())}, B: [][]Stmt{g.list(s[0], loop)}, Else: g.list(s[1], loop), Has: true}
		},
		func(g *sgen, n int, loop bool) Stmt {
			s := g.split(n-1, 2)
			return If{C: []Expr{cond(false), cond(true)}, B: [][]Stmt{g.list(s[0], loop), g.list(s[1], loop)}}
		},
		func(g *sgen, n int, loop bool) Stmt {
			return Each{V: "e", A: ArrL{[]Expr{Lit{int64(1)}, Lit{int64(2)}}}, B: g.list(n-1, true)}
		},
		func(g *sgen, n int, loop bool) Stmt {
			return forTo("i", 2, g.list(n-1, true)...)
		},
	}
	return g
}
