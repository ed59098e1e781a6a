package main

import (
	"fmt"
	"strings"

	. "verifmc/ref"
)

// Pairs of names that are alike: names are compared byte by byte everywhere.

var nearIdents = strings.Fields("a A b ab aB Ab AB a1 a_ _a a_b aa b2 len Len LEN length size trim Trim trimLeft trimleft trim_left trimLeftRight upper toUpper Upper first last x X index iter Loop loops loop1 i In IN inx If If1 End Each each for Nil NIL nilx True TRUE true1 truex False FALSE raw Raw str Str string contains Contains includes isEmpty userName username user_name UserName USERNAME user users global Global null undefined this self data ctx env slot reserve insert component use")

// nearNames may stand in quotes
var nearNames = append(append([]string{" a", "a ", " a ", "a  b", "a b", "a-b", "a.b", "a/b", "a:b", "a,b", "a+b", "é", "e\u0301", "É", "e", "日", "日本", "1", "01", "1.0", "-1", "0", "a\nb", "a\tb", "*", "?", ".", "#", "a%d", "%s", "<b>", "b>", "&lt;", "<", "&amp;", "&", "'", "\"", "default", "content", "children", "slot", "nil", "true", "in", "loop", "else", "{{ a }}", "@a", "@end", "a\x00", "a\u00a0", "\u00a0a", "a\u200b", "ﬁ", "fi", "ß", "ss", "SS", "İ", "ı", "I", "K", "K", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa2"}, "true ", "$a", "~a"), nearIdents[:24]...)

// nearFiles may be names of files
var nearFiles = append([]string{"a b", "a-b", "a.b", "a.", ".a", "..a", "a..b", "é", "É", "日本", "1", "01", "a%20b", "%61", "a+b", "a,b", "a&b", "a#b", "a~", "a'b", "layouts/a", "components/a", "a/b", "b/a", "a/a", "d/a", "d/e/a", "A/b", "a/B", "a.tw", "a.html", "a.tw.html", "index", "a/index", "tw", "html", "a.x", "ss", "ß", "ﬁ", "fi", "e\u0301", "a:b", "a;b", "a=b", "[a]", "{a}", "(a)", "a*", "a?", "$a", "@a", "a\"b", "aa.bb.cc", "a_b_c"}, nearIdents[:12]...)

func nearPair(names []string, f func(c *C, a, b string)) func(c *C) {
	return func(c *C) {
		a, b := names[c.Choose(len(names))], names[c.Choose(len(names))]
		if a == b {
			c.Skip()
		}
		f(c, a, b)
		c.Note("pair")
	}
}

// mustRender runs one page of a set
func (c *C) mustRender(files map[string]string, page string, d map[string]any, want string) {
	c.Traces(1)
	t, err := c.load(files)
	if err != nil {
		c.Fail("%s: loading failed: %v", showFiles(files), err)
		return
	}
	if o := render(t, page, d); o.Err != nil || o.S != want {
		c.Fail("%s: %s gave %s, must render %q", showFiles(files), page, o, want)
	}
}

func (c *C) loadFails(files map[string]string) {
	c.Traces(1)
	if _, err := c.load(files); err == nil {
		c.Fail("%s: loaded without an error", showFiles(files))
	}
}

func (c *C) strIs(src string, d map[string]any, want string) {
	c.Traces(1)
	if o := evalString(src, d); o.Err != nil || o.S != want {
		c.Fail("%q gave %s, must render %q", src, o, want)
	}
}

func (c *C) strFails(src string, d map[string]any) {
	c.Traces(1)
	if o := evalString(src, d); o.Err == nil {
		c.Fail("%q gave %s, must fail", src, o)
	}
}

func init() {
	lit := func(s string) string { return StrLit(s, '\'') }
	addTo := func(id string, f Family) {
		ck := findCheck(id)
		ck.Families = append(ck.Families, f)
	}
	addTo("C04", Family{Name: "near names", Space: fmt.Sprintf("all pairs of %d identifiers that are alike (case, prefixes, words of the language in other spellings): as two variables, one of them missing, as data, as loop variables, as component arguments", len(nearIdents)), Run: nearPair(nearIdents, func(c *C, a, b string) {
		sub := strings.NewReplacer("A1", a, "B1", b).Replace
		c.Begin("variables " + a + " and " + b)
		c.strIs(sub("{{ A1 = 1 }}{{ B1 = 2 }}{{ A1 }},{{ B1 }}"), nil, "1,2")
		c.strIs(sub("{{ A1 }},{{ B1 }}@if(true){{ B1 = 'n' }}{{ B1 }}{{ A1 }}@end{{ B1 }}"), map[string]any{a: 3, b: "m"}, "3,mn3m")
		c.strIs(sub("@each(A1 in [1, 2])@for(B1 = 5; B1 < 6; B1++){{ A1 }}{{ B1 }},@end@end"), map[string]any{b: 7}, "15,25,")
		c.strIs(sub("{{ {A1: 1, B1: 2}.B1 }}{{ {B1: 2, A1: 1}.A1 }}"), nil, "21")
		c.strFails(sub("{{ A1 = 1 }}{{ B1 }}"), nil)
		c.strFails(sub("{{ B1 }}"), map[string]any{a: 1})
		c.strFails(sub("@each(A1 in [1]){{ B1 }}@end"), nil)
	})})
	addTo("C06", Family{Name: "near names", Space: fmt.Sprintf("all pairs of %d names that are alike as reserves and inserts: one or both filled, in both orders; with one reserve the other insert is refused", len(nearNames)), Run: nearPair(nearNames, func(c *C, a, b string) {
		sub := strings.NewReplacer("A1", lit(a), "B1", lit(b)).Replace
		c.Begin(fmt.Sprintf("reserves and inserts %q and %q", a, b))
		lay := sub("[@reserve(A1)|@reserve(B1)]")
		c.mustRender(map[string]string{"l": lay, "p": sub("@use('l')@insert(A1, 'x')"), "q": sub("@use('l')@insert(B1)y@end@insert(A1)z@end")}, "p", nil, "[x|]")
		c.mustRender(map[string]string{"l": lay, "p": sub("@use('l')@insert(B1)y@end@insert(A1)z@end")}, "p", nil, "[z|y]")
		c.loadFails(map[string]string{"l": sub("[@reserve(A1)]"), "p": sub("@use('l')@insert(B1, 'x')")})
	})})
	addTo("C07", Family{Name: "near names", Space: fmt.Sprintf("all pairs of %d names that are alike as slots: one or both passed, in both orders, default slot present; with one slot the other is refused; pairs of %d identifiers as arguments", len(nearNames), len(nearIdents)), Run: func(c *C) {
		if c.Bool() {
			nearPair(nearIdents, func(c *C, a, b string) {
				sub := strings.NewReplacer("A1", a, "B1", b).Replace
				c.Begin("arguments " + a + " and " + b)
				files := map[string]string{"c": sub("{{ A1 }}{{ B1 }}"), "p": sub("@component('c', {B1: 2, A1: 1})"), "q": sub("@component('c', {A1: 1})"), "r": sub("{{ B1 = 5 }}@component('c', {A1: B1})")}
				c.mustRender(files, "p", nil, "12")
				c.mustRender(files, "q", map[string]any{b: 3}, "13")
				c.mustRender(files, "r", nil, "55")
				if t, err := c.load(files); err == nil {
					if o := render(t, "q", nil); o.Err == nil {
						c.Fail("%s: q gave %s, must fail", showFiles(files), o)
					}
				}
			})(c)
			return
		}
		nearPair(nearNames, func(c *C, a, b string) {
			sub := strings.NewReplacer("A1", lit(a), "B1", lit(b)).Replace
			c.Begin(fmt.Sprintf("slots %q and %q", a, b))
			comp := sub("[@slot(A1)|@slot|@slot(B1)]")
			c.mustRender(map[string]string{"c": comp, "p": sub("@component('c')@slot(A1)x@end@end")}, "p", nil, "[x||]")
			c.mustRender(map[string]string{"c": comp, "p": sub("@component('c')@slot(B1)y@end@slot(A1)z@end@end")}, "p", nil, "[z||y]")
			c.mustRender(map[string]string{"c": comp, "p": sub("@component('c')@slot d@end@slot(B1)y@end@end")}, "p", nil, "[| d|y]")
			c.loadFails(map[string]string{"c": sub("[@slot(A1)]"), "p": sub("@component('c')@slot(B1)x@end@end")})
		})(c)
	}})
	addTo("C18", Family{Name: "near names", Space: fmt.Sprintf("all pairs of %d names of files that are alike: both render their own content, as page, component and layout; with one file the other name is not found, as page, component and layout", len(nearFiles)), Run: nearPair(nearFiles, func(c *C, a, b string) {
		sub := strings.NewReplacer("A1", lit(a), "B1", lit(b)).Replace
		c.Begin(fmt.Sprintf("files %q and %q", a, b))
		both := map[string]string{a: "one", b: "two", "p0": sub("@component(A1)@component(B1)"), "q0": sub("@component(B1)@component(A1)")}
		c.mustRender(both, a, nil, "one")
		c.mustRender(both, b, nil, "two")
		c.mustRender(both, "p0", nil, "onetwo")
		c.mustRender(both, "q0", nil, "twoone")
		lays := map[string]string{a: "one@reserve('r')", b: "two@reserve('r')", "p0": sub("@use(A1)@insert('r', 1)"), "q0": sub("@use(B1)@insert('r', 2)")}
		c.mustRender(lays, "p0", nil, "one1")
		c.mustRender(lays, "q0", nil, "two2")
		one := map[string]string{a: "one"}
		c.Traces(1)
		if t, err := c.load(one); err != nil {
			c.Fail("%s: loading failed: %v", showFiles(one), err)
		} else if o := render(t, b, nil); o.Err == nil {
			c.Fail("%s: %q gave %s, there is no such file", showFiles(one), b, o)
		}
		c.loadFails(map[string]string{a: "one", "p0": sub("@component(B1)")})
		c.loadFails(map[string]string{a: "one@reserve('r')", "p0": sub("@use(B1)@insert('r', 1)")})
	})})
	addTo("C20", Family{Name: "near names", Space: fmt.Sprintf("all pairs of %d identifiers that are alike as custom functions of each of the 5 types: each is called by its own name, built-ins keep theirs; with one registered the other is unknown", len(nearIdents)), Run: func(c *C) {
		k := c.Choose(5)
		nearPair(nearIdents, func(c *C, a, b string) {
			typ := types20[k]
			recv := []string{"'s'", "[1]", "1", "1.5", "true"}[k]
			res := func(n int) any {
				return []any{fmt.Sprint("r", n), []any{n}, n, float64(n) + 0.5, n == 2}[k]
			}
			want := func(n int) string {
				return []string{fmt.Sprint("r", n), fmt.Sprint(n), fmt.Sprint(n), fmt.Sprintf("%d.5", n), fmt.Sprint(n / 2)}[k]
			}
			name := fresh20()
			fa, fb := name(a), name(b)
			c.Begin("functions " + a + " and " + b + " of " + typ)
			one := func(n int) func(call20) any { return func(call20) any { return res(n) } }
			if err := register20(typ, fa, one(1)); err != nil {
				c.Fail("registering %s: %v", fa, err)
			}
			if !builtin20(k, fb) {
				c.strFails("{{ "+recv+"."+fb+"() }}", nil)
			}
			if err := register20(typ, fb, one(2)); err != nil {
				c.Fail("registering %s: %v", fb, err)
			}
			if register20(typ, fa, one(3)) == nil {
				c.Fail("%s was registered twice", fa)
			}
			for n, f := range []string{fa, fb} {
				if !builtin20(k, f) {
					c.strIs("{{ "+recv+"."+f+"() }}", nil, want(n+1))
				}
			}
		})(c)
	}})
}

func builtin20(k int, name string) bool {
	return IsBuiltin([]string{"str", "arr", "int", "float", "bool"}[k], name)
}
