package main

import (
	"fmt"
	"strings"
)

// Names that a file or a folder has by some convention, and every byte at the
// start, at the end or in the middle of a name.
var conventional = strings.Fields(`node_modules vendor dist build target bin obj out tmp temp test tests testdata spec fixtures docs examples
	.git .svn .hg .idea .vscode .github .cache .well-known .DS_Store .keep .gitkeep __pycache__ __MACOSX CVS RCS lost+found
	_partials partials partial _layouts layouts layout components component slots includes include shared common base main index default
	public static assets img css js media uploads admin api internal private drafts draft old new backup archive trash deprecated
	README LICENSE Makefile go.mod package.json Thumbs.db desktop.ini con aux nul prn templates template views view pages page error errors 404 500
	en de-DE zh_Hans v1 v2.0 1 007 -1 a.b.c ... .. x~ #x# x# x.bak x.orig x.swp x.tmp .x.swp x.html x.tw x.tw.html.bak copy~1 $RECYCLE.BIN @eaDir $x %20 %2e %2F a+b a&b a=b a;b a,b a:b a|b a*b a?b [a] {a} (a) <a> ^a !a 'a'`)

type markedName struct {
	name string
	ref  bool // can be written in a directive
}

func markedNames() (ns []markedName) {
	seen := map[string]bool{"..": true, ".": true}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			ns = append(ns, markedName{n, !strings.ContainsAny(n, "\\\r\n") && !strings.HasPrefix(n, "~")})
		}
	}
	for _, n := range conventional {
		add(n)
	}
	for b := 1; b < 256; b++ {
		if s := string([]byte{byte(b)}); s != "/" {
			add(s + "n")
			add("n" + s)
			add("n" + s + "m")
			add(s)
			add(s + s)
		}
	}
	return ns
}

func init() {
	names := markedNames()
	quoted := func(s string) string {
		if strings.Contains(s, "'") {
			return `"` + s + `"`
		}
		return "'" + s + "'"
	}
	places := []string{"%", "%/f", "d/%", "d/%/f", "%/%", "d/%/e/f"}
	for _, id := range []string{"C06", "C07", "C18"} {
		ck := findCheck(id)
		ck.Families = append(ck.Families, Family{Name: "folders", Space: fmt.Sprintf("%d names (names that tools, editors and version control use; every byte at the start, the end and in the middle of a name, alone and doubled) as the name of a file, of its folder, of both and of a folder above, %d places: the file is found there", len(names), len(places)), Run: func(c *C) {
			m := names[c.Choose(len(names))]
			at := strings.ReplaceAll(places[c.Choose(len(places))], "%", m.name)
			if id != "C18" && (!m.ref || strings.HasPrefix(at, "~")) {
				c.Skip()
			}
			c.Begin(fmt.Sprintf("%q", at))
			switch id {
			case "C18":
				c.mustRender(map[string]string{at: "one{{ 1 }}", "the page": "two"}, at, nil, "one1")
				if m.ref && !strings.HasPrefix(at, "~") {
					c.loadFails(map[string]string{at: "{{ 1 +", "the page": "two"})
				}
			case "C06":
				f := map[string]string{at: "<@reserve('r')>", "the page": "@use(" + quoted(at) + ")@insert('r', 7)"}
				c.mustRender(f, "the page", nil, "<7>")
			case "C07":
				f := map[string]string{at: "<@slot('s'){{ k }}>", "the page": "@component(" + quoted(at) + ", { k: 7 })@slot('s')S@end@end,@component(" + quoted(at) + ", { k: 8 })"}
				c.mustRender(f, "the page", nil, "<S7>,<8>")
			}
		}})
	}
}

// words that names in templates are made of, and that languages reserve
var words = strings.Fields(`_ __ ___ _x x_ __proto__ __dirname __init__ prototype constructor hasOwnProperty toString valueOf undefined null None none NULL Null NaN nan Inf inf Infinity infinity
	this self super parent root global globals window document env Env ctx context request response session config app App site page pages layout layouts component components slot slots insert reserve use dump content children default
	and or not is eq ne lt gt le ge mod div xor AND OR NOT if else elseif elif unless each for foreach while do until switch case break continue breakIf continueIf end begin endif endfor endeach when then from to with as of on by let var const func function fn def lambda return yield new delete void typeof instanceof class struct type interface import export package go defer chan map range select goto fallthrough static public private protected final abstract async await try catch finally throw raise assert pass del lambda print echo include require extends block macro call set get raw filter verbatim section yield stack push prepend once php auth guest error errors csrf method old session flash
	index key keys value values item items it entry element el first last iter iteration count total length len size sum min max avg abs name names title id ID Id uuid slug url URL href src path file line number num int Int int64 float Float64 string String str Str bool Bool boolean array arr Array object obj Object list dict date time now year month day user users User email password token html HTML css js json text body head header footer main nav main0 a b c d e f g h i j k l m n o p q r s t u v w x y z A Z E e1 e5 E5 x1 X1 0x0x b01 o7 i64 u8 f32 n1 l1
	True TRUE FALSE False nil_ niL Nil trueish falsey inner Loop LOOP loops looper in_ In INN end_ End`)

func identifiers() (ws []string) {
	seen := map[string]bool{"true": true, "false": true, "nil": true, "in": true, "loop": true}
	for _, w := range words {
		if !seen[w] && (w[0] > '9' || w[0] < '0') {
			seen[w] = true
			ws = append(ws, w)
		}
	}
	return ws
}

func init() {
	ids := identifiers()
	addTo := func(id, what string, run func(c *C, w string, sub func(string) string)) {
		ck := findCheck(id)
		ck.Families = append(ck.Families, Family{Name: "words", Space: fmt.Sprintf("%d words (of this and other languages, of frameworks, of the implementation) %s", len(ids), what), Run: func(c *C) {
			w := ids[c.Choose(len(ids))]
			c.Begin(w)
			run(c, w, strings.NewReplacer("W1", w).Replace)
		}})
	}
	addTo("C04", "as a variable, as data, as a loop variable of either loop, type stable and scoped", func(c *C, w string, sub func(string) string) {
		c.strIs(sub("{{ W1 = 1 }}{{ W1 }}@if(true){{ W1 = 2 }}{{ W1 }}@end{{ W1 }}"), nil, "121")
		c.strIs(sub("{{ W1 }}@if(W1 == 3){{ W1 = W1 + 1 }}{{ W1 }}@end{{ W1++ }}"), map[string]any{w: 3}, "344")
		c.strIs(sub("@each(W1 in [1, 2]){{ W1 }}{{ loop.iter }}@end"), nil, "1122")
		c.strIs(sub("@for(W1 = 0; W1 < 2; W1++){{ W1 }}@end"), nil, "01")
		c.strIs(sub("@each(q9 in W1){{ q9 }}@end"), map[string]any{w: []int{4, 5}}, "45")
		c.strIs(sub("{{ W1 ? W1 : -W1 }}{{ -W1 }}"), map[string]any{w: 5}, "5-5")
		c.strFails(sub("{{ W1 }}"), nil)
		c.strFails(sub("@if(true){{ W1 = 1 }}@end{{ W1 }}"), nil)
		c.strFails(sub("{{ W1 = 1 }}{{ W1 = 'a' }}"), nil)
		c.strFails(sub("@each(W1 in ['a'])@end"), map[string]any{w: 3})
	})
	addTo("C07", "as an argument and as a slot of a component", func(c *C, w string, sub func(string) string) {
		f := map[string]string{"c": sub("{{ W1 }}<@slot('W1')|@slot>"), "p": sub("@component('c', { W1: 1 })@slot('W1')S@end@end{{ q }}@component('c', { 'W1': 2 })@slot D@end@end")}
		c.mustRender(f, "p", map[string]any{"q": 9}, "1<S|>92<| D>")
		if t, err := c.load(f); err == nil {
			if o := render(t, "p", map[string]any{w: "d", "q": 9}); o.Err != nil || o.S != "1<S|>92<| D>" {
				if w != "q" {
					c.Fail("%s with a variable of the same name gave %s", showFiles(f), o)
				}
			}
		}
	})
	addTo("C06", "as a reserve filled by either form of insert", func(c *C, w string, sub func(string) string) {
		f := map[string]string{"l": sub("<@reserve('W1')|@reserve('W1 2')>"), "p": sub("@use('l')@insert('W1', 5)"), "q": sub("@use('l')@insert('W1')B{{ W1 }}@end@insert('W1 2', W1)")}
		c.mustRender(f, "p", nil, "<5|>")
		c.mustRender(f, "q", map[string]any{w: 8}, "<B8|8>")
	})
	addTo("C12", "as data, as a key of a map and through dot and index", func(c *C, w string, sub func(string) string) {
		d := map[string]any{w: map[string]any{w: []any{map[string]string{w: "s"}, 2}, "k9": 1}, "m": map[string]int{w: 3}}
		if w == "m" {
			delete(d, "m")
			d["m"] = map[string]any{w: []any{map[string]string{w: "s"}, 2}, "k9": 1}
		}
		c.strIs(sub("{{ W1.W1[0].W1 }}{{ W1['W1'][0]['W1'] }}{{ W1.W1[1] }}{{ W1.k9 }}{{ W1['k9'] }}"), d, "ss211")
		if w != "m" {
			c.strIs(sub("{{ m.W1 }}{{ m['W1'] }}"), d, "33")
		}
		c.strFails(sub("{{ W1.W1 }}"), map[string]any{w: map[string]any{"other": 1}})
		c.strFails(sub("{{ W1.W1 }}"), map[string]any{"other": 1})
	})
	addTo("C20", "as a function of every type, with and without arguments, and unknown before that", func(c *C, w string, sub func(string) string) {
		name := fresh20()
		fn := name(w)
		src := strings.NewReplacer("W1", fn).Replace
		for k, recv := range []string{"'s'", "[1]", "1", "1.5", "true"} {
			if builtin20(k, fn) {
				continue
			}
			typ := types20[k]
			c.strFails(src("{{ "+recv+".W1() }}"), nil)
			res := []any{"r", []any{7}, 7, 7.5, true}[k]
			want := []string{"r", "7", "7", "7.5", "1"}[k]
			if err := register20(typ, fn, func(call20) any { return res }); err != nil {
				c.Fail("registering %s of %s: %v", fn, typ, err)
				return
			}
			if register20(typ, fn, func(call20) any { return res }) == nil {
				c.Fail("%s of %s was registered twice", fn, typ)
			}
			c.strIs(src("{{ "+recv+".W1() }}{{ x9.W1(1, 'a') }}"), map[string]any{"x9": []any{"s", []int{1}, 1, 1.5, true}[k]}, want+want)
		}
	})
}

// at-rules, tags of comments, attributes and other template languages
var atWords = strings.Fields(`media import font-face keyframes charset supports layer page namespace property container counter-style viewport -webkit-keyframes tailwind apply
	param return returns throws author see link version since deprecated todo example override var type typedef ts-ignore click submit input keydown.enter change blur update:model
	php endphp extends section yield include stack push csrf method auth guest error lang json verbatim isset empty switch case default unless endif endforeach endfor foreach while
	gmail.com example.org mastodon@social user 42 - _ . / : ( ) [ ] { } \" ' < > & $ % # ! ? * + = ~ ^ | ; , @ @@`)

func init() {
	directives := strings.Fields("if elseif else end each for break breakIf continue continueIf component slot use insert reserve dump")
	var ws []string
	for _, w := range append(append([]string{}, words...), atWords...) {
		ok := true
		for _, d := range directives {
			ok = ok && !strings.HasPrefix(w, d) && !strings.Contains(w, "@"+d)
		}
		if ok {
			ws = append(ws, w)
		}
	}
	around := []string{"@%", "a@%", "@%()", "@%('x')", " @% ", "\n@% { }\n", "<b @%=\"f(1)\">", "{@%}", "\\@%", "@%@%", "@% }} x", "@%@"}
	ck := findCheck("C05")
	ck.Families = append(ck.Families, Family{Name: "words", Space: fmt.Sprintf("%d words that are no directive after an @ (at-rules, addresses, attributes, other template languages) x %d surroundings x {alone, around code, in a block}: text", len(ws), len(around)), Run: func(c *C) {
		w := ws[c.Choose(len(ws))]
		t := strings.ReplaceAll(around[c.Choose(len(around))], "%", w)
		c.Begin(fmt.Sprintf("%q", t))
		c.strIs(t, nil, t)
		c.strIs(t+" {{ 1 }}"+t, nil, t+" 1"+t)
		c.strIs("@if(true)"+t+"@else"+" "+t+"@end"+t, nil, t+t)
		c.strIs("@each(v in [1, 2]) "+t+"\n@end", nil, " "+t+"\n "+t+"\n")
	}})
}
