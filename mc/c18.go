package main

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

func (c *C) newTemplate(cfg *config.Config) (*textwire.Template, error) {
	t, err := textwire.NewTemplate(cfg)
	if err != nil && t != nil {
		c.Fail("NewTemplate returned a template together with the error %v", err)
	}
	if err == nil && t == nil {
		c.Fail("NewTemplate returned neither a template nor an error")
	}
	return t, err
}

// tree puts a whole tree in place: regular files, made afresh
func (w *Worker) tree(dir string, files map[string]string) { w.fs(dir).sync(files) }

var exts18 = []string{".tw.html", ".tw", "tw", ".html", "html", ".txt", ".a", "l", ".t%d", ".T[w]*", "-é", " x", "..tw", ".tw.tw", "_"}

// pool18 are the files of the enumerated trees for an extension
func pool18(e string) (r []string) {
	seen := map[string]bool{}
	add := func(l ...string) {
		for _, n := range l {
			if !seen[n] {
				seen[n] = true
				r = append(r, n)
			}
		}
	}
	add("a"+e, "sub/a"+e, "a"+e+e, "a"+e+"x", "a"+e+".bak", e, "sub/"+e, "x"+e+"/y"+e, "a"+strings.ToUpper(e), "b.txt", "pre"+e+"post"+e, "d/"+e+"/z"+e, e+"z", "sub/deep/er/x"+e, ".hid/x"+e, ".h"+e, "sp ace"+e, "é日本"+e, "a"+e+"~", "[g]*?"+e, "~t"+e, "%d"+e, "sub"+e, "..a"+e, "a..b"+e, "a "+e, "c/p"+e, "c/"+e+"q", "new\nline"+e, "\xff"+e, "back\\slash"+e, "A"+e, "t18"+e, "sub/sub/a"+e)
	if len(e) > 1 {
		add("a" + e[1:])
		add("a" + e[:len(e)-1])
	}
	return
}

// a way to name the directory DIR (three levels deep) of a worker: what to
// change into first, and the spelling from there
type spell18 struct{ cd, as string }

func spells18(base string) []spell18 {
	return []spell18{
		{"", "DIR"}, {"", "DIR/"}, {"", "DIR//"}, {"", "./DIR"}, {"", "DIR/c/.."},
		{"", "DIR/."}, {"", "DIR/../b"}, {"", "DIR/c/../"}, {"", "DIR/c/../../b/"}, {"", "../" + base + "/DIR"}, {"", "./DIR/./"}, {"", "DIR///"}, {"", "DIR/c/.././c/.."},
		{"DIR", "."}, {"DIR", "./"}, {"DIR", "../b"}, {"DIR", "../../a/b/"}, {"DIR", "c/.."}, {"DIR", "./c/../"},
		{"DIR/c", ".."}, {"DIR/c", "../"}, {"DIR/c", "../../b"}, {"DIR/c", "./.."}, {"DIR/c", "..//"}, {"DIR/c", "../../../a/b"},
	}
}

// at18 runs f with the cwd and the spelling
func (c *C) at18(dir string, sp spell18, f func(spelling string)) {
	if err := os.Chdir(filepath.Join(c.w.Scratch, strings.ReplaceAll(sp.cd, "DIR", dir))); err != nil {
		fatal(err)
	}
	defer func() {
		if err := os.Chdir(c.w.Scratch); err != nil {
			fatal(err)
		}
	}()
	f(strings.ReplaceAll(sp.as, "DIR", dir))
}

func extDir(k int) string { return fmt.Sprintf("t18x%d/a/b", k) }

// put18 writes the files of a tree down; every spelling has its directories
func (c *C) put18(dir string, files map[string]string) {
	c.w.tree(dir, files)
	if err := os.MkdirAll(filepath.Join(c.w.Scratch, dir, "c"), 0o755); err != nil {
		fatal(err)
	}
}

// checkNames loads the files with the extension and checks which names there
// are: want maps names to outputs
func (c *C) checkNames(t *textwire.Template, want map[string]string, wrong map[string]bool) {
	var ns []string
	for n := range want {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		c.Traces(1)
		s, err := t.String(n, nil)
		if err != nil {
			c.Fail("template %q: %v", n, err.Error())
		} else if s != want[n] {
			c.Fail("template %q renders %q, must be %q", n, cut(s), want[n])
		} else {
			c.Note("found")
		}
	}
	ns = nil
	for n := range wrong {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if _, ok := want[n]; ok {
			continue
		}
		c.unknown(t, n)
	}
}

func (c *C) unknown(t *textwire.Template, n string) {
	c.Traces(1)
	s, err := t.String(n, nil)
	if err == nil {
		c.Fail("template %q renders %q, there is no such template", n, cut(s))
	} else if s != "" || !strings.Contains(strings.ToLower(err.Message()), "not found") {
		c.Fail("unknown template %q: output %q, error %q is no \"not found\"", n, cut(s), err.Message())
	} else {
		c.Note("not found")
	}
}

// wrongNames adds names close to the file p
func wrongNames(m map[string]bool, dir, p, e string) {
	n := strings.TrimSuffix(p, e)
	for _, x := range []string{p, filepath.Base(p), filepath.Base(n), n + "/", "./" + n, "/" + n, dir + "/" + n, dir + "/" + p, "b/" + n, n + e + e, strings.ToLower(n), strings.ToUpper(n), strings.TrimSuffix(n, e), "sub/" + n, n + ".html", n + ".tw", n + " ", " " + n, "c/../" + n, n + "\x00", strings.TrimPrefix(n, "."), strings.ReplaceAll(n, "/", "\\"), strings.ReplaceAll(n, "/", "."), strings.TrimRight(n, " ."), strings.TrimSpace(n)} {
		m[x] = true
	}
	if i := strings.Index(n, "/"); i >= 0 {
		m[n[i+1:]] = true
		m[n[:i]] = true
	}
	if i := strings.Index(p, e); i >= 0 {
		m[p[:i]] = true
		m[p[:i]+p[i+len(e):]] = true
	}
	if i := strings.LastIndex(n, "."); i >= 0 {
		m[n[:i]] = true
	}
	if i := strings.Index(n, "."); i >= 0 {
		m[n[:i]] = true
	}
	if ab, err := filepath.Abs(filepath.Join(dir, n)); err == nil {
		m[ab] = true
		m[ab+e] = true
	}
}

func (c *C) names18(k int, sp spell18, paths []string) {
	e, dir := exts18[k], extDir(k)
	files := map[string]string{}
	want, wrong := map[string]string{}, map[string]bool{"": true, e: true, "nosuch": true, ".": true, "..": true, "/": true, "c": true, "*": true, "nosuch" + e: true}
	for i, p := range paths {
		if strings.HasSuffix(filepath.Base(p), e) {
			files[p] = fmt.Sprintf("#%d:{{ %d + 1 }}", i, i)
			want[strings.TrimSuffix(p, e)] = fmt.Sprintf("#%d:%d", i, i+1)
		} else {
			files[p] = "{{ syntax ("
		}
		wrongNames(wrong, dir, p, e)
	}
	c.Begin(fmt.Sprintf("extension %q, in %q as %q, files %q", e, sp.cd, sp.as, paths))
	c.put18(dir, files)
	c.at18(dir, sp, func(s string) {
		t, err := c.newTemplate(&config.Config{TemplateDir: s, TemplateExt: e})
		if err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
		c.checkNames(t, want, wrong)
	})
}

// the files of a site with layouts and components, under every kind of
// reference
var linked18 = map[string]string{
	"p": "@use('l')@insert('t', 'T')@insert('b')@component('c', {n: 1})@slot('s')S@end@end@component('n/c')@end", "n/p": "@use('n/l')@insert('b')@component('c', {n: 2})@slot('s')@end@end@end",
	"q": "@use('~m')@insert('b')@component('~k', {n: 3})@end", "n/deep/q": "@use('~n/m')@insert('b', 'x')", "r": "@component('~n/k')@component('c', {n: 4})@slot('s')@component('n/c')@end@end",
	"l": "<@reserve('t')|@reserve('b')>", "n/l": "nl[@reserve('b')]", "layouts/m": "m[@reserve('b')]", "layouts/n/m": "nm[@reserve('b')]",
	"c": "c({{ n }}@slot('s'))", "n/c": "nc()", "components/k": "k{{ n }}", "components/n/k": "nk",
}

var linkedOut18 = map[string]string{"p": "<T|c(1S)nc()>", "n/p": "nl[c(2)]", "q": "m[k3]", "n/deep/q": "nm[x]", "r": "nkc(4nc())", "n/c": "nc()", "components/n/k": "nk"}

var notPages18 = []string{"l", "n/l", "layouts/m", "layouts/n/m", "~m", "m", "k", "~k", "n/m", "deep/q", "c.tw"}

// faulted site

const x18 = ".tw.html"

var site18 = map[string]string{
	"home":         "Home {{ x }}",
	"sub/page":     "@use('frame')@insert('t', 'T')@insert('b')@component('card', {n: x})@slot('s')S@end@end@end",
	"frame":        "<@reserve('t')>@if(x)[@reserve('b')]@end",
	"card":         "({{ n }}@slot('s')@slot)",
	"deep/er/leaf": "@use('deep/shell')\n@insert('b')@component('deep/bit')@end",
	"deep/shell":   "|@reserve('b')\n|",
	"deep/bit":     "bit{{ 1 }}",
	"spare":        "spare {{ 1 + 1 }}",
	"zed":          "@component('card', {n: 1})@slot('s')\nz\n@end@slot Y@end@end",
}

var out18 = map[string]string{"home": "Home 5", "sub/page": "<T>[(5S)]", "deep/er/leaf": "|bit1\n|", "deep/bit": "bit1", "spare": "spare 2", "zed": "(1\nz\n Y)"}

var roles18 = []string{"home", "sub/page", "frame", "card", "deep/er/leaf", "deep/shell", "deep/bit", "spare", "zed"}

// users18 are the pages that need a layout or component
var users18 = map[string][]string{"frame": {"sub/page"}, "card": {"sub/page", "zed"}, "deep/shell": {"deep/er/leaf"}, "deep/bit": {"deep/er/leaf"}}

var need18 = regexp.MustCompile(`@(?:reserve|slot)(?:\('\w+'\))?`)

func data18() map[string]any { return map[string]any{"x": 5} }

const dir18 = "f18/in/ner"

func abs18(c *C, role string) string { return filepath.Join(c.w.Scratch, dir18, role+x18) }

// heal18 puts the healthy site in place, whatever was there before
func (c *C) heal18(roles ...string) {
	for _, r := range roles {
		p := abs18(c, r)
		if fi, err := os.Lstat(p); err != nil || !fi.Mode().IsRegular() {
			if err == nil {
				os.RemoveAll(p)
			}
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(p, []byte(site18[r]), 0o644); err != nil {
			fatal(err)
		}
		sameTime(p)
	}
}

func (c *C) start18() {
	if !c.w.ready18 {
		if err := os.RemoveAll(filepath.Join(c.w.Scratch, "f18")); err != nil {
			fatal(err)
		}
		c.heal18(roles18...)
		c.w.ready18 = true
	}
}

func (c *C) load18() (*textwire.Template, error) {
	return c.newTemplate(&config.Config{TemplateDir: dir18, TemplateExt: x18})
}

// pages18 checks the renders of all pages but those in bad
func (c *C) pages18(t *textwire.Template, bad map[string]bool) {
	for _, n := range roles18 {
		want, ok := out18[n]
		if !ok || bad[n] {
			continue
		}
		s, err := t.String(n, data18())
		if err != nil {
			c.Fail("template %q: %v", n, err.Error())
		} else if s != want {
			c.Fail("template %q renders %q, must be %q", n, cut(s), want)
		}
	}
	for _, n := range []string{"frame", "deep/shell"} {
		if !bad[n] {
			c.unknown(t, n)
		}
	}
}

// identifies reports whether the error names one of the files: by path where
// the file is there, by name or path where it is absent
func identifies(err error, files map[string]bool) bool {
	for n, there := range files {
		if strings.Contains(err.Error(), n+x18) || !there && strings.Contains(err.Error(), n) {
			return true
		}
	}
	return false
}

type fault18 struct {
	name   string
	absent bool   // the file is not there
	write  string // content, with set
	set    bool
	apply  func(p string) error
}

var faults18 = func() []fault18 {
	l := []fault18{
		{name: "deleted", absent: true, apply: func(p string) error { return nil }},
		{name: "a directory", absent: true, apply: func(p string) error { return os.Mkdir(p, 0o755) }},
		{name: "a directory with a file", absent: true, apply: func(p string) error {
			if err := os.Mkdir(p, 0o755); err != nil {
				return err
			}
			return os.WriteFile(filepath.Join(p, "in"), nil, 0o644)
		}},
		{name: "a dangling symlink", apply: func(p string) error { return os.Symlink("nowhere", p) }},
		{name: "a dangling symlink out of the tree", apply: func(p string) error { return os.Symlink("/nonexistent/x", p) }},
		{name: "a symlink to itself", apply: func(p string) error { return os.Symlink(filepath.Base(p), p) }},
		{name: "a symlink below a file", apply: func(p string) error { return os.Symlink("/dev/null/x", p) }},
		{name: "a symlink with a name that is too long", apply: func(p string) error { return os.Symlink(strings.Repeat("n", 300), p) }},
	}
	for _, s := range []string{"{{ # }}", "{{", "{{ 1", "{{ (1 }}", "@if(", "@if(true)", "@each(x in [1])", "@for(i = 0; i < 1; i++)", "x\n@if(true)\n{{ 1 }", "{{ }}", "{{ 1 2 }}", "@insert('a')", "@component('", "{{ 'x", "{{-- never closed", "@slot('x", "@if()@end", "\x00{{ \x00 }}", "\xff\xfe{\x00{\x00{{ \xff }}", "\x89PNG\r\n\x1a\n\x00{{", "{{ é }}", "PK\x03\x04{{ $ }}", "\x1f\x8b\x08{{ \x01\x02 }}", strings.Repeat("{{ 1 }}", 50) + "{{ ; }}", strings.Repeat("x", 70000) + "{{ # }}"} {
		l = append(l, fault18{name: fmt.Sprintf("content %q", cut(s)), write: s, set: true})
	}
	return l
}()

func (c *C) apply18(role string, f fault18) {
	p := abs18(c, role)
	if f.set {
		if err := os.WriteFile(p, []byte(f.write), 0o644); err != nil {
			fatal(err)
		}
		sameTime(p)
		return
	}
	if err := os.Remove(p); err != nil {
		fatal(err)
	}
	if err := f.apply(p); err != nil {
		fatal(err)
	}
}

// verdict18 checks the load of the site with faulty files
func (c *C) verdict18(bad map[string]fault18) {
	t, err := c.load18()
	errs := map[string]bool{}
	gone, touched := map[string]bool{}, map[string]bool{}
	for r, f := range bad {
		touched[r] = true
		for _, u := range users18[r] {
			touched[u] = true
		}
		if f.absent {
			gone[r] = true
		} else {
			errs[r] = true
		}
	}
	for r := range gone {
		for _, u := range users18[r] {
			if !gone[u] {
				errs[r] = false // absent, and needed
			}
		}
	}
	if len(errs) == 0 {
		if err != nil {
			c.Fail("loading failed: %v", err)
			return
		}
		c.Note("loaded")
		for r := range gone {
			c.unknown(t, r)
		}
		c.pages18(t, gone)
		return
	}
	if err == nil {
		c.Fail("loaded without an error")
		return
	}
	c.Note("refused")
	if !identifies(err, errs) {
		c.Fail("error %q identifies none of the faulty files", err)
	}
}

// content18 checks the load of the site with one file of another content.
// exact: the content is a prefix of a good file, all of its parts are known.
func (c *C) content18(role, s string, exact bool) {
	p := abs18(c, role)
	defer c.heal18(role)
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		fatal(err)
	}
	sameTime(p)
	rej := c.parseVerdict(s)
	t, err := c.load18()
	if rej {
		if err == nil {
			c.Fail("loaded although %s is wrong", role)
		} else if !strings.Contains(err.Error(), role+x18) {
			c.Fail("error %q does not identify %s", err, role)
		}
		return
	}
	lost := false
	if exact {
		for _, d := range need18.FindAllString(site18[role], -1) {
			lost = lost || !strings.Contains(strings.ReplaceAll(s, d+"(", ""), d)
		}
	}
	lost = lost && len(users18[role]) > 0
	if err != nil {
		if exact && !lost {
			c.Fail("loading failed: %v", err)
			return
		}
		ok := strings.Contains(err.Error(), role+x18)
		for _, u := range users18[role] {
			ok = ok || strings.Contains(err.Error(), u+x18)
		}
		if !ok {
			c.Fail("error %q identifies neither %s nor a file that uses it", err, role)
		}
		return
	}
	if exact && lost {
		c.Fail("loaded although %s lost a part that is used", role)
		return
	}
	touched := map[string]bool{role: true}
	for _, u := range users18[role] {
		touched[u] = true
	}
	c.pages18(t, touched)
	if !strings.Contains(s, "@") && len(users18[role]) == 0 {
		same18(c, evalString(s, data18()), render(t, role, data18()))
	}
}

// same18 compares the results of a string and of a file: output, line and
// message
func same18(c *C, want, got out) {
	if (want.Err == nil) != (got.Err == nil) || want.S != got.S {
		c.Fail("as a string: %q, %v; from the file: %q, %v", cut(want.S), want.Err, cut(got.S), got.Err)
		return
	}
	if want.Err == nil {
		c.Note("same output")
		return
	}
	c.Note("same error")
	_, l1, m1, ok1 := errParts(want.Err)
	_, l2, m2, ok2 := errParts(got.Err)
	if !ok1 || !ok2 || l1 != l2 || m1 != m2 {
		c.Fail("as a string: error %q; from the file: error %q", want.Err, got.Err)
	}
}

// as18 makes every thread of the process one of another user for its file
// accesses
func as18(uid int, f func()) {
	set := func(id int) { syscall.AllThreadsSyscall(syscall.SYS_SETFSUID, uintptr(id), 0, 0) }
	set(uid)
	defer set(0)
	f()
}

const file18 = "file18"

// evalFile writes a file and evaluates it
func (c *C) evalFile(name, content string, data func() map[string]any) {
	p := filepath.Join(c.w.Scratch, file18, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		fatal(err)
	}
	sameTime(p)
	c.sameFile(p, content, data)
}

func (c *C) sameFile(p, content string, data func() map[string]any) {
	want := evalString(content, data())
	s, err := textwire.EvaluateFile(p, data())
	same18(c, want, out{s, err})
	if b, err := os.ReadFile(p); err != nil || string(b) != content {
		c.Fail("the file is changed: %q, %v", cut(string(b)), err)
	}
}

func (c *C) noFile(p string) {
	s, err := textwire.EvaluateFile(p, data18())
	if err == nil || s != "" {
		c.Fail("EvaluateFile(%q) returned %q, %v", p, cut(s), err)
	} else if !strings.Contains(err.Error(), p) {
		c.Fail("error %q does not identify the file", err)
	} else {
		c.Note("no file")
	}
}

// a configuration of a process of its own
type conf18 struct {
	nilCfg   bool
	dir, ext string
	before   int // 1: EvaluateString first, 2: EvaluateFile first
}

func init() {
	helpers["c18"] = func(a map[string]string) {
		if err := os.Chdir(a["cd"]); err != nil {
			fatal(err)
		}
		switch a["before"] {
		case "1":
			textwire.EvaluateString("{{ 1 }}", nil)
		case "2":
			p, _ := filepath.Abs("views/p.tw")
			textwire.EvaluateFile(p, nil)
		}
		var cfg *config.Config
		if a["nil"] == "" {
			cfg = &config.Config{TemplateDir: a["dir"], TemplateExt: a["ext"]}
		}
		t, err := textwire.NewTemplate(cfg)
		res := map[string]string{}
		if err != nil {
			res["error"] = err.Error()
		} else {
			for _, n := range []string{"p", "q", "n/p", "p.tw", "p.tw.html"} {
				s, err := t.String(n, nil)
				if err == nil {
					res[n] = s
				}
			}
		}
		json.NewEncoder(os.Stdout).Encode(res)
	}
	bytes18 := []string{"{", "}", "@", "\\", "'", "\"", "(", ")", "\n", "\r", "\x00", "\xef\xbb\xbf", "\xff", "é", " ", "\t", "-", "a", "1", "<", "&", "%", "x", "@end", "@if(x)", "{{ x }}", "{{-- ", "--}}"}

	checks = append(checks, &Check{ID: "C18",
		Assumptions: []string{
			"template directories are relative paths without symlinked parts (a leading slash is dropped by Configure; the statement lists nesting, trailing slashes and parent segments)",
			"an error identifies a file that is there by its path below the template directory with the extension, and an absent one by path or name",
			"a page that is deleted or replaced by a directory is no error by itself: nothing refers to it",
			"whether source text is syntactically wrong is decided by the parser itself (C08 checks its verdicts)",
			"unreadable files are made with another file system user id of the checking process",
		},
		Families: []Family{
			{Name: "names", Space: fmt.Sprintf("all sets of at most 2 (thorough: 3) files out of a pool of about 36 (nested, hidden, extension inside the name / as the whole name / doubled / in a directory name / in upper case / with text after it, blanks, glob, percent, non-ASCII and non-UTF-8 names) x %d extensions x 5 (thorough for pairs: 25) pairs of working directory and spelling: exactly the files that end in the extension are registered, each under its relative name, and every other name made from the paths is not found", len(exts18)), Run: func(c *C) {
				k := c.Choose(len(exts18))
				pool := pool18(exts18[k])
				sps := spells18(filepath.Base(c.w.Scratch))
				n := c.Choose(3 + b2i(c.Thorough))
				var sp spell18
				if c.Thorough && n < 3 {
					sp = sps[c.Choose(len(sps))]
				} else {
					sp = sps[[]int{0, 2, 4, 13, 20}[c.Choose(5-2*b2i(n == 3))]]
				}
				var paths []string
				at := 0
				for i := 0; i < n; i++ {
					if at >= len(pool) {
						c.Skip()
					}
					at += c.Choose(len(pool) - at)
					paths = append(paths, pool[at])
					at++
				}
				c.names18(k, sp, paths)
			}},
			{Name: "spellings", Space: fmt.Sprintf("%d extensions x 25 pairs of working directory and spelling (trailing and doubled slashes, dot and parent segments, from inside and below the directory) x {every single file of the pool, the whole pool, the whole pool but one}", len(exts18)), Run: func(c *C) {
				k := c.Choose(len(exts18))
				pool := pool18(exts18[k])
				sps := spells18(filepath.Base(c.w.Scratch))
				sp := sps[c.Choose(len(sps))]
				i := c.Choose(2*len(pool) + 1)
				switch {
				case i < len(pool):
					pool = pool[i : i+1]
				case i < 2*len(pool):
					pool = append(append([]string(nil), pool[:i-len(pool)]...), pool[i-len(pool)+1:]...)
				}
				c.names18(k, sp, pool)
			}},
			{Name: "references", Space: fmt.Sprintf("a site with layouts and components at several depths and behind the ~ alias, under %d extensions x 25 pairs of working directory and spelling: pages render, layouts are not found, components are found; with every subset of at most 2 of its 13 files missing: loading fails exactly where a page needs one of them, and names it", len(exts18)), Run: func(c *C) {
				k := c.Choose(len(exts18))
				e, dir := exts18[k], fmt.Sprintf("r18x%d/a/b", k)
				sps := spells18(filepath.Base(c.w.Scratch))
				sp := sps[c.Choose(len(sps))]
				var ns []string
				for n := range linked18 {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				gone := map[string]bool{}
				max := 2
				if !c.Thorough && (k > 1 || sp != sps[0] && sp != sps[20]) {
					max = 1
				}
				at := 0
				for i := c.Choose(max + 1); i > 0; i-- {
					if at >= len(ns) {
						c.Skip()
					}
					at += c.Choose(len(ns) - at)
					gone[ns[at]] = true
					at++
				}
				files := map[string]string{"not" + e + ".bak": "{{ ("}
				for n, s := range linked18 {
					if !gone[n] {
						files[n+e] = s
					}
				}
				c.Begin(fmt.Sprintf("extension %q, in %q as %q, without %v", e, sp.cd, sp.as, gone))
				c.put18(dir, files)
				if strings.HasSuffix("not"+e+".bak", e) {
					c.Skip()
				}
				missing := map[string]bool{}
				refs := regexp.MustCompile(`@(use|component)\('(~?)([\w/]+)'`)
				for n, s := range linked18 {
					if gone[n] {
						continue
					}
					for _, m := range refs.FindAllStringSubmatch(s, -1) {
						r := m[3]
						if m[2] != "" {
							r = map[string]string{"use": "layouts/", "component": "components/"}[m[1]] + r
						}
						if linked18[r] == "" {
							fatal("no", r)
						}
						if gone[r] {
							missing[r] = true
						}
					}
				}
				c.at18(dir, sp, func(s string) {
					t, err := c.newTemplate(&config.Config{TemplateDir: s, TemplateExt: e})
					if len(missing) > 0 {
						if err == nil {
							c.Fail("loaded although %v is missing", missing)
							return
						}
						c.Note("refused")
						for m := range missing {
							if strings.Contains(err.Error(), m) {
								return
							}
						}
						c.Fail("error %q names none of the missing %v", err, missing)
						return
					}
					if err != nil {
						c.Fail("loading failed: %v", err)
						return
					}
					want, wrong := map[string]string{}, map[string]bool{}
					for n, o := range linkedOut18 {
						if !gone[n] {
							want[n] = o
						} else {
							wrong[n] = true
						}
					}
					for _, n := range notPages18 {
						wrong[n] = true
					}
					c.checkNames(t, want, wrong)
				})
			}},
			{Name: "layouts", Space: "every context of @reserve (top level, at the start or end, several, in @if/@elseif/@else/@each/@for and their @else, nested, on an own line) and of text that is none (escaped, in a comment, in a string, without @, after a backslash, as a part of a word), in a file at 3 depths, used or not used by a page: a file is renderable exactly if it declares no reserve", Run: func(c *C) {
				type lay struct {
					src   string
					page  bool
					shows string
				}
				ls := []lay{}
				for _, w := range []string{"%s", "%stext", "text%s", "a\n%s\nb", "@if(true)%s@end", "@if(false)%s@end", "@if(true)a@else%s@end", "@if(false)a@elseif(false)%s@else b@end", "@each(i in [1])%s@end", "@each(i in [])%s@end", "@each(i in [])a@else%s@end", "@for(i = 0; i < 1; i++)%s@end", "@for(i = 0; i < 0; i++)a@else%s@end", "@if(true)@each(i in [1])@if(i)%s@end@end@end", "{{ 1 }}%s{{ 2 }}", "{{-- c --}}%s", "\\@if(x)%s", "@if(true)%s", "%s@reserve('other')", "@reserve('other')@if(1)%s@end"} {
					if w == "@if(true)%s" {
						continue
					}
					ls = append(ls, lay{strings.Replace(w, "%s", "@reserve('t')", 1), false, ""})
					ls = append(ls, lay{strings.Replace(w, "%s", "@reserve(\n\"t\"\n)", 1), false, ""})
				}
				ls = append(ls, lay{"{{-- @reserve('t') --}}x", true, "x"}, lay{"\\@reserve('t')", true, "@reserve('t')"}, lay{"{{ \"@reserve('t')\" }}", true, "@reserve('t')"}, lay{"reserve('t')", true, "reserve('t')"}, lay{"@Reserve('t')", true, "@Reserve('t')"}, lay{"@ reserve('t')", true, "@ reserve('t')"}, lay{"@reserv", true, "@reserv"}, lay{"", true, ""}, lay{"@slot('t')", true, ""}, lay{"{{ reserve = 1 }}{{ reserve }}", true, "1"})
				l := ls[c.Choose(len(ls))]
				name := []string{"lay", "a/lay", "a/b/c/lay"}[c.Choose(3)]
				used := c.Bool()
				files := map[string]string{name: l.src, "p": "page", "a/p": "page"}
				if used {
					files["p"] = "@use('" + name + "')"
					if !l.page {
						files["p"] += "@insert('t', 'x')"
					}
				}
				c.Begin(showFiles(files))
				t, err := c.load(files)
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				if !l.page {
					c.unknown(t, name)
				} else if s, err := t.String(name, nil); err != nil || html.UnescapeString(s) != l.shows {
					if strings.Contains(l.src, "@slot") {
						c.Note("unspecified")
					} else {
						c.Fail("%s renders %q, %v, must be %q", name, s, err, l.shows)
					}
				}
				if s, err := t.String("a/p", nil); err != nil || s != "page" {
					c.Fail("a/p renders %q, %v", s, err)
				}
				if _, err := t.String("p", nil); err != nil && !used {
					c.Fail("p: %v", err)
				}
			}},
			{Name: "faults", Space: fmt.Sprintf("a site of 9 files (pages, layouts, components, nested and not, a component that nobody uses) x every file x %d faults (deleted, directory in its place, dangling and looping symlinks, broken content); the same for every pair of files with every pair of the first 12 faults (thorough: all faults); then healed: the load before and the load after work, the failing one returns nil and identifies a faulty file", len(faults18)), Run: func(c *C) {
				i := c.Choose(len(roles18))
				j := i + c.Choose(len(roles18)-i)
				n := len(faults18)
				if j != i && !c.Thorough {
					n = 12
				}
				bad := map[string]fault18{roles18[i]: faults18[c.Choose(n)]}
				if j != i {
					bad[roles18[j]] = faults18[c.Choose(n)]
				}
				desc := ""
				for r, f := range bad {
					desc += fmt.Sprintf("%s is %s ", r, f.name)
				}
				c.Begin(desc)
				c.start18()
				for r, f := range bad {
					if f.set && !c.parseVerdict(f.write) {
						fatal("no fault:", f.write)
					}
					c.apply18(r, f)
				}
				defer c.heal18(roles18[i], roles18[j])
				c.verdict18(bad)
				c.heal18(roles18[i], roles18[j])
				if t, err := c.load18(); err != nil {
					c.Fail("loading the healed site failed: %v", err)
				} else {
					c.pages18(t, nil)
				}
			}},
			{Name: "unreadable", Space: "every file, and every directory, of the site without the permission to read it, for a process of another user", Run: func(c *C) {
				i := c.Choose(len(roles18) + 3)
				c.start18()
				p, word := "", ""
				if i < len(roles18) {
					p, word = abs18(c, roles18[i]), roles18[i]+x18
				} else {
					word = []string{"sub", "deep", "deep/er"}[i-len(roles18)]
					p = filepath.Join(c.w.Scratch, dir18, word)
				}
				c.Begin("unreadable " + word)
				// the way to the files
				for d := filepath.Join(c.w.Scratch, dir18); len(d) > 1; d = filepath.Dir(d) {
					if fi, err := os.Stat(d); err == nil && fi.Mode().Perm()&0o005 != 0o005 {
						if !strings.HasPrefix(d, c.w.Scratch) && d != filepath.Dir(c.w.Scratch) {
							break
						}
						os.Chmod(d, fi.Mode().Perm()|0o005)
					}
				}
				fi, err := os.Stat(p)
				if err != nil {
					fatal(err)
				}
				os.Chmod(p, 0)
				defer os.Chmod(p, fi.Mode().Perm())
				var t *textwire.Template
				works := false
				as18(65534, func() {
					if _, e := os.ReadDir(filepath.Join(c.w.Scratch, dir18)); e != nil {
						return // not the way it is meant to be
					}
					if fi.IsDir() {
						_, e := os.ReadDir(p)
						works = e != nil
					} else {
						_, e := os.ReadFile(p)
						works = e != nil
					}
					if works {
						t, err = c.newTemplate(&config.Config{TemplateDir: dir18, TemplateExt: x18})
					}
				})
				if !works {
					c.Note("no file permissions here")
					c.Skip()
				}
				if err == nil {
					c.Fail("loaded, %v", t)
				} else if !strings.Contains(err.Error(), word) {
					c.Fail("error %q does not identify %s", err, word)
				} else {
					c.Note("refused")
				}
				os.Chmod(p, fi.Mode().Perm())
				if t, err := c.load18(); err != nil {
					c.Fail("loading the readable site failed: %v", err)
				} else {
					c.pages18(t, nil)
				}
			}},
			{Name: "truncated", Space: "every file of the site cut at every byte: refused with its path where the rest is no template, or where a part is lost that a page uses; otherwise loaded, with the other pages as before", Run: func(c *C) {
				r := roles18[c.Choose(len(roles18))]
				n := c.Choose(len(site18[r]))
				c.Begin(fmt.Sprintf("%s cut to %q", r, site18[r][:n]))
				c.start18()
				c.content18(r, site18[r][:n], true)
			}},
			{Name: "edited", Space: "every file of the site with one byte sequence out of 28 inserted at, or replacing the byte at, every offset, and with every byte removed (thorough: with all pairs of inserted sequences)", Run: func(c *C) {
				r := roles18[c.Choose(len(roles18))]
				s := site18[r]
				n := c.Choose(len(s) + 1)
				m := c.Choose(2)
				k := c.Choose(len(bytes18) + 1)
				ins := ""
				if k > 0 {
					ins = bytes18[k-1]
					if c.Thorough {
						if k := c.Choose(len(bytes18) + 1); k > 0 {
							ins += bytes18[k-1]
						}
					}
				}
				if n+m > len(s) || m == 0 && ins == "" {
					c.Skip()
				}
				s = s[:n] + ins + s[n+m:]
				c.Begin(fmt.Sprintf("%s is %q", r, s))
				c.start18()
				c.content18(r, s, false)
			}},
			{Name: "histories", Space: "all sequences of 3 (thorough: 4) operations out of {delete, directory, dangling symlink, break one of 5 files; heal one of them}, a load after each; the templates of the first load keep rendering", Run: func(c *C) {
				rs := []string{"home", "sub/page", "frame", "card", "zed"}
				fs := []fault18{faults18[0], faults18[1], faults18[3], faults18[8]}
				type op struct{ r, f int }
				var ops []op
				desc := ""
				for i := 3 + b2i(c.Thorough); i > 0; i-- {
					o := op{c.Choose(len(rs)), c.Choose(len(fs)+1) - 1}
					ops = append(ops, o)
					if o.f < 0 {
						desc += "heal " + rs[o.r] + "; "
					} else {
						desc += rs[o.r] + " is " + fs[o.f].name + "; "
					}
				}
				c.Begin(desc)
				c.start18()
				defer c.heal18(rs...)
				first, err := c.load18()
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				bad := map[string]fault18{}
				for _, o := range ops {
					c.heal18(rs[o.r])
					delete(bad, rs[o.r])
					if o.f >= 0 {
						c.apply18(rs[o.r], fs[o.f])
						bad[rs[o.r]] = fs[o.f]
					}
					c.Traces(1)
					c.verdict18(bad)
					c.pages18(first, nil)
				}
			}},
			{Name: "webs", Space: "3 files, each with an optional @use of and an optional @component of one of the files or of a missing one, a reserve or not, a slot or not (all combinations of two files; of three files without reserves and slots; thorough: all): loading returns a template or an error and, where a name is missing, an error; nothing panics or hangs when the pages render", Run: func(c *C) {
				ns := []string{"a", "d/b", "nope"}
				n := 2
				if c.Bool() {
					ns, n = []string{"a", "d/b", "e", "nope"}, 3
				}
				files := map[string]string{}
				missing := false
				for i := 0; i < n; i++ {
					s := ""
					if k := c.Choose(len(ns) + 1); k > 0 {
						s += "@use('" + ns[k-1] + "')"
						missing = missing || k == len(ns)
					}
					if k := c.Choose(len(ns) + 1); k > 0 {
						s += "@component('" + ns[k-1] + "')"
						missing = missing || k == len(ns)
					}
					if n == 2 || c.Thorough {
						s += []string{"", "@reserve('r')"}[c.Choose(2)]
						if n == 2 {
							s += []string{"", "@slot('s')"}[c.Choose(2)] + []string{"", "@insert('r', 'x')"}[c.Choose(2)]
						}
					}
					files[ns[i]] = s + "."
				}
				c.Begin(showFiles(files))
				t, err := c.load(files)
				if missing && err == nil {
					c.Fail("loaded although 'nope' is missing")
				}
				if err != nil {
					c.Note("refused")
					if len(err.Error()) == 0 {
						c.Fail("empty error")
					}
					return
				}
				c.Note("loaded")
				for i := 0; i < n; i++ {
					t.String(ns[i], nil)
				}
			}},
			{Name: "directory", Space: "a template directory that is missing, empty, only has other files, only has empty directories, has a missing parent; each before and after a load that works", Run: func(c *C) {
				k := c.Choose(6)
				after := c.Bool()
				c.Begin(fmt.Sprint("directory ", k, " after a load ", after))
				if after {
					if _, err := c.load(map[string]string{"p": "x"}); err != nil {
						c.Fail("loading failed: %v", err)
					}
				}
				d := []string{"nosuch18", "e18/empty", "e18/other", "e18/dirs", "nosuch18/../nosuch18", "nosuch18/x/y/"}[k]
				for _, x := range []string{"e18/empty", "e18/other", "e18/dirs/x.tw.html/y"} {
					if err := os.MkdirAll(x, 0o755); err != nil {
						fatal(err)
					}
				}
				os.WriteFile("e18/other/x.html", []byte("{{"), 0o644)
				t, err := c.newTemplate(&config.Config{TemplateDir: d, TemplateExt: x18})
				if k == 0 || k > 3 {
					if err == nil {
						c.Fail("loaded from a missing directory")
					} else if !strings.Contains(err.Error(), "nosuch18") {
						c.Fail("error %q does not identify the directory", err)
					}
					return
				}
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				for _, n := range []string{"p", "", "x", "x.tw.html", "x.tw.html/y", "y"} {
					c.unknown(t, n)
				}
			}},
			{Name: "symlinks", Space: "a page, layout or component that is a symlink to a file in or out of the directory, to one with another extension, to another symlink: like a file with that content", Run: func(c *C) {
				role := c.Choose(3)
				k := c.Choose(5)
				dir := filepath.Join(c.w.Scratch, "s18")
				os.RemoveAll(dir)
				defer os.RemoveAll(dir)
				os.MkdirAll(filepath.Join(dir, "t/sub"), 0o755)
				put := func(n, s string) {
					if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
						fatal(err)
					}
				}
				link := func(to, n string) {
					if err := os.Symlink(to, filepath.Join(dir, n)); err != nil {
						fatal(err)
					}
				}
				n := []string{"p", "sub/l", "sub/c"}[role]
				files := map[string]string{"p": "@use('sub/l')@insert('a')@component('sub/c')@end", "sub/l": "<@reserve('a')>", "sub/c": "c"}
				real := []string{"t/real" + x18, "out" + x18, "t/x.txt", "t/x.txt", "t/sub/real.bak"}[k]
				for f, s := range files {
					if f == n {
						put(real, s)
					} else {
						put("t/"+f+x18, s)
					}
				}
				to := filepath.Join(dir, real)
				if k == 3 {
					link(to, "t/second")
					to = filepath.Join(dir, "t/second")
				}
				if r, err := filepath.Rel(filepath.Join(dir, "t", filepath.Dir(n)), to); err == nil && k != 4 {
					to = r
				}
				link(to, "t/"+n+x18)
				c.Begin(fmt.Sprintf("%s is a symlink to %s", n, to))
				t, err := c.newTemplate(&config.Config{TemplateDir: "s18/t", TemplateExt: x18})
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				want := map[string]string{"p": "<c>", "sub/c": "c"}
				if k == 0 && role != 1 {
					want["real"] = want[n]
				}
				c.checkNames(t, want, map[string]bool{"sub/l": true, "x": true, "second": true, "sub/real": true})
			}},
			{Name: "ladder", Space: "n = 1..60, 100, 200, 500, 1000 levels of directories, files in one directory, or bytes of a file name (up to 240), of the extension or of a directory name, for a page with a layout and a component at that place; and a fault in the last file", Run: func(c *C) {
				ns := []int{100, 200, 500, 1000}
				i := c.Choose(60 + len(ns))
				n := i + 1
				if i >= 60 {
					n = ns[i-60]
				}
				how := c.Choose(5)
				broken := c.Choose(4)
				if how != 1 && n > 200 || how == 0 && n > 100 && !c.Thorough {
					c.Skip()
				}
				dir := filepath.Join(c.w.Scratch, "l18")
				defer os.RemoveAll(dir)
				os.RemoveAll(dir)
				ext, pre, top := ".tw", "", "t"
				files := map[string]string{}
				switch how {
				case 0:
					pre = strings.Repeat("d/", n)
				case 1:
					for i := 0; i < n; i++ {
						files[fmt.Sprintf("f%04d", i)] = fmt.Sprintf("{{ %d }}", i)
					}
				case 2:
					pre = "sub/" + strings.Repeat("n", n)
				case 3:
					ext = "." + strings.Repeat("e", n)
				case 4:
					top = strings.Repeat("t", n)
				}
				roles := []string{"p", "l", "c"}
				srcs := []string{"@use('" + pre + "l')@insert('a')@component('" + pre + "c')@end", "<@reserve('a')>", "c"}
				for i, r := range roles {
					if i+1 == broken {
						srcs[i] += "{{ # }}"
					}
					files[pre+r] = srcs[i]
				}
				for f, s := range files {
					p := filepath.Join(dir, top, f+ext)
					if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
						fatal(err)
					}
					if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
						fatal(err)
					}
				}
				c.Begin(fmt.Sprintf("%d (%d), broken %d", n, how, broken))
				t, err := c.newTemplate(&config.Config{TemplateDir: "l18/" + top, TemplateExt: ext})
				if broken > 0 {
					if err == nil {
						c.Fail("loaded")
					} else if !strings.Contains(err.Error(), pre+roles[broken-1]+ext) {
						c.Fail("error %q does not identify %s", err, pre+roles[broken-1]+ext)
					}
					return
				}
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				want := map[string]string{pre + "p": "<c>", pre + "c": "c"}
				if how == 1 {
					for i := 0; i < n; i++ {
						want[fmt.Sprintf("f%04d", i)] = fmt.Sprint(i)
					}
				}
				wrong := map[string]bool{pre + "l": true, "f": true}
				if how == 0 {
					wrong["d/"+pre+"p"], wrong[strings.TrimSuffix(pre, "d/")+"p"] = true, true
				}
				c.checkNames(t, want, wrong)
			}},
			{Name: "defaults", Space: "the first load of a process (nil, empty, only a directory, only an extension, both; 3 directories x 2 extensions), as the first call or after EvaluateString or EvaluateFile: the directory \"templates\" and the extension \".tw.html\" are used where none is given", Run: func(c *C) {
				cf := conf18{dir: []string{"", "views", "./templates/n/"}[c.Choose(3)], ext: []string{"", ".tw", ".html"}[c.Choose(3)], before: c.Choose(3)}
				if cf.dir == "" && cf.ext == "" {
					cf.nilCfg = c.Bool()
				}
				c.w.tree("d18", map[string]string{"templates/p.tw.html": "TH", "templates/p.tw": "TT", "templates/n/p.tw.html": "NTH", "templates/n/p.tw": "NT", "views/p.tw.html": "VTH", "views/p.tw": "VT", "views/n/p.tw": "VNT", "p.tw.html": "{{"})
				c.Begin(fmt.Sprintf("%+v", cf))
				d, e := filepath.Clean(cf.dir), cf.ext
				if cf.dir == "" {
					d = "templates"
				}
				if e == "" {
					e = ".tw.html"
				}
				all := map[string]string{}
				for n, s := range c.w.fs("d18").cur {
					if r, err := filepath.Rel(d, n); err == nil && !strings.HasPrefix(r, "..") && strings.HasSuffix(r, e) {
						all[strings.TrimSuffix(r, e)] = s
					}
				}
				want := map[string]string{}
				for _, n := range []string{"p", "q", "n/p", "p.tw", "p.tw.html"} {
					if s, ok := all[n]; ok {
						want[n] = s
					}
				}
				exe, err := os.Executable()
				if err != nil {
					fatal(err)
				}
				args := []string{"helper", "c18", "-cd", filepath.Join(c.w.Scratch, "d18"), "-dir", cf.dir, "-ext", cf.ext, "-before", fmt.Sprint(cf.before)}
				if cf.nilCfg {
					args = append(args, "-nil", "1")
				}
				o, err := exec.Command(exe, args...).Output()
				got := map[string]string{}
				if err != nil || json.Unmarshal(o, &got) != nil {
					c.Fail("the process failed: %v %q", err, o)
					return
				}
				c.Note(fmt.Sprint(len(got), " templates"))
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fail("templates %v, must be %v", got, want)
				}
			}},
			{Name: "file constructs", Space: fmt.Sprintf("%d sources (every construct, operator, built-in, directive and kind of error) x {as they are, with CRLF line ends, with a BOM, after two lines, before a line} x 2 data x {before, after a load, after a failing load}: EvaluateFile equals EvaluateString of the content", len(sources15())), Setup: func(w *Worker) { funcs15() }, Run: func(c *C) {
				s := sources15()[c.Choose(len(sources15()))]
				switch c.Choose(5) {
				case 1:
					if !strings.Contains(s, "\n") {
						c.Skip()
					}
					s = strings.ReplaceAll(s, "\n", "\r\n")
				case 2:
					s = "\xef\xbb\xbf" + s
				case 3:
					s = "a\n\n" + s
				case 4:
					s += "\n"
				}
				x := c.Choose(2)
				st := c.Choose(3)
				c.Begin(fmt.Sprintf("%q with data %d, state %d", s, x, st))
				switch st {
				case 1:
					c.load(map[string]string{"p": "x"})
				case 2:
					c.load(map[string]string{"p": "{{"})
				}
				c.evalFile("f.tw.html", s, func() map[string]any { return data15(x) })
			}},
			{Name: "file bytes", Space: fmt.Sprintf("every byte alone and inside of \"{{ x}}\", all sequences of at most 2 (thorough: 3) of %d lexemes, all sequences of 3 (thorough: 4) of %d byte sequences: EvaluateFile equals EvaluateString of the content", len(allLexemes), len(bytes18)), Run: func(c *C) {
				s := ""
				switch c.Choose(3) {
				case 0:
					s = []string{"", "{{ x", "{{ '"}[c.Choose(3)] + string([]byte{byte(c.Choose(256))}) + []string{"", "}}", "' }}"}[c.Choose(3)]
				case 1:
					s = seqLexemes(c, allLexemes, c.Choose(3+b2i(c.Thorough)))
				case 2:
					for i := 3 + b2i(c.Thorough); i > 0; i-- {
						s += bytes18[c.Choose(len(bytes18))]
					}
				}
				if !utf8.ValidString(s) {
					c.Note("invalid UTF-8")
				}
				c.Begin(fmt.Sprintf("%q", s))
				c.evalFile("f.tw.html", s, data18)
			}},
			{Name: "file paths", Space: "file names (no, other and odd extensions, blanks, percent, non-ASCII, non-UTF-8, 250 bytes, hidden, nested), paths with parent and dot segments and doubled slashes, symlinks: each with working, failing and broken content and missing, x {before, after a load}", Run: func(c *C) {
				names := []string{"f.tw.html", "f", "f.txt", ".f", "f.tw.html.bak", "sp ace", "é日本", "50%d%s", "-", "~x", "[a]*?", "a/b/c/f", "new\nline", "\xff\xfe", strings.Repeat("n", 250), "..f", "f..", "a\\b"}
				n := names[c.Choose(len(names))]
				how := c.Choose(6)
				st := c.Choose(2)
				content := []string{"a {{ x }}", "a\n{{ nope }}", "{{ 1", ""}[c.Choose(4)]
				c.Begin(fmt.Sprintf("file %q, way %d, state %d, content %q", n, how, st, content))
				base := filepath.Join(c.w.Scratch, file18+"p")
				os.RemoveAll(base)
				defer os.RemoveAll(base)
				p := filepath.Join(base, n)
				for _, d := range []string{filepath.Dir(p), filepath.Join(base, "dd/ee")} {
					if err := os.MkdirAll(d, 0o755); err != nil {
						fatal(err)
					}
				}
				if st == 1 {
					c.load(map[string]string{"p": "x", n[:min(len(n), 200)]: "other"})
				}
				if how == 5 {
					c.noFile(p)
					c.noFile(filepath.Join(base, "dd"))
					c.noFile(filepath.Join(base, "dd/nope/f"))
					return
				}
				if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
					fatal(err)
				}
				switch how {
				case 1:
					p = base + "/dd/../" + n
				case 2:
					p = base + "//./dd/ee/../../" + n
				case 3:
					if err := os.Symlink(p, base+"/dd/link"); err != nil {
						fatal(err)
					}
					p = base + "/dd/link"
				case 4:
					if err := os.Symlink("..", base+"/dd/up"); err != nil {
						fatal(err)
					}
					p = base + "/dd/up/" + n
				}
				c.sameFile(p, content, data18)
			}},
			{Name: "file histories", Space: "all sequences of 4 (thorough: 5) of {write one of 4 contents of the same size, two of them broken, keeping or not keeping the time of the file; delete; load templates; evaluate another file}, EvaluateFile after each", Run: func(c *C) {
				contents := []string{"A{{ x }}B", "{{ x+1}}B", "{{nope }}", "A{{ x } B"}
				n := 4 + b2i(c.Thorough)
				var ops []int
				for i := 0; i < n; i++ {
					ops = append(ops, c.Choose(2*len(contents)+3))
				}
				c.Begin(fmt.Sprint("operations ", ops))
				p := filepath.Join(c.w.Scratch, file18+"h")
				os.Remove(p)
				defer os.Remove(p)
				when := time.Unix(1700000000, 0)
				cur := ""
				there := false
				for _, o := range ops {
					switch {
					case o < 2*len(contents):
						cur, there = contents[o/2], true
						if err := os.WriteFile(p, []byte(cur), 0o644); err != nil {
							fatal(err)
						}
						if o%2 == 0 {
							os.Chtimes(p, when, when)
						}
					case o == 2*len(contents):
						os.Remove(p)
						there = false
					case o == 2*len(contents)+1:
						c.load(map[string]string{"p": "x"})
					default:
						c.evalFile("g", "{{ 'other' }}", data18)
					}
					c.Traces(1)
					if there {
						c.sameFile(p, cur, data18)
					} else {
						c.noFile(p)
					}
				}
			}},
			{Name: "file sizes", Space: "contents of n = 0..70, 127..129, 511..513, 1023..1025, 4095..4097, 8191..8193, 32767..32769, 65535..65537, 1000003, 2^20-1..2^20+1, 2^22+1, 2^24+1 bytes of text, expressions or lines, complete or with a fault at the end", Run: func(c *C) {
				sizes := []int{127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 1000003, 1048575, 1048576, 1048577, 4194305, 16777217}
				n := c.Choose(71 + len(sizes))
				if n > 70 {
					n = sizes[n-71]
				}
				how := c.Choose(4)
				end := c.Choose(3)
				unit := []string{"x", "{{x}}", "line\n", "é"}[how]
				c.Begin(fmt.Sprintf("%d bytes of %q, end %d", n, unit, end))
				s := strings.Repeat(unit, n/len(unit)+1)[:n]
				if how == 1 {
					s = strings.Repeat(unit, n/len(unit)) + strings.Repeat("y", n%len(unit))
				}
				if how == 2 && n > 100000 && (n > 1100000 || !c.Thorough) || how == 1 && n > 100000 && !c.Thorough || n > 2000000 && how > 0 {
					c.Skip()
				}
				c.evalFile("big", s+[]string{"", "{{ nope }}", "{{ ("}[end], data18)
			}},
		}})
}
