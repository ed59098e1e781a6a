package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

// siteFS keeps one template directory of a worker in step with the wanted
// content; only differences are written.
type siteFS struct {
	dir string
	cur map[string]string
}

func (w *Worker) fs(dir string) *siteFS {
	if w.sites == nil {
		w.sites = map[string]*siteFS{}
	}
	s := w.sites[dir]
	if s == nil {
		if err := os.RemoveAll(filepath.Join(w.Scratch, dir)); err != nil {
			fatal(err)
		}
		s = &siteFS{dir: filepath.Join(w.Scratch, dir), cur: map[string]string{}}
		if err := os.MkdirAll(s.dir, 0o755); err != nil {
			fatal(err)
		}
		w.sites[dir] = s
	}
	return s
}

// sameTime gives every file that is written the same time: a content is not
// known by it
func sameTime(p string) {
	t := time.Unix(1700000000, 0)
	os.Chtimes(p, t, t)
}

func (s *siteFS) sync(files map[string]string) {
	for n := range s.cur {
		if _, ok := files[n]; !ok {
			if err := os.Remove(filepath.Join(s.dir, n)); err != nil {
				fatal(err)
			}
			delete(s.cur, n)
		}
	}
	for n, c := range files {
		if old, ok := s.cur[n]; ok && old == c {
			continue
		}
		p := filepath.Join(s.dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			fatal(err)
		}
		sameTime(p)
		s.cur[n] = c
	}
}

const siteDir, siteExt = "site", ".tw.html"

// siteSrc writes the files of a site down; names get the extension
func siteSrc(p PrintStyle, s *Site) map[string]string {
	r := map[string]string{}
	for n, l := range s.Files {
		r[n] = p.List(l)
	}
	return r
}

func showFiles(files map[string]string) string {
	var ns []string
	for n := range files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var b strings.Builder
	for _, n := range ns {
		fmt.Fprintf(&b, "[%s] %q ", n, files[n])
	}
	return strings.TrimSpace(b.String())
}

// load writes the files (names without extension) and loads them
func (c *C) load(files map[string]string) (*textwire.Template, error) {
	return c.loadAs(siteDir, siteDir, siteExt, files)
}

func (c *C) loadAs(dir, spelling, ext string, files map[string]string) (*textwire.Template, error) {
	fs := c.w.fs(dir)
	m := map[string]string{}
	for n, s := range files {
		m[n+ext] = s
	}
	fs.sync(m)
	t, err := textwire.NewTemplate(&config.Config{TemplateDir: spelling, TemplateExt: ext})
	if err != nil && t != nil {
		c.Fail("NewTemplate returned a template together with the error %v", err)
	}
	if err == nil && t == nil {
		c.Fail("NewTemplate returned neither a template nor an error")
	}
	return t, err
}

// render renders one template of a loaded set
func render(t *textwire.Template, name string, data map[string]any) out {
	s, err := t.String(name, data)
	if err != nil {
		return out{s, err.Error()}
	}
	return out{s, nil}
}

// checkSite loads a site and compares the renders of the given pages
func (c *C) checkSite(p PrintStyle, s *Site, d Data, pages ...string) {
	files := siteSrc(p, s)
	if c.again != nil {
		c.again(files, pages, d, fmt.Sprintf("%s render %v with %s", showFiles(files), pages, showData(d)))
		return
	}
	var want []Result
	for _, n := range pages {
		want = append(want, Render(s, s.Files[n], d, nil))
	}
	c.Begin(fmt.Sprintf("%s render %v with %s", showFiles(files), pages, showData(d)))
	t, err := c.load(files)
	if err != nil {
		c.Fail("loading failed: %v", err)
		return
	}
	if t == nil {
		return
	}
	for i, n := range pages {
		if i > 0 {
			c.Traces(1)
		}
		before := len(c.fails)
		c.expect(render(t, n, GoMap(d)), want[i])
		if len(c.fails) > before {
			c.Fail("(template %s)", n)
		}
	}
}

// mustNotLoad loads files that have to be refused; the error text has to
// contain every one of the given words
func (c *C) mustNotLoad(files map[string]string, words ...string) {
	c.Begin("load " + showFiles(files))
	_, err := c.load(files)
	if err == nil {
		c.Fail("loaded without an error")
		return
	}
	c.Note("refused")
	for _, w := range words {
		if !strings.Contains(err.Error(), w) {
			c.Fail("error %q does not mention %q", err, w)
		}
	}
}
