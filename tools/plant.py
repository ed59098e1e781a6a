#!/usr/bin/env python3
"""plant.py SPEC.py...: each SPEC defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (Go body of main)
Applies the edits to /repo, records them as seeded/ID and confirms them with seed.sh."""
import sys, subprocess, re
PRE = '''package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
)

var _ = errors.New
var _ = strings.Contains
var _ = fmt.Sprint

type M = map[string]any

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

// eq renders through the string API
func eq(src string, d M, want string) {
	got, err := textwire.EvaluateString(src, d)
	if err != nil {
		fail("%q: %v", src, err)
	}
	if got != want {
		fail("%q rendered %q, want %q", src, got, want)
	}
}

// load writes files (names without extension) below the scratch working directory
func load(files map[string]string) (*textwire.Template, error) {
	os.RemoveAll("site")
	for n, s := range files {
		p := filepath.Join("site", n+".tw.html")
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			fail("%v", err)
		}
	}
	return textwire.NewTemplate(&config.Config{TemplateDir: "site", TemplateExt: ".tw.html"})
}

func must(files map[string]string) *textwire.Template {
	t, err := load(files)
	if err != nil {
		fail("%v", err)
	}
	return t
}

func page(t *textwire.Template, name string, d M, want string) {
	got, err := t.String(name, d)
	if err != nil {
		fail("%s: %v", name, err)
	}
	if got != want {
		fail("%s rendered %q, want %q", name, got, want)
	}
}

'''
for spec in sys.argv[1:]:
    src = open(spec).read()
    for part in re.split(r'(?m)^#---.*\n', src):
        if not part.strip(): continue
        ns = {}
        exec(part, ns)
        subprocess.run(['git','-C','/repo','diff','--quiet'], check=True)
        ok = True
        for f, old, new in ns['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], 'edit matches', s.count(old), 'times in', f, repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            subprocess.run(['git','-C','/repo','checkout','--','.']); continue
        demo = ns['DEMO']
        pre = PRE
        for imp in ns.get('IMPORTS', []): pre = pre.replace('import (\n', 'import (\n\t"%s"\n' % imp, 1)
        if 'func main()' not in demo: demo = 'func main() {\n' + demo + '\n}\n'
        subprocess.run(['/verif/tools/seed.sh','new',ns['ID'],ns['PROP'],ns['NEEDS'],ns['BREAKS']], input=pre+demo, text=True, env=dict(__import__('os').environ, RACE='1' if ns.get('RACE') else ''))
        subprocess.run(['gofmt','-w','/verif/seeded/%s/main.go' % ns['ID']])
