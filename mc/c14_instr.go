//go:build instr

package main

import (
	"fmt"
	"strings"

	"github.com/textwire/textwire/v2/verifhook"
)

// Every iteration over a map goes through verifhook.Entries in this build.

func (p probe14) under(o verifhook.Order) (string, []int) {
	verifhook.SetOrder(o)
	s := p.do()
	return s, verifhook.Iterations()
}

// sized14: n entries of a kind
func sized14(c *C) probe14 {
	n := ladderN(c, 300)
	k := c.Choose(15)
	var b strings.Builder
	each := func(f string) string {
		b.Reset()
		for i := n; i > 0; i-- {
			fmt.Fprintf(&b, f, i)
		}
		return b.String()
	}
	v := func() map[string]any {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("k%d", i*7%n)] = i
			m[fmt.Sprintf("K%d", i)] = nil
		}
		return map[string]any{"v": m, "w": []any{m}}
	}
	page := func(files map[string]string) probe14 {
		return probe14{files: files, pages: []string{"page"}, data: obj14}
	}
	lay := "[@reserve('t')]"
	switch k {
	case 0:
		return probe14{src: "{{ v }}", label: fmt.Sprint(n, " keys"), data: v}
	case 1:
		return probe14{src: "@dump(v)", label: fmt.Sprint(n, " keys"), data: v}
	case 2:
		return probe14{src: "{{ w.contains(v) }}{{ w.join('-') }}{{ 'x'.show14(v) }}", label: fmt.Sprint(n, " keys"), data: v}
	case 3:
		return probe14{src: "{{ {" + strings.TrimSuffix(each("k%d: 1,"), ",") + "} }}"}
	case 4:
		return probe14{src: "{{ {" + strings.TrimSuffix(each("k%[1]d: u%[1]d,\n"), ",\n") + "} }}"}
	case 5:
		return page(map[string]string{"comp": "{{ k1 }}", "page": "@component('comp', {" + strings.TrimSuffix(each("k%[1]d: u%[1]d,\n"), ",\n") + "})"})
	case 6:
		return page(map[string]string{"lay": lay, "page": "@use('lay')" + each("@insert('i%[1]d', %[1]d)\n")})
	case 7:
		return page(map[string]string{"comp": lay, "page": "@component('comp')" + each("@slot('s%[1]d')%[1]d@end\n") + "@end"})
	case 8:
		return page(map[string]string{"page": each("@component('c%[1]d')\n")})
	case 9:
		f := map[string]string{"page": ""}
		for i := 0; i < n; i++ {
			f[fmt.Sprint("d", i%3, "/f", i)] = strings.Repeat("\n", i%5) + "{{ # }}"
		}
		return page(f)
	case 10:
		f := map[string]string{"page": "x"}
		for i := 0; i < n; i++ {
			f[fmt.Sprint("f", i)] = fmt.Sprintf("@use('none%d')", i)
		}
		return page(f)
	case 11:
		return probe14{src: "x", label: fmt.Sprint(n, " unsupported values"), data: func() map[string]any {
			m := map[string]any{}
			for i := 0; i < n; i++ {
				m[fmt.Sprint("k", i)] = dataBad14[1+i%3]()
			}
			return m
		}}
	case 12:
		return probe14{src: "x", label: fmt.Sprint(n, " unsupported values in a map"), data: func() map[string]any {
			m := map[string]any{}
			for i := 0; i < n; i++ {
				m[fmt.Sprint("k", i)] = dataBad14[1+i%3]()
			}
			return map[string]any{"v": m}
		}}
	case 13:
		// all reserves filled, every second insert fails
		return page(map[string]string{"lay": each("@reserve('i%d')\n"), "page": "@use('lay')" + each("@insert('i%[1]d', u%[1]d)\n")})
	}
	return page(map[string]string{"comp": each("@slot('s%d')\n"), "page": "@component('comp')" + each("@slot('s%[1]d'){{ u%[1]d }}@end\n") + "@end"})
}

func (c *C) sizes14(p probe14) {
	c.Begin(p.String())
	c.w.place14(p)
	sorted, _ := p.under(verifhook.Order{})
	c.Note(class14(sorted))
	goes := verifhook.Tickets()
	orders := []verifhook.Order{{All: 1}, {All: 2}, {All: 3}, {All: 4}}
	if goes > 1 {
		for k := 1; k <= 2+min(goes, 6); k++ {
			orders = append(orders, verifhook.Order{Go: k, Goes: goes})
		}
	}
	for _, o := range orders {
		c.Alive()
		c.Traces(1)
		if s, _ := p.under(o); s != sorted {
			c.Fail("maps iterated in sorted order give %s; in order %+v: %s", cut(sorted), o, cut(s))
			return
		}
	}
	c.States(len(orders), len(orders))
}

func (c *C) orders14(p probe14) {
	c.Begin(p.String())
	c.w.place14(p)
	sorted, sizes := p.under(verifhook.Order{})
	goes := verifhook.Tickets()
	c.Note(class14(sorted))
	// other compares the result under another order
	n := 0
	other := func(o verifhook.Order, what func() string) bool {
		n++
		c.Alive()
		s, _ := p.under(o)
		if s != sorted {
			c.Fail("maps iterated in sorted order give %s; with %s: %s", cut(sorted), what(), cut(s))
			return false
		}
		return true
	}
	defer func() {
		c.Traces(n)
		c.States(n, n)
	}()
	for k := 1; k <= 4; k++ {
		if !other(verifhook.Order{All: k}, func() string { return fmt.Sprintf("all iterations in order %d (1 reversed, k rotated by k-1)", k) }) {
			return
		}
	}
	if goes > 1 {
		c.Note("goroutines")
		for k := 1; k <= 2+min(goes, 6); k++ {
			if !other(verifhook.Order{Go: k, Goes: goes}, func() string {
				return fmt.Sprintf("goroutines beginning in order %d of %d (1 as started, 2 reversed, 2+k the k-th first)", k, goes)
			}) {
				return
			}
		}
	}
	var many []int
	for i, s := range sizes {
		if s > 1 {
			many = append(many, i)
		}
	}
	c.Note("iterations " + []string{"0", "1", "2-9", "10-99", "100 and more"}[b2i(len(many) > 0)+b2i(len(many) > 1)+b2i(len(many) > 9)+b2i(len(many) > 99)])
	for _, i := range many {
		last := verifhook.Perms(sizes[i]) - 1
		for k := 1; k <= last; k++ {
			if !c.Thorough && len(many) > 4 && k > 1 && k != last {
				continue
			}
			if !other(verifhook.Order{Perm: map[int]int{i: k}}, func() string { return fmt.Sprintf("iteration %d of %d entries in order %d", i, sizes[i], k) }) {
				return
			}
		}
	}
	if !c.Thorough {
		return
	}
	// two iterations at a time: reversed and the last permutation
	for a, i := range many {
		for _, j := range many[a+1:] {
			for _, ki := range []int{1, verifhook.Perms(sizes[i]) - 1} {
				for _, kj := range []int{1, verifhook.Perms(sizes[j]) - 1} {
					if n > 3000 {
						c.Note("pairs cut")
						return
					}
					if !other(verifhook.Order{Perm: map[int]int{i: ki, j: kj}}, func() string { return fmt.Sprintf("iterations %d and %d in orders %d and %d", i, j, ki, kj) }) {
						return
					}
				}
			}
		}
	}
}

func init() {
	ck := findCheck("C14")
	ck.Families = append([]Family{{
		Name:  "orders",
		Space: "every probe, with every iteration over a map under control: all iterations sorted, reversed, rotated; then every single iteration in every order (all permutations up to 4 entries, rotations, reversed rotations and swaps of neighbours beyond), quick: probes with more than 4 iterations only the first and the last of these orders, thorough: also pairs of iterations; all results equal; where the library starts goroutines, also every one of them beginning first, all in the order of their start and in the reverse order",
		Setup: func(w *Worker) { funcs14() },
		Run:   func(c *C) { c.orders14(gen14(c)) },
	}, {
		Name:  "sizes",
		Space: "n = 1..64, 100, 127..129, 200, 255..257, 300 entries of 15 kinds (keys of printed, dumped, compared objects and of objects given to functions, object literals, failing entries, component arguments, undefined inserts, slots and components, faulty files, missing layouts, unsupported values, failing inserts and slots): all map iterations sorted, reversed and rotated, and the orders in which goroutines begin",
		Setup: func(w *Worker) { funcs14() },
		Run:   func(c *C) { c.sizes14(sized14(c)) },
	}}, ck.Families...)
}
