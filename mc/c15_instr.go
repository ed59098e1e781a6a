//go:build instr

package main

import (
	"fmt"
	"strings"
	"sync"

	textwire "github.com/textwire/textwire/v2"
	"github.com/textwire/textwire/v2/config"
	"github.com/textwire/textwire/v2/verifhook"
)

// Threads run one at a time and change only where the plan says so.  The hand
// over is invisible to the race detector (see hook.go), so two accesses without
// synchronisation of the library's own are reported in whatever order they ran.

type solo15 struct {
	res          string
	coarse, fine int // scheduling points passed
}

type state15 struct{ solo map[string]solo15 }

func fresh15(cfg config.Config) *textwire.Template {
	resetLib()
	funcs15()
	return open15(cfg)
}

// run15 runs the operations under a schedule, from a fresh state
func run15(cfg config.Config, ops []op15, fine bool, first int, plan []verifhook.Switch) (res []string, counts []int, switches int, gaveUp bool) {
	t := fresh15(cfg)
	for _, o := range ops {
		for i := 0; i < o.warm; i++ {
			o.do(t)
		}
	}
	res = make([]string, len(ops))
	var wg sync.WaitGroup
	verifhook.Start(len(ops), fine, first, plan)
	for i := range ops {
		wg.Add(1)
		go func() {
			verifhook.Enter(i)
			res[i] = ops[i].do(t)
			verifhook.Leave(i)
			wg.Done()
		}()
	}
	wg.Wait()
	counts, switches, gaveUp = verifhook.Stop()
	return
}

func (w *Worker) solo(cfg config.Config, o op15) solo15 {
	st := w.famState.(*state15)
	k := show15(cfg) + o.name
	s, ok := st.solo[k]
	if !ok {
		r, c, _, _ := run15(cfg, []op15{o}, false, 0, nil)
		_, f, _, _ := run15(cfg, []op15{o}, true, 0, nil)
		s = solo15{r[0], c[0], f[0]}
		st.solo[k] = s
	}
	return s
}

// explore15 runs every schedule with at most bound planned switches
// part > 0 splits the case: the first switch lies in one of part classes
func (c *C) explore15(cfg config.Config, ops []op15, fine bool, bound, part int) {
	share := 0
	if part > 0 {
		share = c.Choose(part)
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	of := ""
	if part > 0 {
		of = fmt.Sprintf(", part %d of %d", share+1, part)
	}
	c.Begin(fmt.Sprintf("%s, %s, at most %d switches%s", strings.Join(names, " || "), show15(cfg), bound, of))
	c.w.place15(cfg, ops...)
	var solo []solo15
	points := make([]int, len(ops))
	for i, o := range ops {
		s := c.w.solo(cfg, o)
		solo = append(solo, s)
		points[i] = s.coarse
		if fine {
			points[i] = s.fine
		}
	}
	n, trans := 0, 0
	bad := false
	try := func(first int, plan []verifhook.Switch) {
		if bad {
			return
		}
		n++
		c.Alive()
		trans += len(plan) + 1
		res, _, _, gaveUp := run15(cfg, ops, fine, first, plan)
		if gaveUp {
			c.Note("free running")
		}
		for i, r := range res {
			if r != solo[i].res {
				c.Fail("%s alone: %s; under the schedule first %d %v: %s", names[i], cut(solo[i].res), first, plan, cut(r))
				bad = true
			}
		}
	}
	var rec func(first, cur int, at []int, plan []verifhook.Switch, left int)
	rec = func(first, cur int, at []int, plan []verifhook.Switch, left int) {
		if len(plan) > 0 || share == 0 {
			try(first, plan)
		}
		if left == 0 {
			return
		}
		for p := at[cur] + 1; p <= points[cur]; p++ {
			if len(plan) == 0 && part > 0 && p%part != share {
				continue
			}
			for to := range ops {
				if to == cur {
					continue
				}
				was := at[cur]
				at[cur] = p
				rec(first, to, at, append(plan[:len(plan):len(plan)], verifhook.Switch{At: cur, N: p, To: to}), left-1)
				at[cur] = was
				if bad {
					return
				}
			}
		}
	}
	for first := range ops {
		rec(first, first, make([]int, len(ops)), nil, bound)
	}
	c.Note("schedules explored")
	c.Traces(n)
	c.States(trans, trans)
}

// seq15 is one operation after another
func seq15(a, b op15) op15 {
	return op15{name: a.name + "; " + b.name, resp: a.resp || b.resp, page: a.page, more: append([]string{b.page}, a.more...), do: func(t *textwire.Template) string {
		s := a.do(t)
		return s + " then " + b.do(t)
	}}
}

// large15 are operations on large values
func large15(thorough bool) (l []func(x int) op15) {
	m := 12 + 28*b2i(thorough)
	add := func(src string, n int) {
		l = append(l, func(x int) op15 {
			return op15{name: fmt.Sprintf("EvaluateString(%s, %d, n = %d)", cut(fmt.Sprintf("%q", src)), x, n), do: func(*textwire.Template) string {
				d := data15(x)
				big := strings.Repeat(fmt.Sprintf("<%d é> ", x), n/6+1)[:n]
				arr := make([]any, m)
				obj := map[string]any{}
				for i := range arr {
					arr[i] = fmt.Sprint(x, " ", i)
					obj[fmt.Sprint("k", i)] = x + i
				}
				d["big"], d["arr"], d["obj"] = big, arr, obj
				s, err := textwire.EvaluateString(strings.ReplaceAll(src, "BIG", strings.ReplaceAll(big, "<", "")), d)
				return fmt.Sprintf("%q %v", s, err)
			}}
		})
	}
	sizes := []int{6, 60, 1020}
	if thorough {
		sizes = append(sizes, 300, 5000, 70000)
	}
	for _, n := range sizes {
		for _, s := range []string{"{{ big }}", "{{ big + big }}", "{{ big.upper() }}{{ big.lower() }}{{ big.capitalize() }}", "{{ big.reverse() }}{{ big.len() }}", "{{ big.trim('> ') }}{{ big.truncate(5) }}{{ big.at(3) }}{{ big.first() }}{{ big.last() }}", "{{ big.split(' ').len() }}{{ big.contains('é>') }}", "{{ big.raw() }}{{ big.repeat(2) }}", "BIG{{ x }}BIG", "{{ 'BIG' }}", "{{-- BIG --}}{{ x }}", "{{ big == big }}{{ [big, big].join(big) }}", "@dump(big)", "{{ big.nope() }}", "{{ o.BIG }}", "{{ 'BIG' - 1 }}", "@if(b)BIG@else {{ big }}@end", "{{ {k: big}.k }}{{ [big][0] }}"} {
			add(s, n)
		}
	}
	for _, s := range []string{"{{ arr }}{{ obj }}", "{{ arr.reverse() }}", "{{ arr.join(',') }}{{ arr.len() }}", "{{ arr.append(x).prepend(s).slice(3, 30) }}", "{{ arr.contains('1 39') }}{{ arr.contains(obj) }}", "@each(v in arr){{ v }}{{ loop.index }}@end", "@for(i = 0; i < 40; i++){{ i }}@end", "@dump(arr)@dump(obj)", "{{ obj.k3 }}{{ obj['k39'] }}{{ obj.nope }}", "{{ arr.rev15() }}", "{{ arr.rev15(arr, obj) }}"} {
		add(s, 6)
	}
	add(strings.Repeat("@if(true)", m)+"{{ x }}"+strings.Repeat("@end", m), 6)
	add(strings.Repeat("{{ a = x }}{{ a }}", m), 6)
	add("{{ "+strings.Repeat("x + ", m)+"x }}", 6)
	add("{{ "+strings.Repeat("(", m)+"x"+strings.Repeat(")", m)+" }}", 6)
	add("{{ s"+strings.Repeat(".upper()", m)+" }}", 6)
	add("{{ [x"+strings.Repeat(", x", m)+"] }}", 6)
	return
}

func setup15(w *Worker) {
	w.famState = &state15{map[string]solo15{}}
}

func pick15(c *C, n, max int) (config.Config, []op15) {
	k := c.Choose(len(cfgs15))
	var ops []op15
	last := 0
	resp := false
	for i := 0; i < n; i++ {
		j := last + c.Choose(max-last)
		last = j
		ops = append(ops, ops15[j])
		resp = resp || ops15[j].resp
	}
	if k > 0 && !resp {
		c.Skip()
	}
	return cfgs15[k], ops
}

func init() {
	ck := findCheck("C15")
	ck.Families = append(ck.Families,
		Family{Name: "pairs", Space: "all unordered pairs of 21 operations (String, Response, EvaluateString, EvaluateFile; successful and failing; layouts, components, loops, custom functions, error pages) x 5 error page configurations where one is Response; from a fresh state, all schedules with at most 1 preemption (points around accesses to shared state), under the race detector; every result equals the result alone",
			Setup: setup15, Run: func(c *C) {
				cfg, ops := pick15(c, 2, len(ops15))
				c.explore15(cfg, ops, false, 1, 0)
			}},
		Family{Name: "features", Space: fmt.Sprintf("%d sources (every construct, operator, built-in, directive, kind of error, and every supported kind of Go data), each evaluated by two threads with data of their own, all schedules with at most 1 preemption, under the race detector; in the thorough tier also next to a render of a page", len(features15())),
			Setup: setup15, Run: func(c *C) {
				f := features15()[c.Choose(len(features15()))]
				b := f(2)
				if c.Thorough && c.Bool() {
					b = ops15[c.Choose(2)]
				}
				c.explore15(cfgs15[0], []op15{f(1), b}, false, 1, 0)
			}},
		Family{Name: "sequences", Space: "two threads with two calls each, (a, b) against (b, a) and (a, a) against (b, b), all pairs out of the first 8 operations (thorough: all), all schedules with at most 1 preemption",
			Setup: setup15, Run: func(c *C) {
				n := 8
				if c.Thorough {
					n = len(ops15)
				}
				a := c.Choose(n)
				b := a + c.Choose(n-a)
				cfg := cfgs15[2*b2i(a+b > 3)]
				x, y := ops15[a], ops15[b]
				ops := []op15{seq15(x, y), seq15(y, x)}
				if c.Bool() {
					if a == b {
						c.Skip()
					}
					ops = []op15{seq15(x, x), seq15(y, y)}
				}
				c.explore15(cfg, ops, false, 1, 0)
			}},
		Family{Name: "warm", Space: "after 2 and 64 (thorough: 300) calls of an operation one after another, the same operation in two threads: all schedules with at most 1 preemption",
			Setup: setup15, Run: func(c *C) {
				k := c.Choose(len(cfgs15))
				o := ops15[c.Choose(len(ops15))]
				if k > 0 && !o.resp {
					c.Skip()
				}
				ns := []int{2, 64 + 236*b2i(c.Thorough)}
				n := ns[c.Choose(len(ns))]
				o.name += fmt.Sprintf(" after %d calls", n)
				o.warm = n
				p := o
				p.warm = 0
				c.explore15(cfgs15[k], []op15{o, p}, false, 1, 8*b2i(n > 3))
			}},
		Family{Name: "large", Space: fmt.Sprintf("%d operations on large values (texts, strings, comments and outputs of 6 to 1020 (thorough: 70000) bytes, arrays and objects of 12 (40) elements, 12 (40) nested blocks, chained calls, operands), each by two threads with data of their own, all schedules with at most 1 preemption", len(large15(false))),
			Setup: setup15, Run: func(c *C) {
				l := large15(c.Thorough)
				f := l[c.Choose(len(l))]
				c.explore15(cfgs15[0], []op15{f(1), f(2)}, false, 1, 0)
			}},
		Family{Name: "pairs2", ThoroughOnly: true, Space: "all pairs of the first 8 operations, at most 2 preemptions",
			Setup: setup15, Run: func(c *C) {
				cfg, ops := pick15(c, 2, 8)
				c.explore15(cfg, ops, false, 2, 16)
			}},
		Family{Name: "fine", ThoroughOnly: true, Space: "all pairs, at most 1 preemption at every statement",
			Setup: setup15, Run: func(c *C) {
				cfg, ops := pick15(c, 2, len(ops15))
				c.explore15(cfg, ops, true, 1, 4)
			}},
		Family{Name: "triples", ThoroughOnly: true, Space: "all triples of the first 12 operations, at most 1 preemption",
			Setup: setup15, Run: func(c *C) {
				cfg, ops := pick15(c, 3, 12)
				c.explore15(cfg, ops, false, 1, 2)
			}},
	)
}
