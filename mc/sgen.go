package main

import (
	. "verifmc/ref"
)

// sgen enumerates statement lists.  The gaps between statements carry
// text marks of their own (in several patterns), so that the position of everything shows in the output.
type sgen struct {
	c     *C
	marks int
	// simple statements of size 1; loop tells whether a loop is around
	simple func(g *sgen, loop bool) Stmt
	nsimp  int
	// compound statements: if, each, for ...
	comp []func(g *sgen, n int, loop bool) Stmt
	// gaps tells where marks stand: 0 everywhere, 1 nowhere, 2 not at the end of lists,
	// 3 not at the start of lists, 4 only at the ends of lists
	gaps int
}

const markLetters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

func (g *sgen) mark() Stmt {
	g.marks++
	return Text{markLetters[(g.marks-1)%52:(g.marks-1)%52+1] + string(rune('0' + (g.marks-1)/52%10))[:b2i(g.marks > 52)]}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// list enumerates all statement lists with exactly n statements in total
func (g *sgen) list(n int, loop bool) []Stmt {
	var l []Stmt
	if g.gaps == 0 || g.gaps == 2 || g.gaps == 4 {
		l = append(l, g.mark())
	}
	for n > 0 {
		k := 1
		if len(g.comp) > 0 {
			k = g.c.Choose(n) + 1
		}
		l = append(l, g.stmt(k, loop))
		n -= k
		if g.gaps == 0 || g.gaps == 3 || n > 0 && g.gaps == 2 || n == 0 && g.gaps == 4 {
			l = append(l, g.mark())
		}
	}
	return l
}

// stmt enumerates one statement of exactly n statements in total
func (g *sgen) stmt(n int, loop bool) Stmt {
	ns := 0
	if n == 1 {
		ns = 1
	}
	k := g.c.Choose(ns + len(g.comp))
	if k < ns {
		return g.simple(g, loop)
	}
	return g.comp[k-ns](g, n, loop)
}

// split enumerates the ways to distribute n over k parts
func (g *sgen) split(n, k int) []int {
	r := make([]int, k)
	for i := 0; i < k; i++ {
		if i == k-1 {
			r[i] = n
		} else {
			r[i] = g.c.Choose(n + 1)
			n -= r[i]
		}
	}
	return r
}
