package main

import (
	"fmt"
	"strings"
)

// Line breaks between the tokens of expressions that fail: the fault is found
// in a call, a list, an object or an operand of any length, and every set of
// gaps between tokens is tried.

func toks13(s string) []string { return strings.Fields(s) }

// gapFaults are faults, blank-separated; \x01 marks the tokens of the fault
var gapFaults = []fault13{
	{"\x01undef", false, "undef"}, {"\x01undef . a", false, "undef"}, {"o \x01. \x01nope", false, "nope"}, {"o . a \x01. \x01nope", false, ""}, {"o \x01[ \x01'nope' ]", false, "nope"}, {"s . \x01repeat ( 'x' )", false, "repeat"},
	{"\x01n / \x010", false, "zero"}, {"\x01n - \x01's'", false, ""}, {"\x01- \x01's'", false, ""}, {"\x01's' \x01++", false, ""}, {"\x01n \x01[ 0 ]", false, ""},
}

var gapSyntax = []fault13{{"\x01#", true, "#"}, {"n \x01~ 2", true, "~"}, {"n \x012", true, "INT"}, {"* \x012", true, ""}}

func init() {
	gapSyntax[3].s = "\x01*\x01"
	// wrap puts a fault at one of the places of n elements
	elems := func(c *C, max int) (before, after string) {
		n := 1 + c.Choose(max)
		k := c.Choose(n)
		return strings.Repeat("1 , ", k), strings.Repeat(" , 2", n-1-k)
	}
	wrap := func(c *C, f string, max int) string {
		switch c.Choose(9) {
		case 0:
			return f
		case 1:
			b, a := elems(c, max)
			return "[ " + b + f + a + " ]"
		case 2:
			n := 1 + c.Choose(max)
			k := c.Choose(n)
			l := []string{}
			for i := 0; i < n; i++ {
				v := "1"
				if i == k {
					v = f
				}
				l = append(l, fmt.Sprintf("k%d : %s", i, v))
			}
			return "{ " + strings.Join(l, " , ") + " }"
		case 3:
			b, a := elems(c, max)
			return "s . repeat ( " + b + f + a + " )"
		case 4:
			n := c.Choose(max)
			return strings.Repeat("1 + ", n) + "( " + f + " )" + strings.Repeat(" * 2", c.Choose(max))
		case 5:
			return "true ? ( " + f + " ) : 1"
		case 6:
			return "false ? 1 : " + f
		case 7:
			return "[ 1 , 2 ] [ " + f + " ]"
		}
		return "( " + f + " ) . len ( 1 , 2 , 3 )"
	}
	call := func(c *C) fault13 {
		recv := []string{"n", "s", "[ 1 , 2 ]", "o . a", "s . len ( )", "( 1 + 2 )"}[c.Choose(6)]
		n := c.Choose(6)
		return fault13{recv + " . \x01nope ( " + strings.Join(strings.Fields(strings.Repeat("1 ", n)), " , ") + " )", false, "nope"}
	}
	outer := []string{"{{ %s }}", "{{ v = %s }}", "{{ 1 ; %s ; 2 }}", "@if( %s )\nx@end", "@each( x in %s )\nx@end", "@if( true )\n{{ %s }}@end", "@each( x in [ 1 ] )@breakIf( %s )@end"}
	fam := Family{Name: "gaps", Space: fmt.Sprintf("%d faults in expressions and calls of an unknown function of 6 receivers with 0..5 arguments, alone and as any element of lists, objects, arguments and chains of 1..4 (thorough 1..6), in %d places: a line break (LF or CRLF) in every set of gaps between tokens (up to 8 gaps every set, above that every set of at most two, and all)", len(gapFaults)+len(gapSyntax), len(outer)), Run: func(c *C) {
		k := c.Choose(len(gapFaults) + len(gapSyntax) + 1)
		var f fault13
		switch {
		case k < len(gapFaults):
			f = gapFaults[k]
		case k < len(gapFaults)+len(gapSyntax):
			f = gapSyntax[k-len(gapFaults)]
		default:
			f = call(c)
		}
		max := 4
		if c.Thorough {
			max = 6
		}
		if k > len(gapFaults)+len(gapSyntax)-1 {
			max = 1
		}
		f.s = wrap(c, f.s, max)
		t := toks13(fmt.Sprintf(outer[c.Choose(len(outer))], f.s))
		g := len(t) - 1
		nl := []string{"\n", "\r\n"}[c.Choose(2)]
		brk := make([]bool, g)
		if g <= 8 {
			m := c.Choose(1 << g)
			for i := range brk {
				brk[i] = m>>i&1 == 1
			}
		} else {
			a := c.Choose(g + 2)
			switch {
			case a == g+1:
				for i := range brk {
					brk[i] = true
				}
			case a < g:
				brk[a] = true
				if b := c.Choose(g - a); b > 0 {
					brk[a+b] = true
				}
			}
		}
		var b strings.Builder
		for i, s := range t {
			b.WriteString(s)
			if i < g {
				if brk[i] {
					b.WriteString(nl)
				} else {
					b.WriteByte(' ')
				}
			}
		}
		f.s = b.String()
		c.faultString(f.s, f)
	}}
	ck := findCheck("C13")
	ck.Families = append(ck.Families, fam)
}
