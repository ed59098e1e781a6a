package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
)

type Data = map[string]Value

// out is what the implementation did
type out struct {
	S   string
	Err error
}

func (o out) String() string {
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	return fmt.Sprintf("%q", o.S)
}

func evalString(src string, data map[string]any) out {
	s, err := textwire.EvaluateString(src, data)
	return out{s, err}
}

// errors look like "[Textwire ERROR in PATH:LINE]:\nMESSAGE"
var errRe = regexp.MustCompile(`(?s)^\[Textwire ERROR(?: in (.*?))?:(\d+)\]:\n(.*)$`)

func errParts(err error) (path string, line int, msg string, ok bool) {
	m := errRe.FindStringSubmatch(err.Error())
	if m == nil {
		return "", 0, "", false
	}
	line, _ = strconv.Atoi(m[2])
	return m[1], line, m[3], true
}

// expect compares with the result of the model
func (c *C) expect(o out, r Result) {
	switch {
	case r.Fail != nil && len(r.Alts) > 0:
		c.Note("two readings")
		for _, a := range r.Alts {
			if a.Fail == nil && o.Err == nil && a.Out == o.S || (a.Fail != nil || a.MayError) && o.Err != nil && o.S == "" {
				return
			}
		}
		c.Fail("rendered %q, error %v: neither %q (%v) nor %q (%v), which are the results under the readings of the scope of a pass", cut(o.S), o.Err, cut(r.Alts[0].Out), r.Alts[0].Fail, cut(r.Alts[1].Out), r.Alts[1].Fail)
	case r.Fail != nil && r.Fail.Unspec:
		c.Note("unspecified")
	case r.Fail != nil:
		c.Note("error")
		if o.Err == nil {
			c.Fail("rendered %q, must fail (%s)", cut(o.S), r.Fail.Why)
		} else if o.S != "" {
			c.Fail("returned output %q together with an error", cut(o.S))
		}
	case o.Err != nil:
		if r.MayError {
			c.Note("error allowed")
			return
		}
		c.Fail("failed with %q, must render %q", o.Err.Error(), cut(r.Out))
	default:
		c.Note("value")
		if o.S != r.Out {
			c.Fail("rendered %q, must render %q", cut(o.S), cut(r.Out))
		}
	}
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func show(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(v)
	case float64:
		return "float " + strconv.FormatFloat(v, 'g', -1, 64)
	case *Arr:
		var p []string
		for _, e := range v.E {
			p = append(p, show(e))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Obj:
		var p []string
		for _, k := range v.Keys() {
			p = append(p, k+":"+show(v.M[k]))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprint(v)
}

func showData(d Data) string {
	if d == nil {
		return "nil"
	}
	return show(&Obj{M: d})
}

// checkStr renders statements through the string API and compares
func (c *C) checkStr(p PrintStyle, l []Stmt, d Data) {
	src := p.List(l)
	if c.again != nil {
		c.again(map[string]string{"page": src}, []string{"page"}, d, fmt.Sprintf("%q with %s", src, showData(d)))
		return
	}
	r := Render(nil, l, d, nil)
	c.Begin(fmt.Sprintf("%q with %s", src, showData(d)))
	c.expect(evalString(src, GoMap(d)), r)
}

var styles = []PrintStyle{
	{Style: Style{Sep: 4}, Pad: " "},
	{Style: Style{Sep: 1}, Pad: ""},
	{Style: Style{Sep: 2}, Pad: "\n"},
	{Style: Style{Sep: 3, Quote: '"'}, Pad: "\r\n\t"},
	{Style: Style{Sep: 0, Paren: 1}, Pad: " "},
	{Style: Style{Sep: 1, Paren: 2}, Pad: "  "},
}

func (c *C) style() PrintStyle { return styles[c.Choose(len(styles))] }

// ladderN chooses a size: 1..64, then 100, 200, 300 ... and the neighbours of
// powers of two, up to max
func ladderN(c *C, max int) int {
	big := []int{100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100001}
	k := len(big)
	for big[k-1] > max {
		k--
	}
	n := c.Choose(64+k) + 1
	if n > 64 {
		n = big[n-65]
	}
	return n
}
