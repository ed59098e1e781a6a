package ref

import "strings"

// ---------------------------------------------------------------- statements

type Stmt interface{}

type (
	Text    struct{ S string } // text without any syntax in it
	RawText struct{ Src, Out string }
	Comment struct{ S string }
	Print1  struct{ X Expr }
	Assign  struct {
		N string
		X Expr
	}
	Braces struct{ S []Stmt } // several Print1/Assign in one {{ }}
	If     struct {
		C    []Expr
		B    [][]Stmt
		Else []Stmt
		Has  bool
	}
	Each struct {
		V    string
		A    Expr
		B    []Stmt
		Else []Stmt
		Has  bool
	}
	For struct {
		Init Stmt // Assign or nil
		C    Expr // or nil
		Post Stmt // Print1{Post} or Assign or nil
		B    []Stmt
		Else []Stmt
		Has  bool
	}
	Break      struct{}
	Continue   struct{}
	BreakIf    struct{ C Expr }
	ContinueIf struct{ C Expr }
	Use        struct{ N string }
	Reserve    struct{ N string }
	Insert     struct {
		N   string
		Arg Expr // or nil: block form
		B   []Stmt
	}
	SlotUse struct {
		N   string
		Has bool // @slot('n')
		B   []Stmt
	}
	Component struct {
		N     string
		Args  *ObjL
		Slots []SlotUse
	}
	Slot struct {
		N   string
		Has bool
	}
)

// PrintStyle of statements
type PrintStyle struct {
	Style
	Pad    string // inside of {{ }} and directive parentheses
	SlotWS string // between the slots of a component
}

var Default = PrintStyle{Style: Style{Sep: 4}, Pad: " "}

func (p PrintStyle) expr(e Expr) string { return p.Style.Expr(e) }

func (p PrintStyle) braces(in string) string {
	l, r := p.Pad, p.Pad
	if l == "" && (in[0] == '{' || in[0] == '-') {
		l = " "
	}
	if r == "" && in[len(in)-1] == '}' {
		r = " "
	}
	return "{{" + l + in + r + "}}"
}

func (p PrintStyle) inner(s Stmt) string {
	switch s := s.(type) {
	case Print1:
		return p.expr(s.X)
	case Assign:
		return s.N + p.eq() + p.expr(s.X)
	}
	panic("ref: not inside of braces")
}

func (p PrintStyle) eq() string {
	if p.Sep == 1 {
		return "="
	}
	return " = "
}

func (p PrintStyle) sp() string {
	if p.Sep == 1 {
		return ""
	}
	return " "
}

// List writes statements
func (p PrintStyle) List(l []Stmt) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(p.Stmt(s))
	}
	return b.String()
}

func (p PrintStyle) Stmt(s Stmt) string {
	paren := func(x string) string {
		if p.Sep == 2 || p.Sep == 3 {
			return "(" + p.Pad + x + p.Pad + ")"
		}
		return "(" + x + ")"
	}
	opt := func(s Stmt) string {
		if s == nil {
			return ""
		}
		return p.inner(s)
	}
	str := func(s string) string { return p.Style.str(s) }
	els := func(has bool, l []Stmt) string {
		if !has {
			return ""
		}
		return "@else" + p.List(l)
	}
	switch s := s.(type) {
	case Text:
		return s.S
	case RawText:
		return s.Src
	case Comment:
		return "{{--" + s.S + "--}}"
	case Print1, Assign:
		return p.braces(p.inner(s))
	case Braces:
		var x []string
		for _, y := range s.S {
			x = append(x, p.inner(y))
		}
		return p.braces(strings.Join(x, ";"+p.sp()))
	case If:
		var b strings.Builder
		for i, c := range s.C {
			kw := "@if"
			if i > 0 {
				kw = "@elseif"
			}
			b.WriteString(kw + paren(p.expr(c)) + p.List(s.B[i]))
		}
		return b.String() + els(s.Has, s.Else) + "@end"
	case Each:
		return "@each" + paren(s.V+" in "+p.expr(s.A)) + p.List(s.B) + els(s.Has, s.Else) + "@end"
	case For:
		c := ""
		if s.C != nil {
			c = p.expr(s.C)
		}
		return "@for" + paren(opt(s.Init)+";"+p.sp()+c+";"+p.sp()+opt(s.Post)) + p.List(s.B) + els(s.Has, s.Else) + "@end"
	case Break:
		return "@break"
	case Continue:
		return "@continue"
	case BreakIf:
		return "@breakIf" + paren(p.expr(s.C))
	case ContinueIf:
		return "@continueIf" + paren(p.expr(s.C))
	case Use:
		return "@use" + paren(str(s.N))
	case Reserve:
		return "@reserve" + paren(str(s.N))
	case Insert:
		if s.Arg != nil {
			return "@insert" + paren(str(s.N)+","+p.sp()+p.expr(s.Arg))
		}
		return "@insert" + paren(str(s.N)) + p.List(s.B) + "@end"
	case Slot:
		if s.Has {
			return "@slot" + paren(str(s.N))
		}
		return "@slot"
	case Component:
		a := str(s.N)
		if s.Args != nil {
			a += "," + p.sp() + p.expr(*s.Args)
		}
		o := "@component" + paren(a)
		if len(s.Slots) == 0 {
			return o
		}
		for _, sl := range s.Slots {
			o += p.SlotWS + "@slot"
			if sl.Has {
				o += paren(str(sl.N))
			}
			o += p.List(sl.B) + "@end"
		}
		return o + p.SlotWS + "@end"
	}
	panic("ref: not a statement")
}

// ---------------------------------------------------------------- rendering

type Site struct {
	Files map[string][]Stmt // name without extension
}

type control int

const (
	ctlNone control = iota
	ctlBreak
	ctlContinue
)

// Machine renders statements
type Machine struct {
	Interp
	Site    *Site
	inserts map[string]Insert
	slots   map[string][]Stmt
	// FreshPass: every pass of a loop body is a scope of its own.  The language
	// description leaves open whether the passes share one scope; programs whose
	// result depends on it are unspecified.
	FreshPass bool
	// ElseInLoop: the @else body of a @for sees what the header bound.  Open as well.
	ElseInLoop bool
	inLoop     int
}

type Result struct {
	Out      string
	Fail     *Fail
	MayError bool
	// Alts are the results under every reading of what the language leaves open
	// (Fail is then unspecified)
	Alts []Result
}

// Render renders a list of statements with data; both readings of the scope of
// loop passes have to agree.
func Render(site *Site, l []Stmt, data map[string]Value, fns map[string]map[string]func(Value, []Value) (Value, *Fail)) Result {
	var rs [4]Result
	for i := range rs {
		if i == 2 && same(rs[0], rs[1]) {
			rs[0].MayError = rs[0].MayError || rs[1].MayError
			return rs[0]
		}
		m := &Machine{Site: site, FreshPass: i == 1 || i == 2, ElseInLoop: i == 1 || i == 3}
		m.Fns = fns
		env := NewEnv(nil)
		for k, v := range data {
			if k == "loop" {
				return Result{Fail: errf("loop in the data")}
			}
			env.Put(k, v)
		}
		out, _, f := m.Page(l, env)
		rs[i] = Result{Out: out, Fail: f, MayError: m.MayError}
		if f != nil && f.Unspec {
			return rs[i]
		}
	}
	return Result{Fail: unspec("depends on the scope inside of loops"), Alts: rs[:]}
}

func same(a, b Result) bool {
	return (a.Fail == nil) == (b.Fail == nil) && (a.Fail != nil || a.Out == b.Out)
}

func (m *Machine) Page(l []Stmt, env *Env) (string, control, *Fail) {
	for _, s := range l {
		if u, ok := s.(Use); ok {
			m.inserts = map[string]Insert{}
			collectInserts(l, m.inserts)
			return m.List(m.Site.Files[Alias(u.N, "layouts")], env)
		}
	}
	return m.List(l, env)
}

// Alias resolves '~name'
func Alias(n, dir string) string {
	if strings.HasPrefix(n, "~") {
		return dir + "/" + n[1:]
	}
	return n
}

func collectInserts(l []Stmt, into map[string]Insert) {
	for _, s := range l {
		if x, ok := s.(Insert); ok {
			into[x.N] = x
		}
	}
}

// List renders statements in one scope.  On @break/@continue the output up to
// that point is returned.
func (m *Machine) List(l []Stmt, env *Env) (string, control, *Fail) {
	var b strings.Builder
	for _, s := range l {
		o, c, f := m.Stmt(s, env)
		if f != nil {
			return "", ctlNone, f
		}
		b.WriteString(o)
		if c != ctlNone {
			return b.String(), c, nil
		}
	}
	return b.String(), ctlNone, nil
}

func (m *Machine) Stmt(s Stmt, env *Env) (string, control, *Fail) {
	if f := m.step(); f != nil {
		return "", 0, f
	}
	none := ctlNone
	switch s := s.(type) {
	case Text:
		return s.S, none, nil
	case RawText:
		return s.Out, none, nil
	case Comment:
		return "", none, nil
	case Print1:
		v, f := m.Eval(s.X, env)
		if f != nil {
			return "", none, f
		}
		if Odd(v) {
			return "", none, unspec("text of an unusual float")
		}
		return Print(v), none, nil
	case Assign:
		v, f := m.Eval(s.X, env)
		if f != nil {
			return "", none, f
		}
		return "", none, env.Assign(s.N, v)
	case Braces:
		return m.List(s.S, env)
	case If:
		for i, c := range s.C {
			v, f := m.Eval(c, env)
			if f != nil {
				return "", none, f
			}
			if Truthy(v) {
				return m.List(s.B[i], NewEnv(env))
			}
		}
		if s.Has {
			return m.List(s.Else, NewEnv(env))
		}
		return "", none, nil
	case Break, Continue, BreakIf, ContinueIf:
		return m.ctl(s, env)
	case Each:
		v, f := m.Eval(s.A, env)
		if f != nil {
			return "", none, f
		}
		a, ok := v.(*Arr)
		if !ok {
			return "", none, errf("@each over " + TypeOf(v))
		}
		if len(a.E) == 0 {
			if s.Has {
				return m.List(s.Else, NewEnv(env))
			}
			return "", none, nil
		}
		le := NewEnv(env)
		var b strings.Builder
		for i, e := range a.E {
			if m.FreshPass {
				keep, had := le.m[s.V]
				le = NewEnv(env)
				if had {
					le.m[s.V] = keep // the loop variable itself stays type stable
				}
			}
			if f := le.Assign(s.V, e); f != nil {
				return "", none, f
			}
			le.Put("loop", &Obj{M: map[string]Value{"index": int64(i), "iter": int64(i + 1), "first": i == 0, "last": i == len(a.E)-1}})
			m.inLoop++
			o, c, f := m.List(s.B, le)
			m.inLoop--
			if f != nil {
				return "", none, f
			}
			b.WriteString(o)
			if c == ctlBreak {
				break
			}
		}
		return b.String(), none, nil
	case For:
		le := NewEnv(env)
		var b strings.Builder
		if s.Init != nil {
			if _, _, f := m.Stmt(s.Init, le); f != nil {
				return "", none, f
			}
		}
		if s.C == nil {
			return "", none, errf("no condition")
		}
		for pass := 0; ; pass++ {
			v, f := m.Eval(s.C, le)
			if f != nil {
				return "", none, f
			}
			if !Truthy(v) {
				if pass == 0 && s.Has {
					if m.ElseInLoop {
						return m.List(s.Else, NewEnv(le))
					}
					return m.List(s.Else, NewEnv(env))
				}
				return b.String(), none, nil
			}
			be := le
			if m.FreshPass {
				be = NewEnv(le)
			}
			m.inLoop++
			o, c, f := m.List(s.B, be)
			m.inLoop--
			if f != nil {
				return "", none, f
			}
			b.WriteString(o)
			if c == ctlBreak {
				return b.String(), none, nil
			}
			if f := m.post(s, le); f != nil {
				return "", none, f
			}
			if b.Len() > 1<<16 {
				return "", none, unspec("too much output")
			}
		}
	case Use, Insert:
		return "", none, nil
	case Reserve:
		i, ok := m.inserts[s.N]
		if !ok {
			return "", none, nil
		}
		if i.Arg != nil {
			v, f := m.Eval(i.Arg, env)
			if f != nil {
				return "", none, f
			}
			return Print(v), none, nil
		}
		o, c, f := m.List(i.B, env)
		if c != none {
			return "", none, unspec("loop control leaves an insert")
		}
		return o, none, f
	case Component:
		ce := NewEnv(env)
		if s.Args != nil {
			var fail *Fail
			for i, k := range s.Args.K {
				v, f := m.Eval(s.Args.V[i], env)
				if f == nil && k == "loop" {
					f = errf("loop as an argument")
				}
				if f != nil {
					fail = first(fail, f)
					continue
				}
				if old, ok := env.Get(k); ok && TypeOf(old) != TypeOf(v) {
					m.MayError = true // shadowing with another type: allowed or refused
				}
				ce.Put(k, v)
			}
			if fail != nil {
				return "", none, fail
			}
		}
		saved := m.slots
		m.slots = map[string][]Stmt{}
		for _, sl := range s.Slots {
			m.slots[slotKey(sl.N, sl.Has)] = sl.B
		}
		o, c, f := m.List(m.Site.Files[Alias(s.N, "components")], ce)
		m.slots = saved
		if c != none {
			return "", none, unspec("loop control leaves a component")
		}
		return o, none, f
	case Slot:
		body, ok := m.slots[slotKey(s.N, s.Has)]
		if !ok {
			return "", none, nil
		}
		o, c, f := m.List(body, env)
		if c != none {
			return "", none, unspec("loop control leaves a slot")
		}
		return o, none, f
	}
	panic("ref: not a statement")
}

func slotKey(n string, has bool) string {
	if !has {
		return ""
	}
	return n
}

func (m *Machine) post(s For, le *Env) *Fail {
	switch p := s.Post.(type) {
	case nil:
		return nil
	case Assign:
		_, _, f := m.Stmt(p, le)
		return f
	case Print1:
		v, f := m.Eval(p.X, le)
		if f != nil {
			return f
		}
		// "i++" changes i
		if x, ok := p.X.(Post); ok {
			if id, ok := x.X.(Var); ok {
				return le.Assign(id.N, v)
			}
		}
		return unspec("post expression that changes nothing")
	}
	panic("ref: post")
}

func (m *Machine) ctl(s Stmt, env *Env) (string, control, *Fail) {
	if m.inLoop == 0 {
		return "", ctlNone, unspec("loop control outside of a loop")
	}
	switch s := s.(type) {
	case Break:
		return "", ctlBreak, nil
	case Continue:
		return "", ctlContinue, nil
	case BreakIf:
		v, f := m.Eval(s.C, env)
		if f != nil || !Truthy(v) {
			return "", ctlNone, f
		}
		return "", ctlBreak, nil
	case ContinueIf:
		v, f := m.Eval(s.C, env)
		if f != nil || !Truthy(v) {
			return "", ctlNone, f
		}
		return "", ctlContinue, nil
	}
	panic("ref: control")
}
