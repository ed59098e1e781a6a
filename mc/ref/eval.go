package ref

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Env is a chain of scopes
type Env struct {
	m     map[string]Value
	outer *Env
}

func NewEnv(outer *Env) *Env { return &Env{m: map[string]Value{}, outer: outer} }

func (e *Env) Get(n string) (Value, bool) {
	for ; e != nil; e = e.outer {
		if v, ok := e.m[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (e *Env) Put(n string, v Value) { e.m[n] = v }

// Assign is an assignment or a loop binding
func (e *Env) Assign(n string, v Value) *Fail {
	if n == "loop" {
		return errf("loop is reserved")
	}
	if old, ok := e.Get(n); ok && TypeOf(old) != TypeOf(v) {
		return errf("type of " + n + " changed")
	}
	e.m[n] = v
	return nil
}

// Interp evaluates; the fields record what the evaluation ran into
type Interp struct {
	Env      *Env
	Steps    int
	MayError bool // an error would be accepted instead of the value as well
	Fns      map[string]map[string]func(recv Value, args []Value) (Value, *Fail)
}

const maxSteps = 200000

func (in *Interp) step() *Fail {
	if in.Steps++; in.Steps > maxSteps {
		return unspec("too many steps")
	}
	return nil
}

// Eval evaluates an expression.  A failure of any sub-expression that is
// evaluated fails the whole; operands are evaluated left to right, but which
// of two errors surfaces is never compared.
func (in *Interp) Eval(x Expr, env *Env) (Value, *Fail) {
	if f := in.step(); f != nil {
		return nil, f
	}
	switch x := x.(type) {
	case Par:
		return in.Eval(x.X, env)
	case Lit:
		return escapeLit(x.V), nil
	case Num:
		if strings.Contains(x.Src, ".") {
			f, err := strconv.ParseFloat(x.Src, 64)
			if err != nil {
				return nil, errf("float literal")
			}
			return f, nil
		}
		n, err := strconv.ParseInt(x.Src, 10, 64)
		if err != nil {
			return nil, errf("integer literal out of range")
		}
		return n, nil
	case Var:
		v, ok := env.Get(x.N)
		if !ok {
			return nil, errf("unknown identifier " + x.N)
		}
		return v, nil
	case Un:
		v, f := in.Eval(x.X, env)
		if f != nil {
			return nil, f
		}
		return Unary(x.Op, v)
	case Post:
		v, f := in.Eval(x.X, env)
		if f != nil {
			return nil, f
		}
		return Postfix(x.Op, v)
	case Bin:
		l, f := in.Eval(x.L, env)
		r, g := in.Eval(x.R, env)
		if f = first(f, g); f != nil {
			return nil, f
		}
		return Binary(x.Op, l, r)
	case Tern:
		c, f := in.Eval(x.C, env)
		if f != nil {
			return nil, f
		}
		if Truthy(c) {
			return in.Eval(x.T, env)
		}
		return in.Eval(x.E, env)
	case Idx:
		l, f := in.Eval(x.X, env)
		i, g := in.Eval(x.I, env)
		if f = first(f, g); f != nil {
			return nil, f
		}
		return Index(l, i)
	case Dot:
		l, f := in.Eval(x.X, env)
		if f != nil {
			return nil, f
		}
		o, ok := l.(*Obj)
		if !ok {
			return nil, errf("property of a " + TypeOf(l))
		}
		return Prop(o, x.N)
	case Call:
		r, f := in.Eval(x.X, env)
		if f != nil {
			return nil, f
		}
		var args []Value
		for _, a := range x.A {
			v, g := in.Eval(a, env)
			if f = first(f, g); f != nil {
				return nil, f
			}
			args = append(args, v)
		}
		v, known, f := Builtin(r, x.N, args)
		if known {
			return v, f
		}
		if fn := in.Fns[TypeOf(r)][x.N]; fn != nil {
			return fn(r, args)
		}
		return nil, errf("no function " + x.N + " for " + TypeOf(r))
	case ArrL:
		a := &Arr{}
		var fail *Fail
		for _, e := range x.E {
			v, f := in.Eval(e, env)
			fail = first(fail, f)
			a.E = append(a.E, v)
		}
		if fail != nil {
			return nil, fail
		}
		return a, nil
	case ObjL:
		o := &Obj{M: map[string]Value{}}
		var fail *Fail
		for i, e := range x.V {
			v, f := in.Eval(e, env)
			fail = first(fail, f)
			o.M[x.K[i]] = v
		}
		if fail != nil {
			return nil, fail
		}
		return o, nil
	}
	panic("ref: not an expression")
}

// first: an unspecified failure makes the whole unspecified
func first(a, b *Fail) *Fail {
	if a == nil {
		return b
	}
	if b != nil && b.Unspec {
		return b
	}
	return a
}

// the text of string literals is HTML escaped
func escapeLit(v Value) Value {
	switch v := v.(type) {
	case string:
		return Escape(v)
	case *Arr:
		r := &Arr{}
		for _, e := range v.E {
			r.E = append(r.E, escapeLit(e))
		}
		return r
	case *Obj:
		r := &Obj{M: map[string]Value{}}
		for k, e := range v.M {
			r.M[k] = escapeLit(e)
		}
		return r
	}
	return v
}

func Unary(op string, v Value) (Value, *Fail) {
	switch op {
	case "-":
		switch v := v.(type) {
		case int64:
			return -v, nil
		case float64:
			return -v, nil
		}
	case "!":
		switch v := v.(type) {
		case bool:
			return !v, nil
		case nil:
			return true, nil
		case string, *Arr, *Obj, int64, float64:
			return nil, errf("! on " + TypeOf(v))
		}
	}
	return nil, errf(op + " on " + TypeOf(v))
}

// Dyadic: adding or subtracting 1 is exact and needs no decimal rounding rule
func dyadic(f float64) bool {
	return math.Abs(f) < 1e9 && f*1024 == math.Trunc(f*1024)
}

func Postfix(op string, v Value) (Value, *Fail) {
	d := int64(1)
	if op == "--" {
		d = -1
	}
	switch v := v.(type) {
	case int64:
		return v + d, nil
	case float64:
		if op == "--" && !dyadic(v) {
			return nil, unspec("-- on a float that is not exact")
		}
		return v + float64(d), nil
	}
	return nil, errf(op + " on " + TypeOf(v))
}

func Binary(op string, l, r Value) (Value, *Fail) {
	if TypeOf(l) != TypeOf(r) {
		return nil, errf("mixed operands")
	}
	switch a := l.(type) {
	case int64:
		b := r.(int64)
		switch op {
		case "+":
			return a + b, nil
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		case "/", "%":
			if b == 0 {
				return nil, errf("division by zero")
			}
			if b == -1 {
				if op == "/" {
					return -a, nil
				}
				return int64(0), nil
			}
			if op == "/" {
				return a / b, nil
			}
			return a % b, nil
		case "==":
			return a == b, nil
		case "!=":
			return a != b, nil
		case "<":
			return a < b, nil
		case ">":
			return a > b, nil
		case "<=":
			return a <= b, nil
		case ">=":
			return a >= b, nil
		}
	case float64:
		b := r.(float64)
		switch op {
		case "+":
			return a + b, nil
		case "-":
			return a - b, nil
		case "*":
			return a * b, nil
		case "/":
			return a / b, nil
		case "%":
			return nil, unspec("% on floats")
		case "==":
			return a == b, nil
		case "!=":
			return a != b, nil
		case "<":
			return a < b, nil
		case ">":
			return a > b, nil
		case "<=":
			return a <= b, nil
		case ">=":
			return a >= b, nil
		}
	case string:
		b := r.(string)
		switch op {
		case "+":
			return a + b, nil
		case "==":
			return a == b, nil
		case "!=":
			return a != b, nil
		}
		return nil, unspec("string " + op)
	}
	// equality of booleans, nil, arrays and objects is not described
	return nil, unspec(op + " on " + TypeOf(l))
}

func Index(l, i Value) (Value, *Fail) {
	switch l := l.(type) {
	case *Arr:
		if n, ok := i.(int64); ok {
			if n < 0 || n >= int64(len(l.E)) {
				return nil, nil
			}
			return l.E[n], nil
		}
	case *Obj:
		if k, ok := i.(string); ok {
			return Prop(l, k)
		}
	}
	return nil, errf("index " + TypeOf(i) + " of " + TypeOf(l))
}

func Prop(o *Obj, k string) (Value, *Fail) {
	if v, ok := o.M[k]; ok {
		return v, nil
	}
	r, n := utf8.DecodeRuneInString(k)
	if n > 0 && r != utf8.RuneError {
		up := strings.ToUpper(k[:n]) + k[n:]
		if v, ok := o.M[up]; ok {
			if o.Struct {
				return v, nil
			}
			return nil, unspec("lower case access to a map key")
		}
	}
	return nil, errf("unknown property " + k)
}
