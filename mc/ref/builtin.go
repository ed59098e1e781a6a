package ref

import (
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Shuffled marks a result that is a permutation of E, and OneOf a member of E.
type (
	Shuffled struct{ E []Value }
	OneOf    struct{ E []Value }
)

// BuiltinNames lists every built-in per receiver type
var BuiltinNames = map[string][]string{
	"str":   {"len", "split", "raw", "trim", "trimRight", "trimLeft", "upper", "lower", "capitalize", "reverse", "contains", "truncate", "decimal", "at", "first", "last", "repeat"},
	"arr":   {"len", "join", "rand", "reverse", "slice", "shuffle", "contains", "append", "prepend"},
	"float": {"int", "str", "abs", "ceil", "floor", "round"},
	"int":   {"float", "abs", "str", "len", "decimal"},
	"bool":  {"binary", "then"},
}

func IsBuiltin(typ, name string) bool {
	for _, n := range BuiltinNames[typ] {
		if n == name {
			return true
		}
	}
	return false
}

func runes(s string) []rune { return []rune(s) }

func substr(r []rune) string { return string(r) }

// Builtin applies a built-in function
func Builtin(recv Value, name string, args []Value) (v Value, known bool, f *Fail) {
	if !IsBuiltin(TypeOf(recv), name) {
		return nil, false, nil
	}
	switch r := recv.(type) {
	case string:
		v, f = strFn(r, name, args)
	case *Arr:
		v, f = arrFn(r, name, args)
	case int64:
		v, f = intFn(r, name, args)
	case float64:
		v, f = floatFn(r, name, args)
	case bool:
		v, f = boolFn(r, name, args)
	}
	return v, true, f
}

func strArg(args []Value, i int) (string, bool) {
	s, ok := args[i].(string)
	return s, ok
}

func strFn(s, name string, args []Value) (Value, *Fail) {
	valid := utf8.ValidString(s)
	r := runes(s)
	surplus := func(n int) bool { return len(args) > n }
	badKind := errf(name + ": argument kind")
	optStr := func(def string) (string, *Fail) {
		if len(args) == 0 {
			return def, nil
		}
		a, ok := args[0].(string)
		if !ok {
			return "", badKind
		}
		return a, nil
	}
	at := func(i int64) Value {
		n := int64(len(r))
		if i < 0 {
			i += n
			if i > n { // wrapped
				return nil
			}
		}
		if i < 0 || i >= n {
			return nil
		}
		return string(r[i])
	}
	if !valid {
		switch name {
		case "len", "reverse", "at", "first", "last", "truncate", "capitalize", "upper", "lower", "split", "trim", "trimLeft", "trimRight":
			return nil, unspec("string is not UTF-8")
		}
	}
	switch name {
	case "len":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		return int64(len(r)), nil
	case "raw":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		if strings.Contains(s, "&") {
			return nil, unspec("raw of entities")
		}
		return s, nil
	case "upper", "lower", "capitalize", "reverse", "first", "last":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		switch name {
		case "upper":
			return strings.ToUpper(s), nil
		case "lower":
			return strings.ToLower(s), nil
		case "capitalize":
			if len(r) == 0 {
				return "", nil
			}
			return strings.ToUpper(string(r[:1])) + string(r[1:]), nil
		case "reverse":
			var b strings.Builder
			for i := len(r) - 1; i >= 0; i-- {
				b.WriteRune(r[i])
			}
			return b.String(), nil
		case "first":
			return at(0), nil
		}
		return at(-1), nil
	case "split":
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		sep, f := optStr(" ")
		if f != nil {
			return nil, f
		}
		if !utf8.ValidString(sep) {
			return nil, unspec("separator is not UTF-8")
		}
		a := &Arr{}
		if sep == "" {
			for _, c := range r {
				a.E = append(a.E, string(c))
			}
			return a, nil
		}
		rest := s
		for {
			i := strings.Index(rest, sep)
			if i < 0 {
				a.E = append(a.E, rest)
				return a, nil
			}
			a.E = append(a.E, rest[:i])
			rest = rest[i+len(sep):]
		}
	case "trim", "trimLeft", "trimRight":
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		set, f := optStr("\t \n\r")
		if f != nil {
			return nil, f
		}
		if !utf8.ValidString(set) {
			return nil, unspec("set is not UTF-8")
		}
		in := func(c rune) bool { return strings.ContainsRune(set, c) }
		i, j := 0, len(r)
		if name != "trimRight" {
			for i < j && in(r[i]) {
				i++
			}
		}
		if name != "trimLeft" {
			for j > i && in(r[j-1]) {
				j--
			}
		}
		return string(r[i:j]), nil
	case "contains":
		if len(args) == 0 {
			return nil, errf("contains needs an argument")
		}
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		sub, ok := args[0].(string)
		if !ok {
			return nil, badKind
		}
		return strings.Contains(s, sub), nil
	case "truncate":
		if len(args) == 0 {
			return nil, errf("truncate needs an argument")
		}
		if surplus(2) {
			return nil, unspec("surplus arguments")
		}
		n, ok := args[0].(int64)
		if !ok {
			return nil, badKind
		}
		el := "..."
		if len(args) == 2 {
			if el, ok = args[1].(string); !ok {
				if n >= int64(len(r)) {
					return nil, unspec("an ellipsis of the wrong kind that is not used")
				}
				return nil, badKind
			}
		}
		if n < 0 {
			return nil, errf("negative length")
		}
		if n >= int64(len(r)) {
			return s, nil
		}
		return string(r[:n]) + el, nil
	case "decimal":
		// only on integer texts
		if strings.HasPrefix(s, "+") {
			return nil, unspec("decimal of a signed text")
		}
		if _, err := strconv.ParseInt(s, 10, 64); err != nil {
			if len(args) > 0 {
				if _, ok := args[0].(string); !ok {
					return nil, unspec("decimal of a non-number with arguments of the wrong kind")
				}
				if len(args) > 2 {
					return nil, unspec("decimal of a non-number with surplus arguments")
				}
				if len(args) == 2 {
					n, ok := args[1].(int64)
					if !ok || n < 0 || n > 1<<20 {
						return nil, unspec("decimal of a non-number with arguments of the wrong kind")
					}
				}
			}
			if err != nil && (s == "" || strings.Trim(s, "0123456789+-") == "") {
				return nil, unspec("decimal of a number-like text")
			}
			return s, nil
		}
		return decimal(s, args)
	case "at":
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		if len(args) == 0 {
			return at(0), nil
		}
		n, ok := args[0].(int64)
		if !ok {
			return nil, badKind
		}
		return at(n), nil
	case "repeat":
		if len(args) == 0 {
			return nil, errf("repeat needs an argument")
		}
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		n, ok := args[0].(int64)
		if !ok {
			return nil, badKind
		}
		if n < 0 {
			return nil, errf("negative count")
		}
		if s == "" {
			return "", nil
		}
		if n > (1<<20)/int64(len(s)) {
			return nil, unspec("a huge count")
		}
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteString(s)
		}
		return b.String(), nil
	}
	panic("ref: " + name)
}

func decimal(s string, args []Value) (Value, *Fail) {
	sep, dec := ".", int64(2)
	if len(args) > 2 {
		return nil, errf("decimal takes two arguments")
	}
	var ok bool
	if len(args) >= 1 {
		if sep, ok = args[0].(string); !ok {
			return nil, errf("decimal: separator kind")
		}
	}
	if len(args) == 2 {
		if dec, ok = args[1].(int64); !ok {
			return nil, errf("decimal: decimals kind")
		}
	}
	if dec < 0 {
		return nil, errf("negative decimals")
	}
	if dec > 1<<20 {
		return nil, unspec("huge decimals")
	}
	if dec == 0 {
		return s, nil
	}
	z := make([]byte, dec)
	for i := range z {
		z[i] = '0'
	}
	return s + sep + string(z), nil
}

func arrFn(a *Arr, name string, args []Value) (Value, *Fail) {
	need := func(n int) bool { return len(args) < n }
	surplus := func(n int) bool { return len(args) > n }
	switch name {
	case "len":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		return int64(len(a.E)), nil
	case "join":
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		sep := ","
		if len(args) == 1 {
			var ok bool
			if sep, ok = args[0].(string); !ok {
				return nil, errf("join: separator kind")
			}
		}
		if Odd(a) {
			return nil, unspec("text of an unusual float")
		}
		s := ""
		for i, e := range a.E {
			if i > 0 {
				s += sep
			}
			s += Print(e)
		}
		return s, nil
	case "rand":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		if len(a.E) == 0 {
			return nil, nil
		}
		if len(a.E) == 1 {
			return a.E[0], nil
		}
		return nil, unspec("rand")
	case "shuffle":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		if len(a.E) > 1 {
			return nil, unspec("shuffle")
		}
		return &Arr{append([]Value(nil), a.E...)}, nil
	case "reverse":
		if surplus(0) {
			return nil, unspec("surplus arguments")
		}
		r := &Arr{}
		for i := len(a.E) - 1; i >= 0; i-- {
			r.E = append(r.E, a.E[i])
		}
		return r, nil
	case "slice":
		if need(1) {
			return nil, errf("slice needs an argument")
		}
		if surplus(2) {
			return nil, unspec("surplus arguments")
		}
		n := int64(len(a.E))
		i, ok := args[0].(int64)
		if !ok {
			return nil, errf("slice: start kind")
		}
		j := n
		if len(args) == 2 {
			if j, ok = args[1].(int64); !ok {
				return nil, errf("slice: end kind")
			}
		}
		if i < 0 {
			i = 0
		}
		if i > n {
			i = n
		}
		if j < 0 || j > n {
			j = n
		}
		if j < i {
			j = i
		}
		return &Arr{append([]Value(nil), a.E[i:j]...)}, nil
	case "contains":
		if need(1) {
			return nil, errf("contains needs an argument")
		}
		if surplus(1) {
			return nil, unspec("surplus arguments")
		}
		for _, e := range a.E {
			if Equal(e, args[0]) {
				return true, nil
			}
		}
		return false, nil
	case "append":
		if need(1) {
			return nil, errf("append needs an argument")
		}
		return &Arr{append(append([]Value(nil), a.E...), args...)}, nil
	case "prepend":
		if need(1) {
			return nil, errf("prepend needs an argument")
		}
		return &Arr{append(append([]Value(nil), args...), a.E...)}, nil
	}
	panic("ref: " + name)
}

func intFn(n int64, name string, args []Value) (Value, *Fail) {
	if len(args) > 0 && name != "decimal" {
		return nil, unspec("surplus arguments")
	}
	switch name {
	case "float":
		return float64(n), nil
	case "abs":
		if n < 0 {
			n = -n
		}
		return n, nil
	case "str":
		return strconv.FormatInt(n, 10), nil
	case "len":
		return int64(len(strings.TrimPrefix(strconv.FormatInt(n, 10), "-"))), nil
	case "decimal":
		return decimal(strconv.FormatInt(n, 10), args)
	}
	panic("ref: " + name)
}

func floatFn(x float64, name string, args []Value) (Value, *Fail) {
	if len(args) > 0 {
		return nil, unspec("surplus arguments")
	}
	conv := func(f float64) (Value, *Fail) {
		if math.IsNaN(f) || f >= 9.2e18 || f <= -9.2e18 {
			return nil, unspec("float outside of the integers")
		}
		return int64(f), nil
	}
	switch name {
	case "int":
		return conv(math.Trunc(x))
	case "abs":
		return math.Abs(x), nil
	case "ceil":
		return conv(math.Ceil(x))
	case "floor":
		return conv(math.Floor(x))
	case "round":
		f := math.Floor(math.Abs(x))
		if math.Abs(x)-f >= 0.5 {
			f++
		}
		return conv(math.Copysign(f, x))
	case "str":
		if x == math.Trunc(x) {
			return nil, unspec("text of an integral float")
		}
		return strconv.FormatFloat(x, 'f', -1, 64), nil
	}
	panic("ref: " + name)
}

func boolFn(b bool, name string, args []Value) (Value, *Fail) {
	switch name {
	case "binary":
		if len(args) > 0 {
			return nil, unspec("surplus arguments")
		}
		if b {
			return int64(1), nil
		}
		return int64(0), nil
	case "then":
		if len(args) == 0 {
			return nil, errf("then needs an argument")
		}
		if len(args) > 2 {
			return nil, unspec("surplus arguments")
		}
		if b {
			return args[0], nil
		}
		if len(args) == 2 {
			return args[1], nil
		}
		return nil, nil
	}
	panic("ref: " + name)
}
