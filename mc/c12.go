package main

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"math"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	. "verifmc/ref"

	textwire "github.com/textwire/textwire/v2"
)

// gt is a Go type generated at run time: v builds its k-th value together with
// what a template has to see of it.  The model side is written down by
// construction, next to the Go side; nothing is derived from the Go value.
type gt struct {
	name string
	t    reflect.Type
	n    int
	v    func(k int) (reflect.Value, Value)
	zero func() Value
}

type str12 string
type role12 string

func (r role12) String() string { return "Stringer!" }

type err12 string

func (r err12) Error() string { return "Error!" }

type num12 int32

func (r num12) MarshalText() ([]byte, error) { return []byte("marshal!"), nil }
func (r *num12) String() string              { return "ptr stringer!" }

type flag12 bool
type ratio12 float32
type u12 uint16
type key12 string

func (k key12) String() string               { return "key!" }
func (k key12) MarshalText() ([]byte, error) { return []byte("key!"), nil }

// meth12 has the methods that libraries like to ask for
type meth12 struct {
	A int
	b string
}

func (m meth12) String() string                 { return fmt.Sprint("String!", m.A) }
func (m meth12) Error() string                  { return fmt.Sprint("Error!", m.A) }
func (m meth12) GoString() string               { return "GoString!" }
func (m meth12) MarshalText() ([]byte, error)   { return []byte("text!"), nil }
func (m meth12) MarshalJSON() ([]byte, error)   { return []byte(`"json!"`), nil }
func (m meth12) MarshalBinary() ([]byte, error) { return []byte("binary!"), nil }
func (m meth12) Value() (any, error)            { return "value!", nil }
func (m meth12) Interface() any                 { return "interface!" }
func (m meth12) IsZero() bool                   { return true }
func (m meth12) IsNil() bool                    { return true }
func (m meth12) Len() int                       { return 3 }
func (m meth12) Unwrap() error                  { return errors.New("unwrapped!") }
func (m meth12) Bool() bool                     { return false }
func (m meth12) Int64() (int64, error)          { return 64, nil }
func (m meth12) ToMap() map[string]any          { return map[string]any{"A": "map!"} }
func (m meth12) HTML() string                   { return "html!" }
func (m meth12) Format(f fmt.State, verb rune)  { fmt.Fprint(f, "format!") }
func (m *meth12) UnmarshalJSON([]byte) error    { panic("unmarshal") }
func (m meth12) Each(f func(string, any))       { f("A", "each!") }
func (m meth12) Type() string                   { return "type!" }
func (m meth12) Get(string) (any, bool)         { return "get!", true }

// pmeth12 has them on the pointer, where they fail for nil
type pmeth12 struct{ A int }

func (m *pmeth12) String() string               { return fmt.Sprint("String!", m.A) }
func (m *pmeth12) Error() string                { return fmt.Sprint("Error!", m.A) }
func (m *pmeth12) MarshalText() ([]byte, error) { return []byte(fmt.Sprint(m.A)), nil }
func (m *pmeth12) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(m.A)), nil }
func (m *pmeth12) Value() (any, error)          { return m.A, nil }
func (m *pmeth12) IsZero() bool                 { return m.A == 0 }
func (m *pmeth12) IsNil() bool                  { return m.A == 1 }

// hid12 hides its first field
type hid12 struct {
	h int
	X int
}

func (h hid12) String() string                    { return "hidden!" }
func (h hid12) Error() string                     { return "hidden!" }
func (h hid12) Value() (any, error)               { return "hidden!", nil }
func (h hid12) MarshalText() ([]byte, error)      { return []byte("hidden!"), nil }
func (h hid12) MarshalJSON() ([]byte, error)      { return []byte(`"hidden!"`), nil }
func (h hid12) AppendText([]byte) ([]byte, error) { return []byte("hidden!"), nil }

// all12 hides all of them
type all12 struct {
	a int
	b string
}

func (h all12) String() string               { return "hidden!" }
func (h all12) Error() string                { return "hidden!" }
func (h all12) Value() (any, error)          { return "hidden!", nil }
func (h all12) MarshalText() ([]byte, error) { return []byte("hidden!"), nil }

type nil12 struct{}

func (h nil12) String() string               { return "nothing!" }
func (h nil12) MarshalText() ([]byte, error) { return []byte("nothing!"), nil }

var urlFields = []string{"Scheme", "Opaque", "Host", "Path", "RawPath", "RawQuery", "Fragment", "RawFragment"}

func urlObj(kv ...string) *Obj {
	m := map[string]Value{"User": nil, "OmitHost": false, "ForceQuery": false}
	for _, f := range urlFields {
		m[f] = ""
	}
	for k := 0; k < len(kv); k += 2 {
		m[kv[k]] = kv[k+1]
	}
	return obj(m, true)
}

var urlZero, urlVal = urlObj(), urlObj("Scheme", "http", "Host", "h", "Path", "/p")

type list12 []string

func (l list12) String() string               { return "list!" }
func (l list12) Error() string                { return "list!" }
func (l list12) Len() int                     { return 1 }
func (l list12) Less(i, j int) bool           { return l[i] < l[j] }
func (l list12) Swap(i, j int)                { l[i], l[j] = l[j], l[i] }
func (l list12) MarshalText() ([]byte, error) { return []byte("list!"), nil }

type dict12 map[key12]any

func (d dict12) String() string   { return "dict!" }
func (d dict12) Error() string    { return "dict!" }
func (d dict12) Get(k string) any { return "get!" }
func (d dict12) Keys() []string   { return nil }
func (d dict12) IsZero() bool     { return true }

type stringer12 interface{ String() string }

func leaf(name string, zero Value, kv ...any) gt {
	t := reflect.TypeOf(kv[0])
	return gt{name, t, len(kv) / 2, func(k int) (reflect.Value, Value) {
		return reflect.ValueOf(kv[2*k]), kv[2*k+1]
	}, func() Value { return zero }}
}

func leaves12() []gt {
	i := func(n int64) Value { return n }
	any12 := reflect.TypeOf((*any)(nil)).Elem()
	errT := reflect.TypeOf((*error)(nil)).Elem()
	strT := reflect.TypeOf((*stringer12)(nil)).Elem()
	ifc := func(name string, t reflect.Type, vs ...any) gt {
		return gt{name, t, len(vs) / 2, func(k int) (reflect.Value, Value) {
			r := reflect.New(t).Elem()
			if vs[2*k] != nil {
				r.Set(reflect.ValueOf(vs[2*k]))
			}
			return r, vs[2*k+1]
		}, func() Value { return nil }}
	}
	return []gt{
		leaf("string", "", "", "", "a <b> &amp; \"q\" 'r' \\ {{ x }} @end\r\n\té\xff\x00", "a <b> &amp; \"q\" 'r' \\ {{ x }} @end\r\n\té\xff\x00", "12", "12"),
		leaf("bool", false, true, true, false, false),
		leaf("int", i(0), 7, i(7), math.MinInt, i(math.MinInt64), math.MaxInt, i(math.MaxInt64)),
		leaf("int8", i(0), int8(-128), i(-128), int8(127), i(127)),
		leaf("int16", i(0), int16(-32768), i(-32768), int16(32767), i(32767)),
		leaf("int32", i(0), int32(math.MinInt32), i(math.MinInt32), int32(math.MaxInt32), i(math.MaxInt32)),
		leaf("int64", i(0), int64(math.MinInt64), i(math.MinInt64), int64(math.MaxInt64), i(math.MaxInt64)),
		leaf("uint", i(0), uint(0), i(0), uint(math.MaxInt64), i(math.MaxInt64)),
		leaf("uint8", i(0), uint8(255), i(255), uint8(128), i(128)),
		leaf("uint16", i(0), uint16(65535), i(65535), uint16(32768), i(32768)),
		leaf("uint32", i(0), uint32(math.MaxUint32), i(math.MaxUint32), uint32(1<<31), i(1<<31)),
		leaf("uint64", i(0), uint64(math.MaxInt64), i(math.MaxInt64), uint64(1<<53+1), i(1<<53+1)),
		leaf("float32", 0.0, float32(1.5), 1.5, float32(0.1), float64(float32(0.1)), float32(-3), -3.0),
		leaf("float64", 0.0, 0.1, 0.1, -2.25, -2.25, 100.0, 100.0),
		ifc("any", any12, nil, nil, "s<", "s<", int8(3), i(3), float32(0.5), 0.5, true, true),
		ifc("error", errT, nil, nil, err12("e&"), "e&", meth12{3, "b"}, obj(map[string]Value{"A": i(3)}, true), (*pmeth12)(nil), nil, &pmeth12{1}, obj(map[string]Value{"A": i(1)}, true)),
		leaf("struct with methods", obj(map[string]Value{"A": i(0)}, true), meth12{2, "b"}, obj(map[string]Value{"A": i(2)}, true)),
		leaf("struct with pointer methods", obj(map[string]Value{"A": i(0)}, true), pmeth12{1}, obj(map[string]Value{"A": i(1)}, true)),
		leaf("struct with an unexported first field and methods", obj(map[string]Value{"X": i(0)}, true), hid12{h: 7, X: 8}, obj(map[string]Value{"X": i(8)}, true), hid12{}, obj(map[string]Value{"X": i(0)}, true)),
		leaf("struct without exported fields with methods", obj(map[string]Value{}, true), all12{1, "x"}, obj(map[string]Value{}, true)),
		leaf("empty struct with methods", obj(map[string]Value{}, true), nil12{}, obj(map[string]Value{}, true)),
		leaf("time.Time", obj(map[string]Value{}, true), time.Unix(1700000000, 5).UTC(), obj(map[string]Value{}, true), time.Time{}, obj(map[string]Value{}, true)),
		leaf("time.Month", i(0), time.March, i(3)),
		leaf("json.Number", "", json.Number("1.50"), "1.50"),
		leaf("json.RawMessage", A(), json.RawMessage("[1"), A(i('['), i('1'))),
		leaf("net.IP", A(), net.IPv4(1, 2, 3, 4).To4(), A(i(1), i(2), i(3), i(4))),
		leaf("url.Values", O(), url.Values{"q": {"1", "2"}}, O("q", A("1", "2"))),
		leaf("template.HTML", "", template.HTML("<b>&"), "<b>&"),
		leaf("sql.NullString", obj(map[string]Value{"String": "", "Valid": false}, true), sql.NullString{String: "x<", Valid: true}, obj(map[string]Value{"String": "x<", "Valid": true}, true), sql.NullString{String: "y"}, obj(map[string]Value{"String": "y", "Valid": false}, true)),
		leaf("url.URL", urlZero, url.URL{Scheme: "http", Host: "h", Path: "/p"}, urlVal),
		leaf("slice with methods", A(), list12{"y", "x"}, A("y", "x")),
		leaf("map with methods", O(), dict12{"b": 1, "a": nil}, O("b", i(1), "a", nil)),
		leaf("named string", "", role12("r<"), "r<"),
		leaf("named int32", i(0), num12(5), i(5)),
		leaf("named bool", false, flag12(true), true),
		leaf("named float32", 0.0, ratio12(0.1), float64(float32(0.1))),
		leaf("named uint16", i(0), u12(9), i(9)),
		leaf("rune", i(0), 'x', i('x')),
		leaf("duration", i(0), 3*time.Second, i(3000000000)),
		ifc("Stringer", strT, nil, nil, role12("r>"), "r>"),
	}
}

// sset marks the model objects that stand for structs
func obj(m map[string]Value, isStruct bool) *Obj { return &Obj{M: m, Struct: isStruct} }

func clone(v Value) Value { return v }

var privT = reflect.TypeOf(0)

func setPriv(f reflect.Value, v reflect.Value) {
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(v)
}

// tags12 gives a field the same tag under every key that a library might read
func tags12(v string) reflect.StructTag {
	var b strings.Builder
	for _, k := range strings.Fields("json textwire Textwire tw twire template tmpl tpl html view render expose data yaml xml toml db sql gorm bson msgpack mapstructure form query uri param header csv env validate binding copier structs object field name key alias protobuf schema graphql") {
		fmt.Fprintf(&b, "%s:%q ", k, v)
	}
	return reflect.StructTag(strings.TrimSpace(b.String()))
}

// wraps12 builds a type around a type
var wraps12 = []struct {
	name string
	mk   func(x gt) gt
}{
	{"*", func(x gt) gt {
		t := reflect.PointerTo(x.t)
		return gt{"*" + x.name, t, x.n + 1, func(k int) (reflect.Value, Value) {
			if k == x.n {
				return reflect.Zero(t), nil
			}
			g, m := x.v(k)
			p := reflect.New(x.t)
			p.Elem().Set(g)
			return p, m
		}, func() Value { return nil }}
	}},
	{"[]", func(x gt) gt {
		t := reflect.SliceOf(x.t)
		return gt{"[]" + x.name, t, x.n + 2, func(k int) (reflect.Value, Value) {
			switch k {
			case x.n:
				return reflect.Zero(t), A()
			case x.n + 1:
				return reflect.MakeSlice(t, 0, 3), A()
			}
			g, m := x.v(k)
			// an element before and after, spare capacity behind
			s := reflect.MakeSlice(t, 3, 6)
			s.Index(1).Set(g)
			g2, m2 := x.v((k + 1) % x.n)
			s.Index(2).Set(g2)
			full := s.Slice(0, 6)
			full.Index(4).Set(g2)
			return s, A(x.zero(), m, m2)
		}, func() Value { return A() }}
	}},
	{"map", func(x gt) gt {
		t := reflect.MapOf(reflect.TypeOf(""), x.t)
		return gt{"map[string]" + x.name, t, x.n + 2, func(k int) (reflect.Value, Value) {
			switch k {
			case x.n:
				return reflect.Zero(t), obj(map[string]Value{}, false)
			case x.n + 1:
				return reflect.MakeMap(t), obj(map[string]Value{}, false)
			}
			g, m := x.v(k)
			r := reflect.MakeMap(t)
			g2, m2 := x.v((k + 1) % x.n)
			r.SetMapIndex(reflect.ValueOf("Key"), g)
			r.SetMapIndex(reflect.ValueOf("key"), g2)
			r.SetMapIndex(reflect.ValueOf("a b<&'\""), g)
			r.SetMapIndex(reflect.ValueOf("z"), reflect.Zero(x.t))
			return r, obj(map[string]Value{"Key": m, "key": m2, "a b<&'\"": m, "z": x.zero()}, false)
		}, func() Value { return obj(map[string]Value{}, false) }}
	}},
	{"struct", func(x gt) gt {
		t := reflect.StructOf([]reflect.StructField{
			{Name: "First", Type: x.t, Tag: tags12("renamed,omitempty")},
			{Name: "second", PkgPath: "verifmc", Type: x.t, Tag: tags12("Second")},
			{Name: "Second", Type: x.t, Tag: tags12("-")},
			{Name: "priv", PkgPath: "verifmc", Type: reflect.TypeOf(""), Tag: tags12("renamed")},
			{Name: "URL", Type: privT, Tag: tags12("omit,private,hidden,ignore,string")},
			{Name: "B", Type: reflect.PointerTo(x.t), Tag: "-"},
			{Name: "Zero", Type: x.t, Tag: tags12(",omitempty,omitzero,inline")},
		})
		return gt{"struct{" + x.name + "}", t, x.n, func(k int) (reflect.Value, Value) {
			r := reflect.New(t).Elem()
			g, m := x.v(k)
			g2, m2 := x.v((k + 1) % x.n)
			r.Field(0).Set(g)
			setPriv(r.Field(1), g)
			r.Field(2).Set(g2)
			setPriv(r.Field(3), reflect.ValueOf("secret"))
			r.Field(4).SetInt(42)
			p := reflect.New(x.t)
			p.Elem().Set(g2)
			r.Field(5).Set(p)
			return r, obj(map[string]Value{"First": m, "Second": m2, "URL": int64(42), "B": m2, "Zero": x.zero()}, true)
		}, func() Value {
			return obj(map[string]Value{"First": x.zero(), "Second": x.zero(), "URL": int64(0), "B": nil, "Zero": x.zero()}, true)
		}}
	}},
	{"any", func(x gt) gt {
		t := reflect.TypeOf((*any)(nil)).Elem()
		return gt{"any(" + x.name + ")", t, x.n + 1, func(k int) (reflect.Value, Value) {
			r := reflect.New(t).Elem()
			if k == x.n {
				return r, nil
			}
			g, m := x.v(k)
			r.Set(g)
			return r, m
		}, func() Value { return nil }}
	}},
	{"map[Key]*", func(x gt) gt {
		t := reflect.MapOf(reflect.TypeOf(key12("")), reflect.PointerTo(x.t))
		return gt{"map[Key]*" + x.name, t, x.n, func(k int) (reflect.Value, Value) {
			g, m := x.v(k)
			r := reflect.MakeMap(t)
			p := reflect.New(x.t)
			p.Elem().Set(g)
			r.SetMapIndex(reflect.ValueOf(key12("")), p)
			r.SetMapIndex(reflect.ValueOf(key12("1")), p) // shared
			r.SetMapIndex(reflect.ValueOf(key12("x")), reflect.Zero(t.Elem()))
			return r, obj(map[string]Value{"": m, "1": m, "x": nil}, false)
		}, func() Value { return obj(map[string]Value{}, false) }}
	}},
}

// access is one way to write a path
type access struct {
	name string
	seg  func(depth int, o *Obj, key string) string // writes the step to a key
}

func ident12(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b == '_' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || i > 0 && b >= '0' && b <= '9') {
			return false
		}
	}
	return true
}

func lowerFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return s
	}
	return string(unicode.ToLower(r)) + s[n:]
}

func idxSeg(k string, q byte) string { return "[" + StrLit(k, q) + "]" }

func dotSeg(k string) string {
	if !ident12(k) {
		return idxSeg(k, '\'')
	}
	return "." + k
}

// low is the lower-cased spelling of a struct field
func low(o *Obj, k string) string {
	if !o.Struct {
		return k
	}
	return lowerFirst(k)
}

var accesses = []access{
	{"dot", func(d int, o *Obj, k string) string { return dotSeg(k) }},
	{"dot, lower first", func(d int, o *Obj, k string) string { return dotSeg(low(o, k)) }},
	{"index", func(d int, o *Obj, k string) string { return idxSeg(k, '"') }},
	{"index, lower first", func(d int, o *Obj, k string) string { return idxSeg(low(o, k), '\'') }},
	{"alternating", func(d int, o *Obj, k string) string {
		if d%2 == 0 {
			return dotSeg(low(o, k))
		}
		return " [ " + StrLit(k, '\'') + " ]"
	}},
	{"variable", func(d int, o *Obj, k string) string { return "" }},
}

// reader writes a template that prints everything reachable and the text it
// has to print
type reader struct {
	c       *C
	a       int
	src     strings.Builder
	want    strings.Builder
	names   int
	missing []string
}

func (r *reader) walk(path string, v Value, depth int) {
	switch v := v.(type) {
	case *Arr:
		fmt.Fprintf(&r.src, "{{ %s.len() }}!", path)
		fmt.Fprintf(&r.want, "%d!", len(v.E))
		flat := true
		for i, e := range v.E {
			switch e.(type) {
			case *Arr, *Obj:
				flat = false
			}
			r.walk(fmt.Sprintf("%s[%d]", path, i), e, depth+1)
		}
		fmt.Fprintf(&r.src, "{{ %s[%d] }}{{ %s[-1] }}!", path, len(v.E), path)
		r.want.WriteString("!")
		if flat && sameKind(v.E) {
			fmt.Fprintf(&r.src, "@each(e%d in %s){{ e%d }},@end", r.names, path, r.names)
			r.names++
			for _, e := range v.E {
				r.want.WriteString(Print(e) + ",")
			}
		}
	case *Obj:
		// an object without keys is an object too
		fmt.Fprintf(&r.src, "{{ %s ? 'O' : 'F' }}|", path)
		r.want.WriteString("O|")
		for _, k := range v.Keys() {
			if accesses[r.a].name == "variable" {
				n := fmt.Sprintf("n%d", r.names)
				r.names++
				fmt.Fprintf(&r.src, "{{ %s = %s }}", n, path+dotSeg(k))
				r.walk(n, v.M[k], depth+1)
				continue
			}
			r.walk(path+accesses[r.a].seg(depth, v, k), v.M[k], depth+1)
		}
		// a name that is not there
		for _, m := range []string{"Nope", "nope", "priv", "second_", "renamed"} {
			if _, ok := v.M[m]; !ok {
				r.missing = append(r.missing, path+dotSeg(m), path+idxSeg(m, '\''))
			}
		}
	default:
		fmt.Fprintf(&r.src, "{{ %s }}|", path)
		r.want.WriteString(Print(v) + "|")
		switch v.(type) {
		case int64, float64, string:
			if s, ok := litOf(v); ok {
				fmt.Fprintf(&r.src, "{{ (%s == %s) ? 'same' : 'other' }}|", path, s)
				r.want.WriteString("same|")
			}
		case bool, nil:
			fmt.Fprintf(&r.src, "{{ %s ? 'T' : 'F' }}|", path)
			if b, _ := v.(bool); b {
				r.want.WriteString("T|")
			} else {
				r.want.WriteString("F|")
			}
		}
	}
}

// sameKind: @each over elements of different types is not described
func sameKind(l []Value) bool {
	for i := 1; i < len(l); i++ {
		if TypeOf(l[i]) != TypeOf(l[0]) {
			return false
		}
	}
	return true
}

// litOf writes a literal equal to the value, where there is one
func litOf(v Value) (string, bool) {
	switch v := v.(type) {
	case int64:
		if v == math.MinInt64 {
			return "(-9223372036854775807 - 1)", true
		}
		return fmt.Sprint(v), true
	case float64:
		return FloatText(v), !Odd(v)
	case string:
		if strings.ContainsAny(v, "&<>\\") {
			return "", false
		}
		return StrLit(v, '\''), true
	}
	return "", false
}

type built struct {
	g any
	m Value
}

// visible renders every path below name and compares
func (c *C) visible(kind string, b built, twin any, acc int, page bool) {
	r := &reader{c: c, a: acc}
	r.walk("v", b.m, 0)
	src, want := r.src.String(), r.want.String()
	data := map[string]any{"v": b.g, "other": 1}
	c.Begin(fmt.Sprintf("%s = %s read by %s: %q", kind, show(b.m), accesses[acc].name, cut(src)))
	run := func(s string) out {
		if !page {
			return evalString(s, data)
		}
		t, err := c.load(map[string]string{"p": s})
		if err != nil {
			c.Fail("loading failed: %v", err)
			return out{}
		}
		return render(t, "p", data)
	}
	o := run(src)
	switch {
	case o.Err != nil:
		c.Fail("failed with %q, must render %q", o.Err, cut(want))
	case o.S != want:
		c.Fail("rendered %q, must render %q", cut(o.S), cut(want))
	}
	if !page && acc == 0 {
		for i, m := range r.missing {
			if i >= 12 {
				break
			}
			c.Traces(1)
			if o := evalString("{{ "+m+" }}", data); o.Err == nil {
				c.Fail("%s rendered %q, there is no such field or key", m, o.S)
			}
		}
	}
	c.untouched(data, map[string]any{"v": twin, "other": 1})
}

// untouched compares the data with a second copy built the same way, including
// the backing arrays beyond the length
func (c *C) untouched(data, twin map[string]any) {
	if !reflect.DeepEqual(data, twin) {
		c.Fail("the data was changed by the render")
		return
	}
	for k := range data {
		if !sameSpare(reflect.ValueOf(data[k]), reflect.ValueOf(twin[k])) {
			c.Fail("the array behind a slice in %q was changed by the render", k)
		}
	}
}

func sameSpare(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameSpare(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Cap() != b.Cap() {
			return false
		}
		fa, fb := a.Slice(0, a.Cap()), b.Slice(0, b.Cap())
		for i := 0; i < fa.Len(); i++ {
			if i >= a.Len() && fa.Index(i).CanInterface() && !reflect.DeepEqual(fa.Index(i).Interface(), fb.Index(i).Interface()) {
				return false
			}
			if !sameSpare(fa.Index(i), fb.Index(i)) {
				return false
			}
		}
	case reflect.Map:
		for _, k := range a.MapKeys() {
			if !sameSpare(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameSpare(a.Field(i), b.Field(i)) {
				return false
			}
		}
	}
	return true
}

func wrapType(c *C, x gt, depth int) gt {
	for i := 0; i < depth; i++ {
		x = wraps12[c.Choose(len(wraps12))].mk(x)
	}
	return x
}

func (x gt) pair(k int) (built, any) {
	g, m := x.v(k)
	t, _ := x.v(k)
	return built{g.Interface(), m}, t.Interface()
}

// ---- hand written types

type inner12 struct {
	A string
	b string
}
type Emb12 struct{ E string }
type embedded12 struct{ U string }
type outer12 struct {
	Emb12
	*inner12
	embedded12
	Name string
	name string
	In   string
	True bool
	Nil  *int
	If   int
	ID   int
	X1   int
	X_y  int
	Éa   string
	Ñ    int
	L    []inner12
	M    map[string]*inner12
	P    **int
	Any  any
	Fn   stringer12
	Raw  json.RawMessage
	Num  json.Number
	When time.Weekday
	Next *outer12
}

func sameName1() any {
	type T struct {
		A int
		B string
	}
	return T{1, "one"}
}
func sameName2() any {
	type T struct {
		B string
		A int
		C bool
	}
	return T{"two", 2, true}
}
func sameName3() any {
	type T []string
	return T{"x"}
}
func sameName4() any {
	type T map[string]int
	return T{"A": 4}
}
func sameName5() any {
	type T struct {
		a int
		B *string
	}
	return T{a: 5}
}

func mkOuter() (any, Value) {
	one := 1
	p := &one
	in := &inner12{"ia", "ib"}
	o := outer12{Emb12: Emb12{"e"}, inner12: in, embedded12: embedded12{"u"}, Name: "N", name: "secret", In: "in", True: true, If: 3, ID: 4, X1: 5, X_y: 6, Éa: "é", Ñ: 7,
		L: []inner12{{"1", "x"}, {"2", "y"}}, M: map[string]*inner12{"a": in, "n": nil}, P: &p, Any: map[string]any{"k": []int{1}}, Fn: role12("f"), Raw: json.RawMessage("ab"), Num: json.Number("1.50"), When: time.Friday, Next: &outer12{Name: "next"}}
	ia := func(s string) Value { return obj(map[string]Value{"A": s}, true) }
	empty := obj(map[string]Value{"Emb12": obj(map[string]Value{"E": ""}, true), "Name": "next", "In": "", "True": false, "Nil": nil, "If": int64(0), "ID": int64(0), "X1": int64(0), "X_y": int64(0), "Éa": "", "Ñ": int64(0), "L": A(), "M": O(), "P": nil, "Any": nil, "Fn": nil, "Raw": A(), "Num": "", "When": int64(0), "Next": nil}, true)
	return &o, obj(map[string]Value{"Emb12": obj(map[string]Value{"E": "e"}, true), "Name": "N", "In": "in", "True": true, "Nil": nil, "If": int64(3), "ID": int64(4), "X1": int64(5), "X_y": int64(6), "Éa": "é", "Ñ": int64(7),
		"L": A(ia("1"), ia("2")), "M": O("a", ia("ia"), "n", nil), "P": int64(1), "Any": O("k", A(int64(1))), "Fn": "f", "Raw": A(int64('a'), int64('b')), "Num": "1.50", "When": int64(5), "Next": empty}, true)
}

type shared12 struct {
	P, Q *inner12
	S, T []int
	M, N map[string]int
}

func mkShared() (any, Value) {
	in := &inner12{A: "x"}
	back := []int{1, 2, 3, 4}
	m := map[string]int{"a": 1}
	ia := obj(map[string]Value{"A": "x"}, true)
	i := func(l ...int64) Value {
		a := A()
		for _, n := range l {
			a.E = append(a.E, n)
		}
		return a
	}
	return []any{shared12{in, in, back[:2], back[1:3], m, m}, in, &in, back[2:], back[:0], m, &m},
		A(obj(map[string]Value{"P": ia, "Q": ia, "S": i(1, 2), "T": i(2, 3), "M": O("a", int64(1)), "N": O("a", int64(1))}, true), ia, ia, i(3, 4), i(), O("a", int64(1)), O("a", int64(1)))
}

func mkPtrs() (any, Value) {
	s := "p"
	p1 := &s
	p2 := &p1
	p3 := &p2
	var np *string
	pn := &np
	var ns []int
	var nm map[string]int
	var e any
	pe := &e
	var ie any = p3
	sl := []*string{p1, nil, p1}
	return []any{p1, p2, p3, &p3, np, pn, &pn, &ns, &nm, pe, &pe, ie, &ie, &sl, []any{&sl, nil, np}, map[string]**string{"a": p2, "b": pn}},
		A("p", "p", "p", "p", nil, nil, nil, A(), O(), nil, nil, "p", "p", A("p", nil, "p"), A(A("p", nil, "p"), nil, nil), O("a", "p", "b", nil))
}

func mkNamed() (any, Value) {
	type list []role12
	type dict map[key12]num12
	type ptr *int
	n := 3
	type node struct {
		V    int
		Kids []node
	}
	n3 := num12(3)
	return []any{list{"a", "b"}, dict{"k": 1}, ptr(&n), ptr(nil), node{1, []node{{V: 2}, {V: 3, Kids: []node{{V: 4}}}}}, []byte("hi"), [][]byte{nil, {}, {0, 255}}, []rune("é"), errors.New("x"), time.Time{}, struct{}{}, &struct{}{}, []struct{}{{}, {}}, map[string]struct{}{"a": {}}, &n3, []role12(nil), map[key12]num12(nil), []error{nil, err12("q")}, map[string]any(nil), []any(nil), []map[string][]*int{{"a": {&n, nil}}, nil}},
		A(A("a", "b"), O("k", int64(1)), int64(3), nil,
			obj(map[string]Value{"V": int64(1), "Kids": A(obj(map[string]Value{"V": int64(2), "Kids": A()}, true), obj(map[string]Value{"V": int64(3), "Kids": A(obj(map[string]Value{"V": int64(4), "Kids": A()}, true))}, true))}, true),
			A(int64('h'), int64('i')), A(A(), A(), A(int64(0), int64(255))), A(int64('é')), obj(map[string]Value{}, true), obj(map[string]Value{}, true), obj(map[string]Value{}, true), obj(map[string]Value{}, true), A(obj(map[string]Value{}, true), obj(map[string]Value{}, true)), O("a", obj(map[string]Value{}, true)), int64(3), A(), O(), A(nil, "q"), O(), A(), A(O("a", A(int64(3), nil)), O()))
}

func mkSameNames() (any, Value) {
	return []any{sameName1(), sameName2(), sameName3(), sameName4(), sameName5(), []any{sameName2(), sameName1()}, struct{ A, B int }{1, 2}, struct{ B, A int }{3, 4}},
		A(obj(map[string]Value{"A": int64(1), "B": "one"}, true), obj(map[string]Value{"B": "two", "A": int64(2), "C": true}, true), A("x"), O("A", int64(4)), obj(map[string]Value{"B": nil}, true),
			A(obj(map[string]Value{"B": "two", "A": int64(2), "C": true}, true), obj(map[string]Value{"A": int64(1), "B": "one"}, true)),
			obj(map[string]Value{"A": int64(1), "B": int64(2)}, true), obj(map[string]Value{"B": int64(3), "A": int64(4)}, true))
}

var made12 = []struct {
	name string
	mk   func() (any, Value)
}{{"struct with embedded, reserved and non-ASCII fields", mkOuter}, {"shared pointers, slices and maps", mkShared}, {"pointers", mkPtrs}, {"named types", mkNamed}, {"types with equal names", mkSameNames}}

// programs that try to change what they were given; v is the value
var writers12 = []string{
	"{{ v }}", "{{ v = 1 }}{{ v }}", "{{ v = v }}{{ v }}", "{{ n = v }}{{ n = v }}", "@each(e in v){{ e = e }}{{ n = e }}@end", "@each(v in v){{ v }}@end", "@each(e in v){{ v = [] }}@end",
	"@for(v = 0; v < 3; v++){{ v }}@end", "{{ v.append(1, 'a', nil) }}{{ v.len() }}", "{{ v.prepend(1) }}", "{{ v.reverse() }}{{ v }}", "{{ v.reverse().reverse().append(9).reverse() }}", "{{ v.shuffle() }}{{ v.shuffle().append(1) }}", "{{ v.slice(0, 1).append(7) }}{{ v.slice(1).reverse() }}", "{{ v.slice(0, 2).append(8).reverse() }}{{ v.slice(0, 1).append(9, 9, 9) }}",
	"{{ w = v.slice(0, 1) }}{{ w.append(5) }}{{ w.append(6) }}", "{{ v++ }}{{ v-- }}{{ -v }}{{ !v }}", "{{ v.a }}", "{{ {v} }}{{ [v, v] }}", "{{ [v, v][0].append(3) }}", "@each(e in [v, v]){{ e.append(4) }}@end", "{{ loop2 = v }}@dump(v)", "{{ v.upper() }}{{ v.trim() }}{{ v.reverse() }}", "{{ v + v }}", "{{ v[0] }}{{ v[0][0] }}", "{{ v.join(',') }}", "{{ v.rand() }}", "@if(v)@each(e in v){{ e.reverse() }}@end@end", "{{ x = {a: v} }}{{ x.a.reverse() }}{{ x.a.append(1) }}", "{{ v.first.append(1) }}{{ v.first.reverse() }}{{ v.Key.reverse() }}", "{{ new1 = 1; new2 = v }}", "@each(loopv in v)@end", "{{ undefined }}", "{{ v.nope() }}", "@each(e in v){{ e.nope }}@else{{ v = 0 }}@end",
}

func init() {
	lv := leaves12()
	bad := func() []nv {
		var r []nv
		for _, b := range badValues() {
			// uintptr is left open; nil channels and functions are both nil and unsupported
			if strings.HasPrefix(b.name, "nil ") || b.name == "uintptr" || strings.HasPrefix(b.name, "cyclic") {
				continue
			}
			r = append(r, b)
		}
		return r
	}()
	badWraps := []struct {
		name string
		mk   func(v any) any
	}{
		{"[]T", func(v any) any {
			s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), 0, 2)
			return reflect.Append(s, reflect.ValueOf(v)).Interface()
		}},
		{"[]any", func(v any) any { return []any{"x", nil, v} }},
		{"map[string]T", func(v any) any {
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), reflect.TypeOf(v)))
			m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(v))
			return m.Interface()
		}},
		{"map[string]any", func(v any) any { return map[string]any{"a": 1, "k": v, "z": nil} }},
		{"*T", func(v any) any {
			p := reflect.New(reflect.TypeOf(v))
			p.Elem().Set(reflect.ValueOf(v))
			return p.Interface()
		}},
		{"struct{F T}", func(v any) any {
			t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "F", Type: reflect.TypeOf(v)}, {Name: "Z", Type: reflect.TypeOf("")}})
			s := reflect.New(t).Elem()
			s.Field(1).Set(reflect.ValueOf(v))
			return s.Interface()
		}},
		{"struct{F any}", func(v any) any { return dataField{v} }},
		{"*any", func(v any) any { return &v }},
	}

	keys12 := []string{"", " ", "a b", "0", "12", "-1", "1a", "a-b", "a.b", "é", "日本", "a'b", `a"b`, `'"`, "<b>", "a&b", "&lt;", "&amp;lt;", "x>y", "\n", "a\nb", "\t", "\r\n", "{{ x }}", "}}", "@end", "@if(x)", "(", "[", "]", "//", "_", "_a", "a_", "A", "Ab", "aB", "in", "true", "false", "nil", "if", "end", "each", "loop", "else", "len", "append", "global", "null", "IN", "True", "name", "Name", "%d", "\x00", "\xff", "\u2028", "ﬁ", "İ", "ı", strings.Repeat("k", 300), "a\\", "\\n", "\\\"", "a\\'b"}

	register(&Check{ID: "C12", Assumptions: []string{
		"the model value is written down next to the generator of each Go value, not derived from it",
		"not compared because the statement leaves it open: promoted fields of embedded structs, unsupported kinds in unexported fields or behind nil/empty containers, uintptr, unsigned values beyond the int64 range, NaN/Inf and the exact text of floats beyond 1e15, the first-letter fallback on maps, identifiers with non-ASCII letters after a dot",
		"struct types are built with reflect.StructOf; methods (Stringer, error, TextMarshaler), struct tags and type names must not matter",
	}, Families: []Family{
		{Name: "types", Space: "40 leaf types (all integer widths, floats, named types with methods, interfaces) below every sequence of 0..3 wrappers out of {*T, []T, map[string]T, struct of seven fields incl. unexported twins and tags (renamed, -, omitempty and others under 40 tag keys), any, map[Key]*T} (thorough 0..4) x every value variant (boundary values, nil at every pointer/slice/map/interface) x 6 access styles; every path is printed and compared with a literal of equal value, missing and unexported names must fail; the data must be unchanged, also behind slices", Run: func(c *C) {
			n := 4
			if c.Thorough {
				n = 5
			}
			d := c.Choose(n)
			x := wrapType(c, lv[c.Choose(len(lv))], d)
			k := c.Choose(x.n)
			a := c.Choose(len(accesses))
			b, twin := x.pair(k)
			c.visible(x.name, b, twin, a, false)
		}},
		{Name: "deep types", Space: "7 leaf types below every sequence of exactly 4 wrappers (thorough 5) x every value variant x 2 access styles", Run: func(c *C) {
			few := []int{0, 1, 5, 9, 12, 14, 16}
			d := 4
			if c.Thorough {
				d = 5
			}
			x := wrapType(c, lv[few[c.Choose(len(few))]], d)
			k := c.Choose(x.n)
			a := []int{1, 4}[c.Choose(2)]
			b, twin := x.pair(k)
			c.visible(x.name, b, twin, a, false)
		}},
		{Name: "pages", Space: "40 leaf types below every sequence of 0..2 wrappers x value variants, rendered by (*Template).String", Run: func(c *C) {
			x := wrapType(c, lv[c.Choose(len(lv))], c.Choose(3))
			k := c.Choose(x.n)
			b, twin := x.pair(k)
			c.visible(x.name, b, twin, 1, true)
		}},
		{Name: "hand-written", Space: "5 hand-written families (structs with embedded, reserved-word and non-ASCII fields; shared pointers, overlapping slices; pointers to pointers; named and recursive types, bytes; different types with equal names) x 6 access styles x {string, page} x {alone, in a slice, behind a pointer, in a map}", Run: func(c *C) {
			f := made12[c.Choose(len(made12))]
			a := c.Choose(len(accesses))
			page := c.Bool()
			w := c.Choose(4)
			mk := func() (any, Value) {
				g, m := f.mk()
				switch w {
				case 1:
					return []any{g, 1}, A(m, int64(1))
				case 2:
					return &g, m
				case 3:
					return map[string]any{"In": g}, O("In", m)
				}
				return g, m
			}
			g, m := mk()
			twin, _ := mk()
			c.visible(f.name, built{g, m}, twin, a, page)
		}},
		{Name: "keys", Space: fmt.Sprintf("%d map keys (empty, blanks, digits, quotes, HTML characters, reserved words, control characters, braces, invalid UTF-8, non-ASCII) reached through the index operator with either quote, through a variable, and with a dot where the key is an identifier x {map[string]any, map[Key]int, map in a slice, map in a struct}", len(keys12)), Run: func(c *C) {
			k := keys12[c.Choose(len(keys12))]
			cont := c.Choose(4)
			var g any
			p := "v"
			switch cont {
			case 0:
				g = map[string]any{k: "hit", k + "x": "other"}
			case 1:
				g = map[key12]string{key12(k): "hit", "other": "other"}
			case 2:
				g = []map[string]string{{"q": "other"}, {k: "hit"}}
				p = "v[1]"
			case 3:
				g = struct{ M map[string]any }{map[string]any{k: "hit"}}
				p = "v.m"
			}
			var srcs []string
			for _, q := range []byte{'\'', '"'} {
				if !strings.Contains(k, "\\") {
					srcs = append(srcs, p+"["+StrLit(k, q)+"]")
				}
			}
			srcs = append(srcs, p+"[k]", p+"[ks[0]]", p+"[ko.a]")
			if ident12(k) {
				srcs = append(srcs, p+"."+k, p+" . "+k)
			}
			data := func() map[string]any {
				return map[string]any{"v": g, "k": k, "ks": []string{k}, "ko": map[string]*string{"a": &k}}
			}
			c.Begin(fmt.Sprintf("key %q in container %d", k, cont))
			for _, s := range srcs {
				c.Traces(1)
				d := data()
				o := evalString("{{ "+s+" }}", d)
				if o.Err != nil || o.S != "hit" {
					c.Fail("%s gave %s, must give the value of key %q", s, o, k)
				}
				c.untouched(d, data())
			}
			c.Note("key")
		}},
		{Name: "near keys", Space: "all pairs of the map keys and of 40 names that look like paths, positions or other spellings: with both keys in a map (data, map of structs' kind, object literal) each gives its own value; with one of them the other is an error, except a lower-case first letter for an upper-case one", Run: func(c *C) {
			all := append(append([]string(nil), keys12...), "a.b", "a.b.c", "a/b", "a:b", "a[b]", "a['b']", "a->b", "c.0", "c[0]", "c.1", "A.b", ".a", "a.", "*", ".", "first", "last", "length", "size", "keys", "a", "b", "c", "ab", "a ", " a", "a_b", "aA", "AA", "NAME", "nAME", "naMe", "user_name", "userName", "UserName", "user-name", "USERNAME", "username", "nam", "names", "Nil", "NIL", "True", "TRUE", "False", "FALSE", "In", "Loop")
			k1, k2 := all[c.Choose(len(all))], all[c.Choose(len(all))]
			if k1 == k2 {
				c.Skip()
			}
			in := func() map[string]any { return map[string]any{"b": "deep", "c": "deep", "0": "deep", " a": 1} }
			for shape := 0; shape < 3; shape++ {
				mk := func(both bool) map[string]any {
					var g any
					switch shape {
					case 0:
						m := map[string]any{k1: "one"}
						if both {
							m[k2] = "two"
						}
						g = m
					case 1:
						// the value has names of its own
						m := map[string]any{k1: in()}
						if both {
							m[k2] = map[string]any{"b": "other"}
						}
						g = m
					case 2:
						m := map[key12][]map[string]any{key12(k1): {in(), in()}}
						if both {
							m[key12(k2)] = []map[string]any{{"b": "other"}, in()}
						}
						g = m
					}
					return map[string]any{"v": g, "i": k1, "j": k2}
				}
				suf := []string{"", ".b", "[0].b"}[shape]
				want := [][2]string{{"one", "two"}, {"deep", "other"}, {"deep", "other"}}[shape]
				if shape == 0 {
					c.Begin(fmt.Sprintf("keys %q and %q", k1, k2))
				}
				idx := func(k, v string) []string {
					l := []string{"v[" + v + "]"}
					if !strings.Contains(k, "\\") {
						l = append(l, "v["+StrLit(k, '\'')+"]")
					}
					if ident12(k) {
						l = append(l, "v."+k)
					}
					return l
				}
				for _, s := range idx(k1, "i") {
					for _, both := range []bool{true, false} {
						c.Traces(1)
						if o := evalString("{{ "+s+suf+" }}", mk(both)); o.Err != nil || o.S != want[0] {
							c.Fail("shape %d: %s%s gave %s, must give the value of key %q", shape, s, suf, o, k1)
						}
					}
				}
				for _, s := range idx(k2, "j") {
					c.Traces(1)
					if o := evalString("{{ "+s+suf+" }}", mk(true)); o.Err != nil || o.S != want[1] {
						c.Fail("shape %d: %s%s gave %s, must give the value of key %q", shape, s, suf, o, k2)
					}
					if upper12(k2) == k1 {
						continue
					}
					for _, e := range []string{"", suf} {
						if o := evalString("{{ "+s+e+" }}", mk(false)); o.Err == nil {
							c.Fail("shape %d: %s%s gave %s, the map has no such key, only %q", shape, s, e, o, k1)
						}
					}
				}
			}
			c.Note("pair")
		}},
		{Name: "fields", Space: "39 exported field names in run time structs, in two positions, with and without an unexported lower-case twin, reached exactly and with the first letter lower-cased, through dot, index and variable; every other casing must fail", Run: func(c *C) {
			names := []string{"A", "B", "Ab", "AB", "ABC", "Name", "URL", "UserID", "X1", "X_", "X_Y", "In", "True", "False", "Nil", "If", "End", "Each", "For", "Loop", "Len", "Append", "Else", "Use", "Dump", "É", "Éa", "ÉÀ", "Ωmega", "Жук", "Ǆx", "Ÿ", "Ĳa", "Ⱥa", "A0", "Z9z", "Global", "Null", "Verylongnamewithmanycharacters"}
			n := names[c.Choose(len(names))]
			twin := c.Bool()
			pos := c.Choose(2)
			ptr := c.Bool()
			var fs []reflect.StructField
			add := func(f reflect.StructField) { fs = append(fs, f) }
			f := reflect.StructField{Name: n, Type: reflect.TypeOf("")}
			tw := reflect.StructField{Name: lowerFirst(n), PkgPath: "verifmc", Type: reflect.TypeOf("")}
			if pos == 0 {
				add(f)
			}
			if twin {
				add(tw)
			}
			add(reflect.StructField{Name: "Other", Type: reflect.TypeOf(0)})
			if pos == 1 {
				add(f)
			}
			r := reflect.New(reflect.StructOf(fs)).Elem()
			for i := 0; i < r.NumField(); i++ {
				if fs[i].Name == n {
					r.Field(i).SetString("hit")
				} else if twin && fs[i].PkgPath != "" {
					setPriv(r.Field(i), reflect.ValueOf("secret"))
				}
			}
			var g any = r.Interface()
			if ptr {
				g = r.Addr().Interface()
			}
			lo := lowerFirst(n)
			exprs := []string{"v['" + n + "']", `v["` + lo + `"]`, "v[n]", "v[l]"}
			if ident12(n) {
				exprs = append(exprs, "v."+n, "v."+lo)
			}
			c.Begin(fmt.Sprintf("field %s of %v", n, r.Type()))
			for _, e := range exprs {
				c.Traces(1)
				if o := evalString("{{ "+e+" }}", map[string]any{"v": g, "n": n, "l": lo}); o.Err != nil || o.S != "hit" {
					c.Fail("%s gave %s, must give the field %s", e, o, n)
				}
			}
			seen := map[string]bool{n: true, lo: true, "Other": true, "other": true}
			for _, w := range []string{strings.ToLower(n), strings.ToUpper(n), n + "x", "x" + n, n[:len(n)-1], lo + "_", "othe", "OTHER", "oTher", ""} {
				if seen[w] || !utf8.ValidString(w) {
					continue
				}
				seen[w] = true
				c.Traces(1)
				if o := evalString("{{ v[w] }}", map[string]any{"v": g, "w": w}); o.Err == nil {
					c.Fail("v[%q] rendered %q, there is no such field", w, o.S)
				}
			}
		}},
		{Name: "unsupported", Space: fmt.Sprintf("%d values of unsupported kinds (channels, functions, complex numbers, arrays, maps with other keys, pointers to them) below every sequence of 0..3 containers (thorough 4) out of 8, used or unused by the template, string and page: the call must fail", len(bad)), Run: func(c *C) {
			b := bad[c.Choose(len(bad))]
			m := 4
			if c.Thorough {
				m = 5
			}
			n := c.Choose(m)
			g, name := b.g, b.name
			for i := 0; i < n; i++ {
				w := badWraps[c.Choose(len(badWraps))]
				g, name = w.mk(g), w.name+" of "+name
			}
			use := c.Choose(2)
			src := []string{"static", "{{ 1 }}"}[use]
			c.Begin(name)
			d := map[string]any{"a": 1, "v": g, "z": "s"}
			if o := evalString(src, d); o.Err == nil {
				c.Fail("rendered %q, data of an unsupported kind must be refused", o.S)
			} else if o.S != "" {
				c.Fail("returned output %q together with an error", o.S)
			}
			if n <= 2 {
				c.Traces(1)
				t, err := c.load(map[string]string{"p": src, "q": "@component('c', {a: 1})", "c": "x"})
				if err != nil {
					c.Fail("loading failed: %v", err)
					return
				}
				if o := render(t, "p", d); o.Err == nil {
					c.Fail("page rendered %q, data of an unsupported kind must be refused", o.S)
				}
			}
			c.Note("refused")
		}},
		{Name: "unchanged", Space: fmt.Sprintf("%d programs that assign to, shadow, extend, reverse, shuffle, slice or dump their data x every value of 40 leaf types below 0..2 wrappers x {string, page}, twice in a row: the data map, the values in it and the arrays behind slices stay as they were", len(writers12)), Run: func(c *C) {
			wr := writers12[c.Choose(len(writers12))]
			x := wrapType(c, lv[c.Choose(len(lv))], c.Choose(3))
			k := c.Choose(x.n)
			b, twin := x.pair(k)
			page := x.n%2 == 0 && k == 0
			data := map[string]any{"v": b.g, "n": 0, "other": []int{3, 1, 2}}
			dtwin := map[string]any{"v": twin, "n": 0, "other": []int{3, 1, 2}}
			c.Begin(fmt.Sprintf("%q with v = %s %s", wr, x.name, show(b.m)))
			evalString(wr, data)
			evalString(wr, data)
			c.Traces(1)
			c.untouched(data, dtwin)
			if page {
				t, err := c.load(map[string]string{"p": "@component('c', {v})@component('c', {v: v})" + wr, "c": wr})
				if err != nil {
					return
				}
				c.Traces(1)
				render(t, "p", data)
				c.untouched(data, dtwin)
			}
		}},
		{Name: "unchanged, made", Space: "the same programs on the 5 hand-written families and their elements", Run: func(c *C) {
			wr := writers12[c.Choose(len(writers12))]
			f := made12[c.Choose(len(made12))]
			elem := c.Bool()
			g, m := f.mk()
			twin, _ := f.mk()
			if elem {
				l, ok := g.([]any)
				if !ok {
					c.Skip()
				}
				k := c.Choose(len(l))
				g, twin, m = l[k], twin.([]any)[k], m.(*Arr).E[k]
			}
			data := map[string]any{"v": g}
			c.Begin(fmt.Sprintf("%q with v = %s", wr, show(m)))
			evalString(wr, data)
			c.untouched(data, map[string]any{"v": twin})
		}},
		{Name: "data maps", Space: "nil and empty data maps, 1..3 keys out of 6 names with nil/scalar values; programs that read, assign and loop over them; the map keeps its keys and values; both entry points", Run: func(c *C) {
			names := []string{"a", "b", "A", "_x", "i", "title"}
			vals := []any{nil, 1, "s", []int{1}, (*int)(nil)}
			mk := func(sel []int) map[string]any {
				m := map[string]any{}
				for i, s := range sel {
					if s > 0 {
						m[names[i]] = vals[s-1]
					}
				}
				return m
			}
			sel := make([]int, 6)
			for i, left := 0, 3; i < 6; i++ {
				if left > 0 {
					sel[i] = c.Choose(6)
					if sel[i] > 0 {
						left--
					}
				}
			}
			isNil := false
			if fmt.Sprint(sel) == "[0 0 0 0 0 0]" {
				isNil = c.Bool()
			}
			data, twin := mk(sel), mk(sel)
			if isNil {
				data, twin = nil, nil
			}
			c.Begin(fmt.Sprintf("data %v", data))
			keys := make([]string, 0, len(data))
			for k := range data {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, n := range names {
				o := evalString("{{ "+n+" }}", data)
				c.Traces(1)
				if _, ok := data[n]; ok != (o.Err == nil) {
					c.Fail("%s gave %s, the data has keys %v", n, o, keys)
				}
			}
			for _, s := range []string{"{{ zz = 1 }}{{ zz }}", "@for(zz = 0; zz < 2; zz++){{ yy = zz }}@end", "@each(zz in [1, 2]){{ zz }}{{ loop.index }}@end", "{{ a = 5 }}", "{{ i = 'x' }}{{ title = [] }}", "@each(i in [1]){{ i }}@end"} {
				c.Traces(1)
				evalString(s, data)
			}
			if !reflect.DeepEqual(data, twin) {
				c.Fail("the data map is now %v", data)
			}
		}},
		{Name: "scale", Space: "sizes n = 1..64, 100, 200, 300, 1000 and around 128, 256, 512, 1024 (thorough also 4900; 10000 nested values are the documented limit): slices of n structs, integers, strings, floats, pointers, maps, slices; maps of n keys of 3 kinds; structs of n fields; n nested pointers/slices/maps/structs; n data keys; texts of n characters of 3 widths; keys of n bytes: every element (n <= 64) or the first, last and middle two are reached", Run: func(c *C) {
			n := 4900
			if !c.Thorough || c.Bool() {
				n = ladderN(c, 1025)
			}
			k := c.Choose(18)
			pick := []int{}
			for i := 0; i < n; i++ {
				if n <= 64 || i < 2 || i >= n-2 || i == n/2 || i == n/2-1 {
					pick = append(pick, i)
				}
			}
			data := map[string]any{}
			var src, want strings.Builder
			switch k {
			case 0:
				l := make([]inner12, n)
				for i := range l {
					l[i].A = fmt.Sprint("e", i)
				}
				data["v"] = l
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ v[%d].a }},", i)
					fmt.Fprintf(&want, "e%d,", i)
				}
				fmt.Fprintf(&src, "{{ v.len() }}{{ v[%d] }}", n)
				fmt.Fprintf(&want, "%d", n)
			case 1:
				m := map[string]int{}
				for i := 0; i < n; i++ {
					m[fmt.Sprint("k", i)] = i
				}
				data["v"] = m
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ v.k%d }},{{ v['k%d'] }},", i, i)
					fmt.Fprintf(&want, "%d,%d,", i, i)
				}
			case 2:
				if n > 1000 {
					c.Skip()
				}
				var fs []reflect.StructField
				for i := 0; i < n; i++ {
					fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: privT})
				}
				r := reflect.New(reflect.StructOf(fs)).Elem()
				for i := 0; i < n; i++ {
					r.Field(i).SetInt(int64(i))
				}
				data["v"] = r.Interface()
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ v.f%d }},{{ v['F%d'] }},", i, i)
					fmt.Fprintf(&want, "%d,%d,", i, i)
				}
			case 3:
				var p any = "end"
				for i := 0; i < n; i++ {
					q := p
					p = &q
				}
				data["v"] = p
				src.WriteString("{{ v }}")
				want.WriteString("end")
			case 4:
				var p any = "end"
				for i := 0; i < n; i++ {
					p = []any{p}
				}
				data["v"] = p
				src.WriteString("{{ v" + strings.Repeat("[0]", n) + " }}")
				want.WriteString("end")
			case 5:
				var p any = "end"
				for i := 0; i < n; i++ {
					p = map[string]any{"k": p}
				}
				data["v"] = p
				src.WriteString("{{ v" + strings.Repeat(".k", n) + " }}")
				want.WriteString("end")
			case 6:
				var p any = "end"
				for i := 0; i < n; i++ {
					p = &dataField{p}
				}
				data["v"] = p
				src.WriteString("{{ v" + strings.Repeat(".f", n) + " }}")
				want.WriteString("end")
			case 7:
				for i := 0; i < n; i++ {
					data[fmt.Sprint("k", i)] = i
				}
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ k%d }},", i)
					fmt.Fprintf(&want, "%d,", i)
				}
			case 8, 9, 10, 11, 12, 13, 14:
				ints, strs, floats, ptrs, maps, lists, anys := []int16{}, []string{}, []float64{}, []*inner12{}, []map[string]any{}, [][]bool{}, []any{}
				for i := 0; i < n; i++ {
					ints, strs, floats = append(ints, int16(i)), append(strs, fmt.Sprint("<", i)), append(floats, float64(i)+0.5)
					ptrs, maps = append(ptrs, &inner12{A: fmt.Sprint(i)}), append(maps, map[string]any{"k": i})
					lists, anys = append(lists, []bool{i%2 == 0, i%3 == 0}), append(anys, any(uint8(i)))
				}
				data["v"] = []any{ints, strs, floats, ptrs, maps, lists, anys}[k-8]
				el := []string{"", "", "", ".a", ".k", "[1]", ""}[k-8]
				text := func(i int) string {
					switch k {
					case 9:
						return fmt.Sprint("<", i)
					case 10:
						return fmt.Sprintf("%d.5", i)
					case 13:
						return map[bool]string{true: "1", false: "0"}[i%3 == 0]
					case 14:
						return fmt.Sprint(uint8(i))
					}
					return fmt.Sprint(i)
				}
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ v[%d]%s }},", i, el)
					want.WriteString(text(i) + ",")
				}
				fmt.Fprintf(&src, "{{ v.len() }}:@each(e in v){{ e%s }};@end", el)
				fmt.Fprintf(&want, "%d:", n)
				for i := 0; i < n; i++ {
					want.WriteString(text(i) + ";")
				}
			case 15:
				w := []string{"x", "é", "日"}[c.Choose(3)]
				data["v"] = strings.Repeat(w, n)
				data["w"] = map[string]any{"k": strings.Repeat(w, n-1) + "<"}
				src.WriteString("{{ v }}|{{ w.k }}|{{ v.len() }}")
				want.WriteString(strings.Repeat(w, n) + "|" + strings.Repeat(w, n-1) + "<|" + fmt.Sprint(n))
			case 16:
				key := strings.Repeat("k", n)
				data["v"] = map[string]any{key: 1, key + "k": 2, key[1:] + "j": 3}
				data[key] = 4
				fmt.Fprintf(&src, "{{ v.%s }}{{ v['%sk'] }}{{ v.%sj }}{{ %s }}", key, key, key[1:], key)
				want.WriteString("1234")
			case 17:
				type text string
				m, o := map[text]text{}, map[string]*inner12{}
				for i := 0; i < n; i++ {
					m[text(fmt.Sprint("K", i))] = text(fmt.Sprint(i))
					o[fmt.Sprint("k", i)] = &inner12{A: fmt.Sprint(i)}
				}
				data["v"], data["w"] = m, o
				for _, i := range pick {
					fmt.Fprintf(&src, "{{ v.k%d }},{{ v['K%d'] }},{{ w.k%d.a }};", i, i, i)
					fmt.Fprintf(&want, "%d,%d,%d;", i, i, i)
				}
			}
			c.Begin(fmt.Sprintf("kind %d size %d", k, n))
			o := evalString(src.String(), data)
			if o.Err != nil || o.S != want.String() {
				c.Fail("gave %s, must render %q", cut(o.String()), want.String())
			}
		}},
	}})
	_ = textwire.EvaluateString
}

// upper12: the key that a name with a lower-case first letter may stand for
func upper12(k string) string {
	_, n := utf8.DecodeRuneInString(k)
	return strings.ToUpper(k[:n]) + k[n:]
}
