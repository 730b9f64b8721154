// Package jdoc enumerates the JSON documents of a schema, and compares them with Go values.
package jdoc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"cloud.google.com/go/civil"

	"verifmc/docs"
)

type (
	M = docs.M
	L = docs.L
	N = json.Number
	// Obj is a JSON object: a field is at most once in it
	Obj map[string]any
)

// G knows the schemas of a document, and how the generation was asked for.
type G struct {
	Schemas M
	Conv    func(string) string // name of a property in JSON
	Format  bool                // formats of strings are taken into account
	Keys    []string            // of additional properties
	// EmptyIsUnset: optional lists that are empty are not different from absent ones
	EmptyIsUnset bool
	open         map[string]int
	Pairs        bool // all the pairs of additional properties
}

// Resolve the references of a schema.
func (g *G) Resolve(s any) M {
	m, ok := s.(M)
	if !ok && s != false {
		return M{} // no schema, or true: anything
	}
	for m["$ref"] != nil {
		r := m["$ref"].(string)
		m = g.Schemas[r[strings.LastIndex(r, "/")+1:]].(M)
	}
	return m
}

// Kind of a schema.
func (g *G) Kind(s M) string {
	t, _ := s["type"].(string)
	f, _ := s["format"].(string)
	switch {
	case t == "string" && g.Format && (f == "date" || f == "date-time"):
		return f
	case t == "integer" && f == "int32", t == "number" && f == "float":
		return f
	case t == "":
		return "any"
	}
	return t
}

func (g *G) omit(s M) any {
	for s["x-omitempty"] == nil && s["$ref"] != nil {
		r := s["$ref"].(string)
		s = g.Schemas[r[strings.LastIndex(r, "/")+1:]].(M)
	}
	return s["x-omitempty"]
}

// deep tells whether the schema refers to one which is being expanded twice.
func (g *G) deep(s any) bool {
	m, _ := s.(M)
	r, ok := m["$ref"].(string)
	return ok && g.open[r] >= 2
}

// additional properties, if there can be some.
func additional(m M) (any, bool) {
	a, ok := m["additionalProperties"]
	return a, ok && a != false
}

// Prop is a property.
type Prop struct {
	Key      string // in JSON
	Name     string
	Schema   M // resolved
	Own      M // as written
	Required bool
	Omit     any // whether empty values are explicitly left out, if it is said
}

// Props of an object.
func (g *G) Props(s M) []Prop {
	req := map[string]bool{}
	if l, ok := s["required"].(L); ok {
		for _, x := range l {
			req[x.(string)] = true
		}
	}
	var out []Prop
	ps, _ := s["properties"].(M)
	for _, k := range docs.Keys(ps) {
		own, ok := ps[k].(M)
		if !ok {
			own = g.Resolve(ps[k])
		}
		out = append(out, Prop{g.Conv(k), k, g.Resolve(own), own, req[k], g.omit(own)})
	}
	return out
}

func anys(l ...any) []any { return l }

var scalars = map[string][]any{
	"string":    anys("a", "", "é\"\\\n\t<&>\u2028\x00", "null", "{}", " ", "2024-02-30"),
	"date":      anys("2024-02-29", "0001-01-01", "9999-12-31"),
	"date-time": anys("2024-02-29T12:34:56Z", "0001-01-01T00:00:00Z", "1999-12-31T23:59:59.25+02:30", "9999-12-31T23:59:59.999999999Z"),
	"boolean":   anys(true, false),
	"integer":   anys(N("1"), N("0"), N("-1"), N("9007199254740993"), N("9223372036854775807"), N("-9223372036854775808")),
	"int32":     anys(N("1"), N("0"), N("-1"), N("2147483647"), N("-2147483648")),
	"number":    anys(N("1.5"), N("0"), N("-0.1"), N("1e21"), N("1E-7"), N("1.7976931348623157e308"), N("5e-324")),
	"float":     anys(N("1.5"), N("0"), N("-0.1"), N("16777216"), N("1e-7")),
	"any":       anys("a", true, N("1.5"), L{"b"}, Obj{"k": Obj{"l": L{}}}, ""),
}

var bad = map[string][]any{
	"string":    anys(N("1"), true, L{}, Obj{}, L{"a"}),
	"date":      anys(N("1"), true, L{}, Obj{}, "", "x", "2024-02-30", "2024-01-01T00:00:00Z"),
	"date-time": anys(N("1"), true, L{}, Obj{}, "", "x", "2024-01-01", "2024-13-01T00:00:00Z", "2024-01-01T00:00:00"),
	"boolean":   anys(N("1"), "true", L{}, Obj{}, ""),
	"integer":   anys("1", true, L{}, Obj{}, N("1.5"), N("9223372036854775808")),
	"int32":     anys("1", true, L{}, Obj{}, N("1.5"), N("2147483648")),
	"number":    anys("1", true, L{}, Obj{}, N("1e999")),
	"float":     anys("1", true, L{}, Obj{}, N("1e39")),
	"array":     anys("1", true, N("1"), Obj{}, ""),
	"object":    anys("1", true, N("1"), L{}, L{Obj{}}, ""),
}

// Bad lists what no schema of this one's kind allows.
func (g *G) Bad(s any) []any {
	m := g.Resolve(s)
	out := append([]any{}, bad[g.Kind(m)]...)
	switch g.Kind(m) {
	case "array":
		good := g.Docs(m["items"])[0]
		for _, b := range g.Bad(m["items"]) {
			out = append(out, L{b}, L{good, b})
		}
	case "object":
		base := g.base(m)
		for _, p := range g.Props(m) {
			for _, b := range g.Bad(p.Schema) {
				out = append(out, base.with(p.Key, b))
			}
		}
		if a, ok := additional(m); ok {
			for _, b := range g.Bad(a) {
				out = append(out, base.with(g.Keys[0], b), base.with(g.Keys[1], b).with(g.Keys[0], g.Docs(a)[0]))
			}
		}
	}
	return out
}

func (o Obj) with(k string, v any) Obj {
	n := Obj{}
	for x, y := range o {
		n[x] = y
	}
	n[k] = v
	return n
}

func (o Obj) without(k string) Obj {
	n := o.with(k, nil)
	delete(n, k)
	return n
}

func (g *G) base(m M) Obj {
	o := Obj{}
	for _, p := range g.Props(m) {
		if !g.deep(p.Own) {
			o[p.Key] = g.Docs(p.Own)[0]
		}
	}
	return o
}

func ref(s any) (string, bool) {
	m, _ := s.(M)
	r, ok := m["$ref"].(string)
	return r, ok
}

// Docs that a schema allows: for an object, one with all the properties, then those with one of them
// absent or having another value, one with only the required ones (and one more), none. Additional
// ones have each key, each value.
func (g *G) Docs(s any) []any {
	m := g.Resolve(s)
	if r, ok := ref(s); ok {
		if g.open == nil {
			g.open = map[string]int{}
		}
		g.open[r]++
		defer func() { g.open[r]-- }()
	}
	k := g.Kind(m)
	if l, ok := scalars[k]; ok {
		return l
	}
	switch k {
	case "array":
		if g.deep(m["items"]) {
			return anys(L{})
		}
		el := g.Docs(m["items"])
		out := anys(L{el[0]}, L{})
		for _, v := range el {
			out = append(out, L{v, el[0]})
		}
		return out
	case "object":
		base, least := g.base(m), Obj{}
		out := anys(base)
		props := g.Props(m)
		for _, p := range props {
			if p.Required {
				least[p.Key] = base[p.Key]
			}
		}
		for _, p := range props {
			if g.deep(p.Own) {
				continue
			}
			for _, v := range g.Docs(p.Own)[1:] {
				out = append(out, base.with(p.Key, v))
			}
			if !p.Required {
				out = append(out, base.without(p.Key), least.with(p.Key, base[p.Key]))
			}
		}
		out = append(out, least)
		if a, ok := additional(m); ok {
			vs := g.Docs(a)
			for _, v := range vs {
				out = append(out, base.with(g.Keys[0], v), least.with(g.Keys[0], v))
			}
			for i, key := range g.Keys {
				if _, declared := base[key]; declared {
					continue
				}
				out = append(out, base.with(key, vs[0]), least.with(key, vs[len(vs)-1]).with(g.Keys[0], vs[0]))
				for _, other := range g.Keys[:i] {
					if !g.Pairs && i > 3 {
						break
					}
					if _, declared := base[other]; !declared {
						out = append(out, least.with(key, vs[0]).with(other, vs[len(vs)-1]))
					}
				}
			}
		}
		return out
	}
	panic("documents of a " + k)
}

// Render a document; the keys are sorted, in reverse if so asked.
func Render(d any, reverse bool) string {
	switch d := d.(type) {
	case Obj:
		keys := make([]string, 0, len(d))
		for k := range d {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if reverse {
			sort.Sort(sort.Reverse(sort.StringSlice(keys)))
		}
		var l []string
		for _, k := range keys {
			l = append(l, Render(k, reverse)+":"+Render(d[k], reverse))
		}
		return "{" + strings.Join(l, ",") + "}"
	case L:
		var l []string
		for _, x := range d {
			l = append(l, Render(x, reverse))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(d); err != nil {
		panic(err)
	}
	return strings.TrimSpace(b.String())
}

// Parse a document, in which no object has twice the same key.
func Parse(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parse(d)
	if err != nil {
		return nil, err
	}
	if d.InputOffset() != int64(len(b)) {
		return nil, fmt.Errorf("something after the document: %s", b)
	}
	return v, nil
}

func parse(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		o := Obj{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			if _, twice := o[k.(string)]; twice {
				return nil, fmt.Errorf("the key %q is there twice", k)
			}
			if o[k.(string)], err = parse(d); err != nil {
				return nil, err
			}
		}
		_, err = d.Token()
		return o, err
	case json.Delim('['):
		l := L{}
		for d.More() {
			v, err := parse(d)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err = d.Token()
		return l, err
	}
	return t, nil
}

func rat(n N) *big.Rat {
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		panic("number " + string(n))
	}
	return r
}

// Match tells how a Go value, with its type, differs from a document of the schema.
func (g *G) Match(s any, d any, v reflect.Value) string {
	m := g.Resolve(s)
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			if d == nil && g.Kind(m) == "any" {
				return ""
			}
			return fmt.Sprintf("nothing for %s", Render(d, false))
		}
		v = v.Elem()
	}
	differ := func(x any) string { return fmt.Sprintf("%v for %s", x, Render(d, false)) }
	switch g.Kind(m) {
	case "string":
		if x, ok := d.(string); !ok || v.Kind() != reflect.String || v.String() != x {
			return differ(fmt.Sprintf("%#v", v))
		}
	case "boolean":
		if x, ok := d.(bool); !ok || v.Kind() != reflect.Bool || v.Bool() != x {
			return differ(v)
		}
	case "date":
		x, ok := d.(string)
		if t := reflect.TypeOf(civil.Date{}); !ok || !v.CanConvert(t) || v.Convert(t).Interface().(civil.Date).String() != x {
			return differ(v)
		}
	case "date-time":
		x, ok := d.(string)
		if !ok {
			return differ(v)
		}
		want, err := time.Parse(time.RFC3339Nano, x)
		if t := reflect.TypeOf(time.Time{}); err != nil || !v.CanConvert(t) || !v.Convert(t).Interface().(time.Time).Equal(want) {
			return differ(v)
		}
	case "integer", "int32":
		x, ok := d.(N)
		if !ok || !v.CanInt() || rat(x).Cmp(new(big.Rat).SetInt64(v.Int())) != 0 {
			return differ(v)
		}
	case "number", "float":
		x, ok := d.(N)
		if !ok || !v.CanFloat() {
			return differ(v)
		}
		f, err := x.Float64()
		if err != nil || f != v.Float() && !(v.Kind() == reflect.Float32 && float32(f) == float32(v.Float())) {
			return differ(v)
		}
	case "any":
		b, err := json.Marshal(v.Interface())
		if err != nil {
			return err.Error()
		}
		x, err := Parse(b)
		if err != nil {
			return err.Error()
		}
		if w := Diff(x, d); w != "" {
			return w
		}
	case "array":
		x, ok := d.(L)
		if d == nil && v.Kind() == reflect.Slice && v.IsNil() {
			return "" // the list is empty
		}
		if !ok || v.Kind() != reflect.Slice || v.Len() != len(x) {
			return differ(v)
		}
		for i := range x {
			if w := g.Match(m["items"], x[i], v.Index(i)); w != "" {
				return fmt.Sprintf("[%d]: %s", i, w)
			}
		}
	case "object":
		x, ok := d.(Obj)
		if !ok || v.Kind() != reflect.Struct {
			return differ(v)
		}
		fields := Fields(v.Type())
		left := Obj{}
		for k, y := range x {
			left[k] = y
		}
		n := 0
		for _, p := range g.Props(m) {
			i, ok := fields[p.Key]
			if !ok {
				return "no field of key " + p.Key
			}
			n++
			y, in := x[p.Key]
			if delete(left, p.Key); in && y != nil {
				if w := g.Match(p.Schema, y, v.Field(i)); w != "" {
					return p.Key + ": " + w
				}
			} else if !(p.Required && p.Omit == true && v.Field(i).IsZero() || Nil(v.Field(i)) || v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0) {
				return fmt.Sprintf("%s: %v, which is not in %s", p.Key, v.Field(i), Render(d, false))
			}
		}
		f, ok := v.Type().FieldByName("AdditionalProperties")
		a, open := additional(m)
		if n != len(fields) || (ok && f.Tag.Get("json") == "-") != open {
			return fmt.Sprintf("%v has not the fields of the schema", v.Type())
		}
		if !open {
			if len(left) != 0 {
				return fmt.Sprintf("%s is of no field", Render(left, false))
			}
			return ""
		}
		am := v.FieldByIndex(f.Index)
		for _, k := range am.MapKeys() {
			y, ok := left[k.String()]
			if !ok {
				return fmt.Sprintf("additional %q, which is not in %s", k, Render(d, false))
			}
			if w := g.Match(a, y, am.MapIndex(k)); w != "" {
				return fmt.Sprintf("additional %q: %s", k, w)
			}
			delete(left, k.String())
		}
		if len(left) != 0 {
			return fmt.Sprintf("%s is not among the additional ones", Render(left, false))
		}
	default:
		panic("a " + g.Kind(m))
	}
	return ""
}

// Nil tells whether something is unset.
func Nil(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

// Fields by JSON key.
func Fields(t reflect.Type) map[string]int {
	out := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		tag := t.Field(i).Tag.Get("json")
		if tag == "-" {
			continue
		}
		out[strings.Split(tag, ",")[0]] = i
	}
	return out
}

// Diff tells how documents differ, numbers being equal by value and times by instant.
func Diff(got, want any) string {
	differ := func() string { return fmt.Sprintf("%s instead of %s", Render(got, false), Render(want, false)) }
	switch w := want.(type) {
	case Obj:
		x, ok := got.(Obj)
		if !ok {
			return differ()
		}
		for k := range x {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%q is added: %s", k, differ())
			}
		}
		for k := range w {
			y, ok := x[k]
			if !ok {
				return fmt.Sprintf("%q is lost: %s", k, differ())
			}
			if d := Diff(y, w[k]); d != "" {
				return fmt.Sprintf("%q: %s", k, d)
			}
		}
	case L:
		x, ok := got.(L)
		if !ok || len(x) != len(w) {
			return differ()
		}
		for i := range w {
			if d := Diff(x[i], w[i]); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
	case N:
		x, ok := got.(N)
		if !ok {
			return differ()
		}
		if rat(x).Cmp(rat(w)) != 0 {
			f, e1 := x.Float64()
			h, e2 := w.Float64()
			if e1 != nil || e2 != nil || f != h && float32(f) != float32(h) {
				return differ()
			}
		}
	case string:
		x, ok := got.(string)
		if !ok || x != w {
			a, e1 := time.Parse(time.RFC3339Nano, x)
			b, e2 := time.Parse(time.RFC3339Nano, w)
			if e1 != nil || e2 != nil || !a.Equal(b) {
				return differ()
			}
		}
	default:
		if got != want {
			return differ()
		}
	}
	return ""
}

// Same is Diff, but that what must be kept when it is empty may be null in the first one, and that
// an empty optional list may be absent.
func (g *G) Same(s any, got, want any) string { return Diff(g.norm(s, got), g.norm(s, want)) }

func (g *G) norm(s any, d any) any {
	m := g.Resolve(s)
	switch x := d.(type) {
	case L:
		if g.Kind(m) == "array" {
			l := L{}
			for _, y := range x {
				l = append(l, g.norm(m["items"], y))
			}
			return l
		}
	case Obj:
		if g.Kind(m) != "object" {
			return d
		}
		o := Obj{}
		for k, v := range x {
			o[k] = v
		}
		declared := map[string]bool{}
		for _, p := range g.Props(m) {
			declared[p.Key] = true
			v, in := o[p.Key]
			if !in {
				continue
			}
			if l, ok := v.(L); !p.Required && (v == nil && p.Omit == false || ok && len(l) == 0 && g.EmptyIsUnset) || p.Required && p.Omit == true && empty(v) {
				delete(o, p.Key)
			} else {
				o[p.Key] = g.norm(p.Schema, v)
			}
		}
		if a, ok := additional(m); ok {
			for k, v := range o {
				if !declared[k] {
					o[k] = g.norm(a, v)
				}
			}
		}
		return o
	}
	return d
}

// empty is what may be omitted when it is asked for.
func empty(v any) bool {
	switch v := v.(type) {
	case nil:
		return true
	case string:
		return v == ""
	case bool:
		return !v
	case N:
		return rat(v).Sign() == 0
	case L:
		return len(v) == 0
	}
	return false
}

// Decode a document into a new value of the type.
func Decode(t reflect.Type, doc string) (v reflect.Value, fail string) {
	p := reflect.New(t)
	defer func() {
		if r := recover(); r != nil {
			v, fail = p.Elem(), fmt.Sprintf("panic when decoding %s: %v", doc, r)
		}
	}()
	if err := json.Unmarshal([]byte(doc), p.Interface()); err != nil {
		return p.Elem(), "decode " + doc + ": " + err.Error()
	}
	return p.Elem(), ""
}

// Encode a value.
func Encode(v reflect.Value) (any, string) {
	b, err := json.Marshal(v.Interface())
	if err != nil {
		return nil, "encode: " + err.Error()
	}
	if !json.Valid(b) {
		return nil, "not valid: " + string(b)
	}
	d, err := Parse(b)
	if err != nil {
		return nil, err.Error() + " in " + string(b)
	}
	return d, ""
}

// Presence tells which property of the document is there when it should not be, or the other way
// around.
func (g *G) Presence(s any, d any, v reflect.Value) string {
	m := g.Resolve(s)
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return ""
		}
		v = v.Elem()
	}
	switch g.Kind(m) {
	case "array":
		l, _ := d.(L)
		for i := range l {
			if w := g.Presence(m["items"], l[i], v.Index(i)); w != "" {
				return fmt.Sprintf("[%d]: %s", i, w)
			}
		}
	case "object":
		o, _ := d.(Obj)
		fields := Fields(v.Type())
		for _, p := range g.Props(m) {
			f := v.Field(fields[p.Key])
			_, in := o[p.Key]
			want := true
			switch {
			case p.Omit == false, p.Required && p.Omit == nil:
			case p.Required || p.Omit == true && f.Kind() != reflect.Slice:
				k := f.Kind()
				want = k == reflect.Struct || !(k == reflect.Slice && f.Len() == 0 || f.IsZero())
			default:
				want = !Nil(f)
			}
			if in != want {
				if f.Kind() == reflect.Slice && f.Len() == 0 && want {
					return "the optional list " + p.Key + " is set to an empty one, and it is absent"
				}
				return fmt.Sprintf("%q: it is %v that it is present", p.Key, in)
			}
			if in {
				if w := g.Presence(p.Schema, o[p.Key], f); w != "" {
					return fmt.Sprintf("%q: %s", p.Key, w)
				}
			}
		}
	}
	return ""
}

// Absent tells which optional property is set though the document has it not, or is not set though it
// has it.
func (g *G) Absent(s any, d any, v reflect.Value) string {
	m := g.Resolve(s)
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return ""
		}
		v = v.Elem()
	}
	switch x := d.(type) {
	case L:
		if g.Kind(m) == "array" {
			for i := range x {
				if w := g.Absent(m["items"], x[i], v.Index(i)); w != "" {
					return fmt.Sprintf("[%d]: %s", i, w)
				}
			}
		}
	case Obj:
		if g.Kind(m) != "object" {
			return ""
		}
		fields := Fields(v.Type())
		for _, p := range g.Props(m) {
			f := v.Field(fields[p.Key])
			y, in := x[p.Key]
			if !p.Required && in == Nil(f) {
				return fmt.Sprintf("%q: it is %v that it is in the document, and the field is %s", p.Key, in, f)
			}
			if in {
				if w := g.Absent(p.Schema, y, f); w != "" {
					return fmt.Sprintf("%q: %s", p.Key, w)
				}
			}
		}
	}
	return ""
}
