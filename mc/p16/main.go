// P16: messages survive encoding to the broker and back.
package main

import (
	"fmt"
	"maps"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

func show(m extensions.BrokerMessage) string {
	s := fmt.Sprintf("payload %q", m.Payload)
	hs := docs.M{}
	for k, v := range m.Headers {
		hs[k] = fmt.Sprintf("%q", v)
	}
	for _, k := range docs.Keys(hs) {
		s += fmt.Sprintf(" %s=%s", k, hs[k])
	}
	return s
}

// headers by name: the fields of the headers of a message
func headers(t reflect.Type) map[string]int {
	out := map[string]int{}
	f, ok := t.FieldByName("Headers")
	if !ok {
		return out
	}
	for i := 0; i < f.Type.NumField(); i++ {
		out[strings.Split(f.Type.Field(i).Tag.Get("json"), ",")[0]] = i
	}
	return out
}

func resolve(p sch.Pkg, s any) docs.M {
	m, _ := s.(docs.M)
	for m["$ref"] != nil {
		r := m["$ref"].(string)
		m = p.Schemas[r[strings.LastIndex(r, "/")+1:]].(docs.M)
	}
	return m
}

// snake case of the names of headers used here
func snake(s string) string {
	return strings.ToLower(strings.NewReplacer("-", "_", " ", "_").Replace(s))
}

func roundTrips(e *enum.E, p sch.Pkg) {
	e.Section(p.Name + " encode then decode")
	for i, m := range p.Msgs {
		c := wire.New(reg.Reg[p.Name], i)
		hs := headers(c.T)
		hdr := resolve(p, m.Headers)
		required := map[string]bool{}
		if l, ok := hdr["required"].(docs.L); ok {
			for _, x := range l {
				required[x.(string)] = true
			}
		}
		var values []reflect.Value
		payload, _ := c.T.FieldByName("Payload")
		pv := vals.Of(payload.Type, payload.Type.Kind() == reflect.String, e.Thorough)
		if hdr == nil {
			for _, v := range pv {
				x := reflect.New(c.T).Elem()
				x.FieldByName("Payload").Set(v)
				values = append(values, x)
			}
		} else {
			for _, v := range vals.Of(c.T.Field(fieldIndex(c.T, "Headers")).Type, true, true) {
				for _, w := range pv {
					x := reflect.New(c.T).Elem()
					x.FieldByName("Payload").Set(w)
					x.FieldByName("Headers").Set(v)
					values = append(values, x)
				}
			}
		}
		for _, v := range values {
			v := v
			e.Case(m.Label+" "+vals.Show(v), func() (fails []string, nt bool) {
				unset := ""
				if hdr != nil {
					h := v.FieldByName("Headers")
					for name := range required {
						key := name
						if _, ok := hs[key]; !ok {
							key = snake(name)
						}
						f := h.Field(hs[key])
						if f.Kind() == reflect.Pointer && f.IsNil() {
							unset = name
						}
					}
				}
				in := reflect.New(c.T).Elem()
				in.Set(v)
				enc, err := c.Encode(v)
				if unset != "" {
					if err == nil {
						fails = append(fails, "the required header "+unset+" is not set, and there is no error: "+show(enc))
					}
					return fails, true
				}
				if err != nil {
					return []string{"encode: " + err.Error()}, true
				}
				if d := vals.Diff(in, v); d != "" {
					fails = append(fails, "encoding alters the message: "+d)
				}
				enc2, err := c.Encode(v)
				if err != nil {
					fails = append(fails, fmt.Sprintf("encoded again: %v", err))
				} else if dec, err := c.Decode(enc2); err != nil {
					fails = append(fails, fmt.Sprintf("encoded again: decode: %v", err))
				} else if d := vals.Diff(v, dec); d != "" {
					fails = append(fails, "encoded again: "+d)
				}
				for k := range enc.Headers {
					if _, ok := hdr["properties"].(docs.M)[k]; !ok {
						fails = append(fails, "unknown header "+k)
					}
				}
				dec, err := c.Decode(enc)
				if err != nil {
					return append(fails, "decode: "+err.Error()+" from "+show(enc)), true
				}
				if d := vals.Diff(v, dec); d != "" {
					fails = append(fails, d+" from "+show(enc))
				}
				more := extensions.BrokerMessage{Payload: enc.Payload, Headers: map[string][]byte{"zz": []byte("\xff"), "H": []byte("x"), "": []byte("{"), "a": nil}}
				if _, ok := hdr["properties"].(docs.M); ok {
					for k := range hdr["properties"].(docs.M) {
						delete(more.Headers, k)
					}
				}
				maps.Copy(more.Headers, enc.Headers)
				dec, err = c.Decode(more)
				if err != nil {
					fails = append(fails, "decode with unknown headers: "+err.Error())
				} else if d := vals.Diff(v, dec); d != "" {
					fails = append(fails, "with unknown headers: "+d)
				}
				return fails, true
			})
		}
	}
}

func fieldIndex(t reflect.Type, name string) int {
	f, _ := t.FieldByName(name)
	return f.Index[0]
}

// kind of a field for what is not an encoding of it
func kind(t reflect.Type, schema docs.M, format bool) string {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if schema["x-go-type"] != nil {
		return "own"
	}
	switch schema["type"] {
	case "string":
		f, _ := schema["format"].(string)
		if format && (f == "date" || f == "date-time") {
			return f
		}
		return "string"
	case "integer":
		if schema["format"] == "int32" {
			return "int32"
		}
		return "integer"
	case "number":
		if schema["format"] == "float" {
			return "float"
		}
	}
	s, _ := schema["type"].(string)
	return s
}

// not encodings, as JSON or as text
var bad = map[string][]string{
	"date":      {"", "x", "2024-13-01", "2024-02-30", "2024-1-1", "2024-01-01T00:00:00Z", "20240101", "2024-01-01 ", "\"2024-01-01\"", "\xff"},
	"date-time": {"", "x", "2024-01-01", "2024-01-01T00:00:00", "2024-13-01T00:00:00Z", "2024-01-01T25:00:00Z", "2024-01-01T00:00:00Zx", "\"2024-01-01T00:00:00Z\"", "1704067200", "\xff"},
	"boolean":   {"", "x", "1", "0", "\"true\"", "tru", "truee", "TRUE", "{}", "[]", "\xff"},
	"integer":   {"", "x", "\"1\"", "1.5", "1x", "{}", "true", "9223372036854775808", "-9223372036854775809", "0x10", "01", "+1", "\xff"},
	"int32":     {"", "x", "\"1\"", "1.5", "1x", "{}", "true", "2147483648", "-2147483649", "0x10", "01", "\xff"},
	"number":    {"", "x", "\"1\"", "1x", "{}", "true", "1e999", "NaN", "01", "\xff"},
	"float":     {"", "x", "\"1\"", "1x", "{}", "true", "1e39", "Inf", "\xff"},
	"array":     {"", "x", "{}", "1", "\"x\"", "true", "[", "[]x", "[,]", "[{]", "\xff"},
	"object":    {"", "x", "[]", "1", "\"x\"", "true", "{", "{}}", "{}x", "{\"a\"}", "{\"a\":}", "\xff"},
	"own":       {"", "x", "{}", "[]", "\"x\"", "true", "1x", "\xff", "\"1.2.3\""},
}

// lengths of which no number is
var lengths = []string{"", "x", "xxx", "xxxxx", "xxxxxx", "xxxxxxx", "xxxxxxxxx", strings.Repeat("x", 16)}

func garbage(e *enum.E, p sch.Pkg) {
	e.Section(p.Name + " decode what is not an encoding")
	format := !p.Opt("--ignore-string-format")
	for i, m := range p.Msgs {
		c := wire.New(reg.Reg[p.Name], i)
		zero := vals.Of(c.T, true, false)[0]
		base, err := c.Encode(zero)
		m := m
		if err != nil {
			e.Fail(m.Label, "encode: %v", err)
			continue
		}
		refused := func(what string, b extensions.BrokerMessage) {
			e.Case(fmt.Sprintf("%s %s", m.Label, what), func() ([]string, bool) {
				dec, err := c.Decode(b)
				if err == nil {
					return []string{"decoded as " + vals.Show(dec)}, true
				}
				return nil, true
			})
		}
		payload, _ := c.T.FieldByName("Payload")
		k := kind(payload.Type, resolve(p, m.Payload), format)
		list := bad[k]
		switch k {
		case "integer", "int32", "number", "float":
			list = lengths
		}
		for _, b := range list {
			refused(fmt.Sprintf("payload %q", b), extensions.BrokerMessage{Payload: []byte(b), Headers: base.Headers})
		}
		if k == "object" || k == "array" || k == "boolean" {
			for n := range base.Payload {
				refused(fmt.Sprintf("payload %q", base.Payload[:n]), extensions.BrokerMessage{Payload: base.Payload[:n], Headers: base.Headers})
			}
		}
		hdr := resolve(p, m.Headers)
		if hdr == nil {
			continue
		}
		f, _ := c.T.FieldByName("Headers")
		hs := headers(c.T)
		props := hdr["properties"].(docs.M)
		for _, h := range docs.Keys(props) {
			key := h
			if _, ok := hs[key]; !ok {
				key = snake(h)
			}
			k := kind(f.Type.Field(hs[key]).Type, resolve(p, props[h]), format)
			for _, b := range bad[k] {
				x := extensions.BrokerMessage{Payload: base.Payload, Headers: maps.Clone(base.Headers)}
				x.Headers[h] = []byte(b)
				refused(fmt.Sprintf("header %s %q", h, b), x)
			}
			if k == "string" {
				for _, b := range []string{"", "\xff\x00", "null", "{", "\"a\"", "é"} {
					b, h, key := b, h, key
					e.Case(fmt.Sprintf("%s header %s %q", m.Label, h, b), func() ([]string, bool) {
						x := extensions.BrokerMessage{Payload: base.Payload, Headers: maps.Clone(base.Headers)}
						x.Headers[h] = []byte(b)
						dec, err := c.Decode(x)
						if err != nil {
							return []string{err.Error()}, true
						}
						g := dec.FieldByName("Headers").Field(hs[key])
						for g.Kind() == reflect.Pointer {
							g = g.Elem()
						}
						if g.String() != b {
							return []string{fmt.Sprintf("decoded as %q", g.String())}, true
						}
						return nil, true
					})
				}
			}
		}
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P16") {
			roundTrips(e, p)
			garbage(e, p)
		}
	})
}
