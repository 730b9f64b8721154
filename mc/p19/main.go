// P19: the generated validation accepts exactly what the constraints of the schema allow.
package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/go-playground/validator/v10"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

var validate = validator.New()

func valid(v reflect.Value) (err error, panicked any) {
	defer func() { panicked = recover() }()
	return validate.Struct(v.Interface()), nil
}

func rat(v any) *big.Rat {
	r, ok := new(big.Rat).SetString(fmt.Sprint(v))
	if !ok {
		panic("number " + fmt.Sprint(v))
	}
	return r
}

// allowed tells whether the constraints of a property allow a value.
func allowed(s docs.M, v reflect.Value, required bool) bool {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return !required
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Slice && v.IsNil() {
		return !required
	}
	if l, ok := s["all"].([]docs.M); ok {
		for _, x := range l {
			if !allowed(x, v, true) {
				return false
			}
		}
		return true
	}
	if l, ok := s["any"].([]docs.M); ok {
		for _, x := range l {
			if allowed(x, v, true) {
				return true
			}
		}
		return false
	}
	switch {
	case s["type"] == "string" && v.Kind() == reflect.String:
		n := utf8.RuneCountInString(v.String())
		if m, ok := s["minLength"]; ok && rat(n).Cmp(rat(m)) < 0 {
			return false
		}
		if m, ok := s["maxLength"]; ok && rat(n).Cmp(rat(m)) > 0 {
			return false
		}
		if l, ok := s["enum"].(docs.L); ok {
			in := false
			for _, x := range l {
				in = in || x == v.String()
			}
			if !in {
				return false
			}
		}
		if c, ok := s["const"]; ok && c != v.String() {
			return false
		}
	case s["type"] == "integer" || s["type"] == "number":
		var x *big.Rat
		if v.CanInt() {
			x = rat(v.Int())
		} else {
			x = new(big.Rat).SetFloat64(v.Float())
		}
		for k, ok := range map[string]func(int) bool{
			"minimum": func(c int) bool { return c >= 0 }, "maximum": func(c int) bool { return c <= 0 },
			"exclusiveMinimum": func(c int) bool { return c > 0 }, "exclusiveMaximum": func(c int) bool { return c < 0 },
		} {
			if b, is := s[k]; is && !ok(x.Cmp(rat(b))) {
				return false
			}
		}
	case s["type"] == "array":
		if m, ok := s["minLength"]; ok && rat(v.Len()).Cmp(rat(m)) < 0 {
			return false
		}
		if m, ok := s["maxLength"]; ok && rat(v.Len()).Cmp(rat(m)) > 0 {
			return false
		}
		if s["uniqueItems"] == true {
			seen := map[string]bool{}
			for i := 0; i < v.Len(); i++ {
				b, err := json.Marshal(v.Index(i).Interface())
				if err != nil {
					panic(err)
				}
				if seen[string(b)] {
					return false
				}
				seen[string(b)] = true
			}
		}
	case s["type"] == "object":
		req := map[string]bool{}
		if l, ok := s["required"].(docs.L); ok {
			for _, x := range l {
				req[x.(string)] = true
			}
		}
		for k, p := range s["properties"].(docs.M) {
			for i := 0; i < v.NumField(); i++ {
				if strings.Split(v.Type().Field(i).Tag.Get("json"), ",")[0] == k && !allowed(p.(docs.M), v.Field(i), req[k]) {
					return false
				}
			}
		}
	}
	return true
}

// leaves are the schemas that are combined.
func leaves(s docs.M) (out []docs.M) {
	for _, k := range []string{"all", "any"} {
		if l, ok := s[k].([]docs.M); ok {
			for _, x := range l {
				out = append(out, leaves(x)...)
			}
			return
		}
	}
	return []docs.M{s}
}

// exact tells whether rules can say what the schema allows: alternatives must be
// lists of values, or differ in one bound, or one of them must have no constraint.
func exact(s docs.M) bool {
	l, ok := s["all"].([]docs.M)
	if ok {
		for _, x := range l {
			if !exact(x) {
				return false
			}
		}
		return true
	}
	if l, ok = s["any"].([]docs.M); !ok {
		return true
	}
	keys := map[string]bool{}
	values, one := true, true
	for _, x := range l {
		n := 0
		for k := range x {
			if k != "type" && k != "items" {
				keys[k] = true
				n++
			}
		}
		if n == 0 {
			return true
		}
		values = values && (x["enum"] != nil || x["const"] != nil)
		one = one && n == 1
	}
	return values || one && len(keys) == 1
}

// clone is another value, which is equal.
func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch {
	case v.Kind() == reflect.Pointer && !v.IsNil():
		n.Set(reflect.New(v.Type().Elem()))
		n.Elem().Set(clone(v.Elem()))
	case v.Kind() == reflect.Struct && !vals.IsTime(v.Type()):
		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(clone(v.Field(i)))
		}
	}
	return n
}

// around lists the values of interest for a constrained schema.
func around(s docs.M, t reflect.Type, thorough bool) (out []reflect.Value) {
	add := func(x any) { out = append(out, reflect.ValueOf(x).Convert(t)) }
	switch t.Kind() {
	case reflect.Pointer:
		out = append(out, reflect.Zero(t))
		for _, v := range around(s, t.Elem(), thorough) {
			if v.Kind() == reflect.Slice && v.IsNil() {
				continue
			}
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p)
		}
		return
	case reflect.String:
		l := []string{"", "a", "b", "x", "ab", "aa", "bb", "abc", "ccc", "日", "日本", "日本語", "a b", "A", " ", "1", "0", "a,", "'a'", "'", "''", "a,b", "a|b", "a b,c", "\x00", "\xff", "-", "a ", " a", "0x2C", "0x2c", ",", "0x7C", "|", "a0x2Cb",
			"abcdefghijk", "abcdefghijkl", "日本語日本語日本語日本語", "日本語日本語日本語日本語日"}
		for _, k := range []string{"minLength", "maxLength"} {
			if s[k] == sch.Num("1000000") {
				l = append(l, strings.Repeat("a", 999999), strings.Repeat("é", 1000000), strings.Repeat("a", 1000001))
			}
		}
		if e, ok := s["enum"].(docs.L); ok {
			for _, x := range e {
				l = append(l, x.(string), x.(string)+"x", strings.ToUpper(x.(string)), x.(string)+" ")
			}
		}
		if c, ok := s["const"].(string); ok {
			l = append(l, c, c+"x", c+" ", strings.ToUpper(c))
		}
		for _, x := range l {
			add(x)
		}
		return
	case reflect.Int32, reflect.Int64, reflect.Float32, reflect.Float64:
		ints := []int64{0, 1, -1, 2, -2, 3, 4, 5, 6, -5, -6, 100, -100, 1000000, 1000001, 999999, -2500000, -2500001, -2499999, 2147483647, -2147483648}
		if t.Kind() == reflect.Int64 || t.Kind() == reflect.Float64 {
			ints = append(ints, 9007199254740991, 9007199254740992, -9007199254740992)
		}
		if t.Kind() == reflect.Int64 {
			ints = append(ints, 9007199254740993, 9007199254740994, 9223372036854775807, -9223372036854775808)
		}
		for _, n := range ints {
			add(n)
		}
		if t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64 {
			for _, f := range []float64{0.5, -0.5, 1.5, 1.4375, 1.5625, -0.25, -0.125, -0.375, 4.9375, 5.0625, 1e30, -1e30, 5e-30, -5e-30} {
				add(f)
			}
		}
		return
	case reflect.Slice:
		el := vals.Of(t.Elem(), false, false)
		out = append(out, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		n := len(el)
		if n > 6 {
			n = 6
		}
		for _, a := range el[:n] {
			out = append(out, reflect.Append(reflect.Zero(t), a))
			for _, b := range el[:n] {
				out = append(out, reflect.Append(reflect.Zero(t), a, clone(b)))
				for _, c := range el[:n] {
					out = append(out, reflect.Append(reflect.Zero(t), a, clone(b), clone(c)))
				}
			}
		}
		return
	case reflect.Struct:
		if !vals.IsTime(t) {
			for i := 0; i < t.NumField(); i++ {
				name := strings.Split(t.Field(i).Tag.Get("json"), ",")[0]
				for _, x := range around(s["properties"].(docs.M)[name].(docs.M), t.Field(i).Type, thorough) {
					v := reflect.New(t).Elem()
					v.Field(i).Set(x)
					out = append(out, v)
				}
			}
			return
		}
	}
	return vals.Of(t, false, thorough)
}

func aroundAll(s docs.M, t reflect.Type, thorough bool) (out []reflect.Value) {
	seen := map[string]bool{}
	for _, l := range leaves(s) {
		for _, v := range around(l, t, thorough) {
			if k := vals.Show(v); !seen[k] {
				seen[k] = true
				out = append(out, v)
			}
		}
	}
	return
}

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P19") {
			e.Section(p.Name)
			for i, m := range p.Msgs {
				m := m
				c := wire.New(reg.Reg[p.Name], i)
				f, _ := c.T.FieldByName("Payload")
				payload, _ := m.Payload.(docs.M)
				_, required := payload["required"]
				isExact := exact(m.Constrained)
				for _, x := range aroundAll(m.Constrained, f.Type.Field(0).Type, e.Thorough) {
					v := reflect.New(f.Type).Elem()
					v.Field(0).Set(x)
					x := x
					show := vals.Show(x)
					if len(show) > 100 {
						show = fmt.Sprintf("%s... (%d bytes)", show[:20], len(show))
					}
					e.Case(m.Label+" "+show, func() ([]string, bool) {
						want := allowed(m.Constrained, x, required)
						err, panicked := valid(v)
						if panicked != nil {
							return []string{fmt.Sprintf("panic: %v (%s)", panicked, f.Type.Field(0).Tag)}, true
						}
						if err == nil && !isExact {
							return nil, true
						}
						if want != (err == nil) {
							return []string{fmt.Sprintf("it is %v that it is allowed, and the validation says %v (%s)", want, err, f.Type.Field(0).Tag)}, true
						}
						return nil, true
					})
				}
			}
		}
	})
}
