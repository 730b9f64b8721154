// Package vals enumerates values of Go types, and compares them.
package vals

import (
	"encoding/json"
	"fmt"
	"math"
	"net/netip"
	"reflect"
	"time"

	"cloud.google.com/go/civil"
)

var (
	timeType  = reflect.TypeOf(time.Time{})
	dateType  = reflect.TypeOf(civil.Date{})
	addrType  = reflect.TypeOf(netip.Addr{})
	times     = []string{"2024-02-29T12:34:56Z", "0001-01-01T00:00:00Z", "1999-12-31T23:59:59+02:30", "9999-12-31T23:59:59Z", "2024-06-30T00:00:00-11:00"}
	rawString = []string{"a", "", "\x00\xff\xfe", "é\"\\\n\t<&>\u2028", "null", "{\"a\":1}", "12", " "}
	strs      = []string{"a", "", "é\"\\\n\t<&>\u2028\x00", "null", "{}", " "}
)

// Time of a RFC3339 string.
func Time(s string) time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		panic(err)
	}
	return t
}

func is(t, of reflect.Type) bool {
	return t == of || t.Kind() == of.Kind() && t.Kind() == reflect.Struct && t.ConvertibleTo(of)
}

// IsTime tells whether the type is a time or a date.
func IsTime(t reflect.Type) bool { return is(t, timeType) || is(t, dateType) }

// structures being enumerated
var open = map[reflect.Type]int{}

// Of lists values of a type: every value of the scalars, and for structures a value with the first
// one of each field then those with one field (two, if pairs is set) having another value. Strings are
// any bytes if raw is set.
func Of(t reflect.Type, raw, pairs bool) []reflect.Value {
	var out []reflect.Value
	if t.Kind() == reflect.Struct {
		open[t]++
		defer func() { open[t]-- }()
	}
	if (t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice) && open[t.Elem()] >= 2 {
		return []reflect.Value{reflect.Zero(t)}
	}
	add := func(vs ...any) []reflect.Value {
		for _, v := range vs {
			out = append(out, reflect.ValueOf(v).Convert(t))
		}
		return out
	}
	switch {
	case is(t, timeType):
		for _, s := range times {
			add(Time(s))
		}
		return out
	case is(t, dateType):
		return add(civil.Date{Year: 2024, Month: 2, Day: 29}, civil.Date{Year: 1, Month: 1, Day: 1}, civil.Date{Year: 9999, Month: 12, Day: 31})
	case t == addrType:
		return add(netip.MustParseAddr("1.2.3.4"), netip.Addr{}, netip.MustParseAddr("::1"))
	}
	switch t.Kind() {
	case reflect.String:
		l := strs
		if raw {
			l = rawString
		}
		for _, s := range l {
			add(s)
		}
	case reflect.Bool:
		add(true, false)
	case reflect.Int32:
		add(int32(1), int32(0), int32(-1), int32(256), int32(math.MaxInt32), int32(math.MinInt32))
	case reflect.Int64:
		add(int64(1), int64(0), int64(-1), int64(258), int64(1)<<53+1, int64(math.MaxInt64), int64(math.MinInt64))
	case reflect.Float32:
		add(float32(1.5), float32(0), float32(-0.1), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32))
	case reflect.Float64:
		add(1.5, 0.0, -0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21)
	case reflect.Interface:
		for _, v := range []any{"a", nil, 1.5, true, map[string]any{"a": []any{"b"}}} {
			x := reflect.New(t).Elem()
			if v != nil {
				x.Set(reflect.ValueOf(v))
			}
			out = append(out, x)
		}
	case reflect.Pointer:
		el := Of(t.Elem(), raw, pairs)
		for i, v := range el {
			if (v.Kind() == reflect.Slice || v.Kind() == reflect.Interface) && v.IsNil() {
				continue
			}
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p)
			if i == 0 {
				out = append(out, reflect.Zero(t))
			}
		}
	case reflect.Slice:
		el := Of(t.Elem(), false, false)
		mk := func(vs ...reflect.Value) {
			out = append(out, reflect.Append(reflect.MakeSlice(t, 0, len(vs)), vs...))
		}
		mk(el[0])
		mk()
		out = append(out, reflect.Zero(t))
		for _, v := range el {
			mk(v, el[0])
		}
	case reflect.Map:
		el := Of(t.Elem(), false, false)
		mk := func(kv ...any) {
			m := reflect.MakeMap(t)
			for i := 0; i+1 < len(kv); i += 2 {
				m.SetMapIndex(reflect.ValueOf(kv[i]), kv[i+1].(reflect.Value))
			}
			out = append(out, m)
		}
		mk("zk", el[0])
		mk()
		out = append(out, reflect.Zero(t))
		for _, v := range el {
			mk("zk", v)
		}
		for _, k := range []string{"", "\"", "\x00", "é\\\n", "<", "a b", "zz"} {
			mk(k, el[0], "zk", el[len(el)-1])
		}
	case reflect.Struct:
		var alts [][]reflect.Value
		base := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			a := Of(t.Field(i).Type, raw && base0(t.Field(i).Type).Kind() == reflect.String, pairs)
			alts = append(alts, a)
			base.Field(i).Set(a[0])
		}
		with := func(kv ...int) {
			v := reflect.New(t).Elem()
			v.Set(base)
			for i := 0; i+1 < len(kv); i += 2 {
				v.Field(kv[i]).Set(alts[kv[i]][kv[i+1]])
			}
			out = append(out, v)
		}
		with()
		for i := range alts {
			for j := 1; j < len(alts[i]); j++ {
				with(i, j)
				for k := i + 1; pairs && k < len(alts); k++ {
					for l := 1; l < len(alts[k]); l++ {
						with(i, j, k, l)
					}
				}
			}
		}
		// nothing set
		out = append(out, Unset(t))
	default:
		panic("values of " + t.String())
	}
	return out
}

func base0(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t
}

// Unset is the zero value of a type, but for the dates, which would not be valid.
func Unset(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case is(t, dateType):
		return Of(t, false, false)[0]
	case is(t, timeType) || t == addrType:
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			v.Field(i).Set(Unset(t.Field(i).Type))
		}
	}
	return v
}

// Diff tells how two values differ: times are equal to the second, and no list is an empty one.
func Diff(a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s instead of %s", b.Type(), a.Type())
	}
	t := a.Type()
	switch {
	case is(t, timeType):
		x, y := a.Convert(timeType).Interface().(time.Time), b.Convert(timeType).Interface().(time.Time)
		if !x.Truncate(time.Second).Equal(y.Truncate(time.Second)) {
			return fmt.Sprintf("%v instead of %v", y, x)
		}
		return ""
	case t == addrType:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%v instead of %v", b, a)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return Show(b) + " instead of " + Show(a)
			}
			return ""
		}
		return Diff(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if d := Diff(a.Field(i), b.Field(i)); d != "" {
				return t.Field(i).Name + ": " + d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s instead of %s", Show(b), Show(a))
		}
		for i := 0; i < a.Len(); i++ {
			if d := Diff(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d]: %s", i, d)
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s instead of %s", Show(b), Show(a))
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("no %q", k)
			}
			if d := Diff(a.MapIndex(k), y); d != "" {
				return fmt.Sprintf("[%q]: %s", k, d)
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s instead of %s", Show(b), Show(a))
	}
	return ""
}

// Show a value.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return Show(v.Elem())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Struct:
		if IsTime(v.Type()) || v.Type() == addrType {
			break
		}
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s += " "
			}
			s += v.Type().Field(i).Name + ":" + Show(v.Field(i))
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += Show(v.Index(i))
		}
		return s + "]"
	}
	if j, err := json.Marshal(v.Interface()); err == nil {
		return string(j)
	}
	return fmt.Sprintf("%+v", v.Interface())
}
