// P25: channel addresses are their template, with each parameter expression replaced by its value.
package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

var values = map[string][]any{
	"string":  {"v", "", "a/b", "a.b", "%", "%d%s", "{id}", "{user_id}", "é\"\\", "x y", "*", ">", "%!v"},
	"integer": {int64(0), int64(-1), int64(7), int64(12345678901)},
	"int32":   {int32(0), int32(-1), int32(2147483647)},
	"number":  {0.0, 1.5, -2.25, 100000.0},
	"boolean": {true, false},
}

func text(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case int32:
		return strconv.Itoa(int(v))
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case bool:
		return map[bool]string{true: "true", false: "false"}[v]
	}
	panic("a value")
}

func plain(s string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(s) {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// combinations of the values of parameters
func combinations(ps docs.M, version int, max int) []map[string]any {
	out := []map[string]any{{}}
	for _, name := range docs.Keys(ps) {
		k := "string"
		if s, ok := ps[name].(docs.M)["schema"].(docs.M); ok && version == 2 {
			k = s["type"].(string)
			if s["format"] == "int32" {
				k = "int32"
			}
		}
		l := values[k]
		if len(l) > max {
			l = l[:max]
		}
		var next []map[string]any
		for _, o := range out {
			for _, v := range l {
				n := map[string]any{name: v}
				for x, y := range o {
					n[x] = y
				}
				next = append(next, n)
			}
		}
		out = next
	}
	return out
}

func address(template string, vs map[string]any) string {
	out, at := "", 0
	for _, e := range sch.Expressions(template) {
		if v, ok := vs[template[e[0]+1:e[1]-1]]; ok {
			out += template[at:e[0]] + text(v)
			at = e[1]
		}
	}
	return out + template[at:]
}

func set(c *wire.Codec, vs map[string]any) string {
	t := c.Send.Type()
	if t.NumIn() != map[bool]int{true: 2, false: 3}[len(vs) == 0] {
		return fmt.Sprintf("the sending function takes %d arguments", t.NumIn())
	}
	if len(vs) == 0 {
		return ""
	}
	p := reflect.New(t.In(1)).Elem()
	if p.NumField() != len(vs) {
		return "the parameters are " + p.Type().String() + vals.Show(p)
	}
	for name, v := range vs {
		found := false
		for i := 0; i < p.NumField(); i++ {
			if plain(p.Type().Field(i).Name) == plain(name) {
				if p.Field(i).Kind() != reflect.TypeOf(v).Kind() {
					return fmt.Sprintf("the parameter %s is of type %s", name, p.Field(i).Type())
				}
				p.Field(i).Set(reflect.ValueOf(v))
				found = true
			}
		}
		if !found {
			return "there is no parameter " + name
		}
	}
	c.Params = p
	return ""
}

func open(c *wire.Codec) string {
	var l []string
	for a := range c.B.Subs {
		l = append(l, a)
	}
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func quoted(l ...string) string {
	sort.Strings(l)
	return fmt.Sprintf("%q", l)
}

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P25") {
			e.Section(p.Name)
			for i, m := range p.Msgs {
				i, m := i, m
				fresh := func() (*wire.Codec, reflect.Value) {
					c := wire.New(reg.Reg[p.Name], i)
					msg := reflect.New(c.T).Elem()
					msg.FieldByName("Payload").SetString("hello")
					return c, msg
				}
				for _, vs := range combinations(m.Params, p.Version, 99) {
					vs := vs
					e.Case(fmt.Sprintf("%q %v", m.Address, vs), func() (fails []string, nt bool) {
						nt = len(vs) > 0
						c, msg := fresh()
						if w := set(c, vs); w != "" {
							return []string{w}, nt
						}
						want := address(m.Address, vs)
						enc, err := c.Encode(msg)
						if err != nil {
							return []string{err.Error()}, nt
						}
						if c.B.Addr != want || c.B.Published != 1 {
							fails = append(fails, fmt.Sprintf("%d sent, to %q instead of %q", c.B.Published, c.B.Addr, want))
						}
						c.Subscribe()
						if got := open(c); got != quoted(want) {
							return append(fails, fmt.Sprintf("subscribed to %s instead of %q", got, want)), nt
						}
						got, err := c.DecodeFrom(want, enc)
						if err != nil {
							return append(fails, err.Error()), nt
						}
						if d := vals.Diff(msg, got); d != "" {
							fails = append(fails, d)
						}
						if c.Unsubscribe(); open(c) != "[]" {
							fails = append(fails, "unsubscribed, but from "+open(c))
						}
						if c.Subscribe(); open(c) != quoted(want) {
							fails = append(fails, "subscribed again to "+open(c))
						}
						return fails, nt
					})
				}
				few := 4
				if e.Thorough {
					few = 12
				}
				cs := combinations(m.Params, p.Version, few)
				for _, a := range cs {
					for _, b := range cs {
						x, y, a, b := address(m.Address, a), address(m.Address, b), a, b
						if x == y {
							continue
						}
						e.Case(fmt.Sprintf("%q %v and %v", m.Address, a, b), func() ([]string, bool) {
							c, msg := fresh()
							for _, vs := range []map[string]any{a, b} {
								if w := set(c, vs); w != "" {
									return []string{w}, true
								}
								c.Subscribe()
							}
							if got := open(c); got != quoted(x, y) {
								return []string{"subscribed to " + got}, true
							}
							set(c, a)
							if c.Unsubscribe(); open(c) != quoted(y) {
								return []string{"the first one is unsubscribed, there remains " + open(c)}, true
							}
							set(c, b)
							enc, err := c.Encode(msg)
							if err != nil || c.B.Addr != y {
								return []string{fmt.Sprintf("sent to %q, %v", c.B.Addr, err)}, true
							}
							got, err := c.DecodeFrom(y, enc)
							if err != nil || vals.Diff(msg, got) != "" {
								return []string{fmt.Sprintf("received %s, %v", vals.Show(got), err)}, true
							}
							if c.Unsubscribe(); open(c) != "[]" {
								return []string{"both are unsubscribed, there remains " + open(c)}, true
							}
							return nil, true
						})
					}
				}
			}
		}
	})
}
