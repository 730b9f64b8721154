// P17: objects with additional properties round-trip through JSON.
package main

import (
	"encoding/json"
	"strings"

	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/jdoc"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

func snake(s string) string {
	return strings.ToLower(strings.NewReplacer("-", "_", " ", "_").Replace(s))
}

func as(s string) string { return s }

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P17") {
			g := &jdoc.G{EmptyIsUnset: true, Pairs: e.Thorough, Schemas: p.Schemas, Conv: as, Format: !p.Opt("--ignore-string-format"),
				Keys: []string{"zz", "A", "X-Y", "x_y", "x-y", "XY", "AdditionalProperties", "additionalProperties", "", "é", "\"", "\\", "<&>", "\u2028", "\x00", "null", "a ", "-", "a,omitempty", "K", "K", "S", "ſ", "B_C", "0"}}
			if p.Opt("snake") {
				g.Conv = snake
			}
			e.Section(p.Name)
			for i, m := range p.Msgs {
				m := m
				c := wire.New(reg.Reg[p.Name], i)
				f, _ := c.T.FieldByName("Payload")
				t := f.Type
				for _, d := range g.Docs(m.Payload) {
					for _, reverse := range []bool{false, true} {
						d, doc := d, jdoc.Render(d, reverse)
						e.Case(m.Label+" document "+doc, func() ([]string, bool) {
							v, fail := jdoc.Decode(t, doc)
							if fail != "" {
								return []string{fail}, true
							}
							if w := g.Match(m.Payload, d, v); w != "" {
								return []string{"decoded as " + vals.Show(v) + ": " + w}, true
							}
							x, fail := jdoc.Encode(v)
							if fail != "" {
								return []string{fail}, true
							}
							if w := g.Same(m.Payload, x, d); w != "" {
								return []string{"encoded again: " + w}, true
							}
							return nil, true
						})
					}
				}
				for _, d := range g.Bad(m.Payload) {
					doc := jdoc.Render(d, false)
					e.Case(m.Label+" not a document "+doc, func() ([]string, bool) {
						if v, fail := jdoc.Decode(t, doc); fail == "" {
							return []string{"decoded as " + vals.Show(v)}, true
						} else if strings.HasPrefix(fail, "panic") {
							return []string{fail}, true
						}
						return nil, true
					})
				}
				for _, v := range vals.Of(t, false, e.Thorough) {
					v := v
					e.Case(m.Label+" value "+vals.Show(v), func() ([]string, bool) {
						d, fail := jdoc.Encode(v)
						if fail != "" {
							return []string{fail}, true
						}
						if w := g.Match(m.Payload, d, v); w != "" {
							return []string{"encoded as " + jdoc.Render(d, false) + ": " + w}, true
						}
						b, _ := json.Marshal(v.Interface())
						back, fail := jdoc.Decode(t, string(b))
						if fail != "" {
							return []string{fail}, true
						}
						if w := vals.Diff(v, back); w != "" {
							return []string{"encoded as " + string(b) + ", decoded differently: " + w}, true
						}
						return nil, true
					})
				}
			}
		}
	})
}
