// P18: generated structures keep the presence of their properties in JSON.
package main

import (
	"encoding/json"
	"strings"
	"unicode"

	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/jdoc"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

// words of the names used here
func words(s string) (out []string) {
	cur := ""
	for i, r := range s {
		if strings.ContainsRune("_- ", r) || unicode.IsUpper(r) && i > 0 {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		}
		if !strings.ContainsRune("_- ", r) {
			cur += strings.ToLower(string(r))
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return
}

func conv(p sch.Pkg) func(string) string {
	return func(s string) string {
		w := words(s)
		switch {
		case p.Opt("snake"):
			return strings.Join(w, "_")
		case p.Opt("kebab"):
			return strings.Join(w, "-")
		case p.Opt("camel"):
			for i := range w {
				w[i] = strings.ToUpper(w[i][:1]) + w[i][1:]
			}
			return strings.Join(w, "")
		}
		return s
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P18") {
			g := &jdoc.G{EmptyIsUnset: true, Schemas: p.Schemas, Conv: conv(p), Format: !p.Opt("--ignore-string-format"), Keys: []string{"zz", "yy"}}
			strict := *g
			strict.EmptyIsUnset = false
			e.Section(p.Name)
			for i, m := range p.Msgs {
				m := m
				c := wire.New(reg.Reg[p.Name], i)
				f, _ := c.T.FieldByName("Payload")
				t := f.Type
				for _, d := range g.Docs(m.Payload) {
					d, doc := d, jdoc.Render(d, false)
					e.Case(m.Label+" document "+doc, func() (fails []string, nt bool) {
						v, fail := jdoc.Decode(t, doc)
						if fail != "" {
							return []string{fail}, true
						}
						if w := g.Match(m.Payload, d, v); w != "" {
							return []string{"decoded as " + vals.Show(v) + ": " + w}, true
						}
						if w := g.Absent(m.Payload, d, v); w != "" {
							fails = append(fails, "decoded as "+vals.Show(v)+": "+w)
						}
						x, fail := jdoc.Encode(v)
						if fail != "" {
							return append(fails, fail), true
						}
						if w := g.Same(m.Payload, x, d); w != "" {
							fails = append(fails, "encoded again: "+w)
						} else if w := strict.Same(m.Payload, x, d); w != "" {
							fails = append(fails, "encoded again: empty list lost")
						}
						return fails, true
					})
				}
				for _, v := range vals.Of(t, false, e.Thorough) {
					v := v
					e.Case(m.Label+" value "+vals.Show(v), func() (fails []string, nt bool) {
						d, fail := jdoc.Encode(v)
						if fail != "" {
							return []string{fail}, true
						}
						if w := g.Presence(m.Payload, d, v); w != "" {
							fails = append(fails, "encoded as "+jdoc.Render(d, false)+": "+w)
						}
						if w := g.Match(m.Payload, d, v); w != "" {
							return append(fails, "encoded as "+jdoc.Render(d, false)+": "+w), true
						}
						b, _ := json.Marshal(v.Interface())
						back, fail := jdoc.Decode(t, string(b))
						if fail != "" {
							return append(fails, fail), true
						}
						if w := vals.Diff(v, back); w != "" {
							fails = append(fails, "encoded as "+string(b)+", decoded differently: "+w)
						}
						return fails, true
					})
				}
			}
		}
	})
}
