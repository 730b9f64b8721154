// P24: whatever is generated without error compiles, with the requested parts and no other.
package main

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// compiles generates the document and type-checks the result.
func compiles(doc any, o gen.Opts) (fails []string, ok bool) {
	r := gen.Run(doc, o)
	if r.Panic != "" {
		return []string{r.Failed()}, false
	}
	if r.Err != nil {
		return nil, false
	}
	return typed(r, o)
}

func typed(r gen.Result, o gen.Opts) (fails []string, ok bool) {
	_, errs := gen.Check(r.Src, o.Raw)
	for _, e := range errs {
		fails = append(fails, "does not compile: "+e)
	}
	if len(fails) > 2 {
		fails = fails[:2]
	}
	return fails, true
}

// must is compiles, where an error is a failure too.
func must(doc any, o gen.Opts) (fails []string, ok bool) {
	r := gen.Run(doc, o)
	if r.Err != nil && strings.HasSuffix(r.Err.Error(), `headers must be an object, is "`+lastQuoted(r.Err.Error())+`"`) {
		return nil, false // not a supported document
	}
	if f := r.Failed(); f != "" {
		return []string{f}, false
	}
	return typed(r, o)
}

// parts checks that each part is generated as requested, whatever the others.
func parts(doc any, o gen.Opts) (fails []string, ok bool) {
	bad := func(f string, a ...any) {
		if len(fails) < 3 {
			fails = append(fails, fmt.Sprintf(f, a...))
		}
	}
	src, decls := map[string]string{}, map[string][]string{}
	for _, p := range []string{"u", "a", "t", "ua", "ut", "at", "uat"} {
		o.Parts = p
		r := gen.Run(doc, o)
		if f := r.Failed(); f != "" {
			bad("parts %s: %s", p, f)
			return
		}
		d, err := gen.Decls(r.Src)
		if err != nil {
			bad("parts %s: %s", p, err)
			return
		}
		src[p], decls[p] = r.Src, d
		if strings.Contains(p, "t") {
			if _, errs := gen.Check(r.Src, o.Raw); len(errs) > 0 {
				bad("parts %s: does not compile: %s", p, errs[0])
			}
		}
	}
	for _, p := range []string{"ua", "ut", "at", "uat"} {
		var want []string
		for _, x := range p {
			want = append(want, decls[string(x)]...)
		}
		sort.Strings(want)
		if a, b := strings.Join(want, " "), strings.Join(decls[p], " "); a != b {
			bad("parts %s: declares %s, its parts %s", p, diff(decls[p], want), diff(want, decls[p]))
		}
	}
	for _, x := range []struct{ part, has string }{{"u", "UserController"}, {"a", "AppController"}, {"t", "AsyncAPIVersion"}} {
		for _, p := range []string{"u", "a", "t"} {
			if has := in(decls[p], x.has); has != (p == x.part) {
				bad("parts %s: declares %s: %v", p, x.has, has)
			}
		}
	}
	for _, d := range decls["u"] {
		if in(decls["a"], d) || in(decls["t"], d) {
			bad("parts u: declares %s, of another part", d)
		}
	}
	for _, d := range decls["a"] {
		if in(decls["t"], d) {
			bad("parts a: declares %s, of the types", d)
		}
	}
	// in separate files of one package
	for _, files := range [][]string{{"u", "a", "t"}, {"ua", "t"}, {"u", "at"}, {"ut", "a"}, {"u", "t"}, {"a", "t"}} {
		var s []string
		for _, f := range files {
			s = append(s, src[f])
		}
		if _, errs := gen.CheckAll(o.Raw, s...); len(errs) > 0 {
			bad("files %s: do not compile together: %s", strings.Join(files, ", "), errs[0])
		}
	}
	return fails, true
}

func lastQuoted(s string) string {
	if p := strings.Split(s, `"`); len(p) > 2 {
		return p[len(p)-2]
	}
	return ""
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func diff(a, b []string) (out []string) {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			out = append(out, x)
		}
	}
	return out
}

// options, one deviation from the defaults, or all.
func options(all bool) (out []gen.Opts) {
	for _, keys := range []string{"", "snake", "camel", "kebab"} {
		for _, naming := range []string{"", "camel"} {
			for _, ign := range []bool{false, true} {
				for _, ptr := range []bool{false, true} {
					for _, raw := range []bool{false, true} {
						n := 0
						for _, b := range []bool{keys != "", naming != "", ign, ptr, raw} {
							if b {
								n++
							}
						}
						if all || n <= 1 {
							out = append(out, gen.Opts{Keys: keys, Naming: naming, IgnoreFormat: ign, ForcePtr: ptr, Raw: raw})
						}
					}
				}
			}
		}
	}
	return out
}

func opt(o gen.Opts) string {
	s := o.String()
	if o.Raw {
		s += " raw"
	}
	if s == "" {
		return "defaults"
	}
	return strings.TrimSpace(s)
}

type named struct {
	name string
	v    any
}

// leaves are the schemas without subschemas.
var leaves = []named{
	{"str", str()}, {"date", str("format", "date")}, {"dateTime", str("format", "date-time")}, {"email", str("format", "email")},
	{"strRules", str("minLength", 1, "maxLength", 3, "pattern", "^a`b\"$")}, {"enum", str("enum", L{"a", "b c"})}, {"const", str("const", "k")},
	{"int", M{"type": "integer"}}, {"int32", M{"type": "integer", "format": "int32"}}, {"int64", M{"type": "integer", "format": "int64", "minimum": 1, "exclusiveMaximum": 9}},
	{"num", M{"type": "number"}}, {"float", M{"type": "number", "format": "float", "maximum": 1.5}}, {"double", M{"type": "number", "format": "double"}},
	{"bool", M{"type": "boolean"}}, {"any", M{}}, {"described", str("description", "a\nb */ `c` // d")}, {"obj0", M{"type": "object"}},
	{"goType", str("x-go-type", "big.Int", "x-go-type-import", M{"path": "math/big"})}, {"goTypeAs", M{"type": "object", "x-go-type": "cl.List", "x-go-type-import": M{"path": "container/list", "name": "cl"}}},
	{"goBuiltin", str("x-go-type", "uint8")}, {"goTime", str("x-go-type", "time.Duration", "x-go-type-import", M{"path": "time"})},
	{"nopay", str("x-omitempty", false)},
	{"refStr", ref("#/components/schemas/cstr")}, {"refDate", ref("#/components/schemas/cdate")}, {"refDateTime", ref("#/components/schemas/cdatetime")},
	{"refInt", ref("#/components/schemas/cint")}, {"refObj", ref("#/components/schemas/cobj")}, {"refArr", ref("#/components/schemas/carr")},
	{"refArrObj", ref("#/components/schemas/carrobj")}, {"refRef", ref("#/components/schemas/cref")}, {"refRec", ref("#/components/schemas/crec")},
	{"refAll", ref("#/components/schemas/call")}, {"refAny", ref("#/components/schemas/cany")}, {"refAdd", ref("#/components/schemas/cadd")},
	{"refGo", ref("#/components/schemas/cgo")}, {"refEmpty", ref("#/components/schemas/cempty")}, {"refProp", ref("#/components/schemas/cobj/properties/s")}, {"refItems", ref("#/components/schemas/carrobj/items")},
}

var schemas = M{
	"cstr": str("maxLength", 4), "cdate": str("format", "date"), "cdatetime": str("format", "date-time"), "cint": M{"type": "integer", "minimum": 1},
	"cobj": obj(M{"s": str(), "o": obj(M{"x": str()})}, "required", L{"s"}), "carr": M{"type": "array", "items": str()},
	"carrobj": M{"type": "array", "items": obj(M{"s": str()})}, "cref": ref("#/components/schemas/cobj"),
	"crec": obj(M{"next": ref("#/components/schemas/crec"), "l": M{"type": "array", "items": ref("#/components/schemas/crec")}}),
	"call": M{"allOf": L{ref("#/components/schemas/cobj"), obj(M{"own": str()}, "required", L{"own"})}},
	"cany": M{"anyOf": L{ref("#/components/schemas/cobj"), obj(M{"own": str()})}},
	"cadd": obj(M{"d": str()}, "additionalProperties", M{"type": "integer"}), "cgo": str("x-go-type", "big.Int", "x-go-type-import", M{"path": "math/big"}), "cempty": M{},
}

// forms put a schema in another.
var forms = []struct {
	name string
	in   func(s any) any
}{
	{"required", func(s any) any { return obj(M{"p": s}, "required", L{"p"}) }},
	{"optional", func(s any) any { return obj(M{"p": s}) }},
	{"items", func(s any) any { return M{"type": "array", "items": s} }},
	{"additional", func(s any) any { return obj(M{"d": str()}, "additionalProperties", s) }},
	{"onlyAdditional", func(s any) any { return M{"type": "object", "additionalProperties": s} }},
	{"allOf", func(s any) any { return M{"allOf": L{s, obj(M{"own": str()})}} }},
	{"anyOf", func(s any) any { return M{"anyOf": L{obj(M{"own": str()}), s}} }},
	{"oneOf", func(s any) any { return M{"type": "object", "oneOf": L{s, ref("#/components/schemas/cobj")}} }},
}

// places put a schema in a document.
var places = []struct {
	name string
	in   func(s any) (payload, headers any, comps M)
}{
	{"payload", func(s any) (any, any, M) { return s, nil, nil }},
	{"component", func(s any) (any, any, M) { return ref("#/components/schemas/subject"), nil, M{"subject": s} }},
	{"header", func(s any) (any, any, M) { return str(), obj(M{"hd": s}), nil }},
	{"headerRequired", func(s any) (any, any, M) { return str(), obj(M{"hd": s}, "required", L{"hd"}), nil }},
	{"headers", func(s any) (any, any, M) { return str(), s, nil }},
}

// need adds the components which a value refers to.
func need(all M, v any) {
	for _, n := range docs.Nodes(v) {
		r, ok := n.V.(string)
		if !ok || n.Path[len(n.Path)-1] != "$ref" {
			continue
		}
		k, ok := strings.CutPrefix(r, "#/components/schemas/")
		k, _, _ = strings.Cut(k, "/")
		if s := schemas[k]; ok && all[k] == nil && s != nil {
			all[k] = s
			need(all, s)
		}
	}
}

func document(version int, payload, headers any, comps M) M {
	msg := M{"payload": payload}
	if headers != nil {
		msg["headers"] = headers
	}
	all := M{}
	for k, v := range comps {
		all[k] = v
	}
	need(all, msg)
	need(all, comps)
	if version == 2 {
		return M{"asyncapi": "2.6.0", "info": M{"title": "T", "version": "1.0.0"},
			"channels":   M{"c": M{"publish": M{"message": msg}}, "d": M{"subscribe": M{"message": ref("#/components/messages/cm")}}},
			"components": M{"schemas": all, "messages": M{"cm": msg}}}
	}
	return M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"},
		"channels":   M{"c": M{"address": "c", "messages": M{"m": msg}}, "d": M{"address": "d", "messages": M{"cm": ref("#/components/messages/cm")}}},
		"operations": M{"o": M{"action": "send", "channel": ref("#/channels/c")}, "q": M{"action": "receive", "channel": ref("#/channels/d")}},
		"components": M{"schemas": all, "messages": M{"cm": msg}}}
}

func versions(e *enum.E, name string, f func(version int)) {
	for _, v := range []int{2, 3} {
		e.Section(fmt.Sprintf("%s v%d", name, v))
		f(v)
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		debug.SetGCPercent(400)
		all := options(e.Thorough)
		versions(e, "schemas", func(v int) {
			for _, place := range places {
				for _, l := range leaves {
					for _, o := range all {
						l, o, place := l, o, place
						e.Case(place.name+" "+l.name+" "+opt(o), func() ([]string, bool) {
							return must(document2(v, place.in, l.v), o)
						})
					}
				}
			}
		})
		versions(e, "schemas in schemas", func(v int) {
			for _, place := range places {
				for _, f := range forms {
					for _, l := range leaves {
						opts := options(false)
						if !e.Thorough && place.name != "payload" && place.name != "header" {
							opts = opts[:1]
						}
						for _, o := range opts {
							l, o, place, f := l, o, place, f
							e.Case(place.name+" "+f.name+" "+l.name+" "+opt(o), func() ([]string, bool) {
								return must(document2(v, place.in, f.in(docs.Copy(l.v))), o)
							})
						}
					}
				}
			}
		})
		versions(e, "schemas in schemas in schemas", func(v int) {
			for _, place := range places {
				if !e.Thorough && place.name != "payload" && place.name != "header" {
					continue
				}
				for _, f := range forms {
					for _, g := range forms {
						for _, l := range leaves {
							l, place, f, g := l, place, f, g
							e.Case(place.name+" "+g.name+" "+f.name+" "+l.name, func() ([]string, bool) {
								return must(document2(v, place.in, g.in(f.in(docs.Copy(l.v)))), gen.Opts{})
							})
						}
					}
				}
			}
		})
		versions(e, "parts", func(v int) { separately(e, v) })
		versions(e, "edits", func(v int) { edited(e, v) })
		e.Section("operations v3")
		operations3(e)
		e.Section("operations v2")
		operations2(e)
		versions(e, "names", func(v int) { names(e, v) })
	})
}

func document2(v int, in func(s any) (any, any, M), s any) M {
	p, h, c := in(s)
	return document(v, p, h, c)
}
