// P21: combined schemas generate the union of their parts.
package main

import (
	"fmt"
	"go/types"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// ---- what a document means

// world are the files of a document: the main one is "".
type world map[string]M

// node is a schema in a file.
type node struct {
	file string
	m    M
}

func (n node) id() string { return fmt.Sprint(reflect.ValueOf(n.m).Pointer()) }

// follow the references.
func (w world) follow(n node) node {
	for {
		r, ok := n.m["$ref"].(string)
		if !ok {
			return n
		}
		f, p, _ := strings.Cut(r, "#/")
		if f == "" {
			f = n.file
		}
		var v any = w[f]
		for _, k := range strings.Split(p, "/") {
			v = v.(M)[k]
		}
		n = node{f, v.(M)}
	}
}

var kinds = []string{"allOf", "anyOf", "oneOf"}

func composed(m M) bool { return m["allOf"] != nil || m["anyOf"] != nil || m["oneOf"] != nil }

// union of a schema: the candidates for each property, what is required, and the
// candidates for the additional properties.
type union struct {
	props    map[string][]node
	required map[string]bool
	extra    []node
}

func (w world) union(n node) union {
	n = w.follow(n)
	u := union{map[string][]node{}, map[string]bool{}, nil}
	add := func(v union, required bool) {
		for k, c := range v.props {
			u.props[k] = append(u.props[k], c...)
		}
		if required {
			for k := range v.required {
				u.required[k] = true
			}
		}
		u.extra = append(u.extra, v.extra...)
	}
	props, _ := n.m["properties"].(M)
	for k, p := range props {
		u.props[k] = []node{{n.file, p.(M)}}
	}
	required, _ := n.m["required"].(L)
	for _, k := range required {
		u.required[k.(string)] = true
	}
	if x, ok := n.m["additionalProperties"].(M); ok {
		u.extra = []node{{n.file, x}}
	}
	for _, k := range kinds {
		parts, _ := n.m[k].(L)
		for _, p := range parts {
			add(w.union(node{n.file, p.(M)}), k == "allOf")
		}
	}
	return u
}

// ---- what is generated

// is tells how a Go type is not the one of the schema, or "".
func (w world) is(t types.Type, n node, seen map[string]bool) string {
	n = w.follow(n)
	if seen[n.id()+t.String()] {
		return ""
	}
	seen[n.id()+t.String()] = true
	typ, _ := n.m["type"].(string)
	if composed(n.m) {
		typ = "object"
	}
	under := t.Underlying()
	switch typ {
	case "object":
		st, ok := under.(*types.Struct)
		if !ok {
			return "is not a structure, but " + t.String()
		}
		return w.isObject(st, w.union(n), seen)
	case "array":
		l, ok := under.(*types.Slice)
		if !ok {
			return "is not a list, but " + t.String()
		}
		if f := w.is(l.Elem(), node{n.file, n.m["items"].(M)}, seen); f != "" {
			return "items: " + f
		}
		return ""
	}
	want := map[string]string{"string": "string", "integer": "int64", "number": "float64", "boolean": "bool"}[typ]
	if under.String() != want {
		return "is not " + want + ", but " + t.String()
	}
	return ""
}

func (w world) isObject(st *types.Struct, u union, seen map[string]bool) string {
	got := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tags := reflect.StructTag(st.Tag(i))
		name, opts, _ := strings.Cut(tags.Get("json"), ",")
		if name == "-" {
			if len(u.extra) == 0 {
				return "has additional properties that are in no part"
			}
			m, ok := f.Type().Underlying().(*types.Map)
			if !ok {
				return "additional properties are not a map"
			}
			if f := w.oneOf(m.Elem(), u.extra, seen); f != "" {
				return "additional properties: " + f
			}
			got["-"] = true
			continue
		}
		if got[name] {
			return fmt.Sprintf("property %q is there twice", name)
		}
		got[name] = true
		c, ok := u.props[name]
		if !ok {
			return fmt.Sprintf("has a property %q that is in no part", name)
		}
		t, pointer := f.Type(), false
		if p, ok := t.(*types.Pointer); ok {
			t, pointer = p.Elem(), true
		}
		if x := w.oneOf(t, c, seen); x != "" {
			return fmt.Sprintf("property %q %s", name, x)
		}
		_, list := t.Underlying().(*types.Slice)
		if !list && pointer == u.required[name] || (opts == "omitempty") == u.required[name] {
			return fmt.Sprintf("property %q should be %s, is %s `%s`", name, map[bool]string{true: "required", false: "optional"}[u.required[name]], f.Type(), st.Tag(i))
		}
	}
	for k := range u.props {
		if !got[k] {
			return fmt.Sprintf("has no property %q", k)
		}
	}
	if len(u.extra) > 0 && !got["-"] {
		return "has no additional properties"
	}
	return ""
}

func (w world) oneOf(t types.Type, c []node, seen map[string]bool) string {
	var fails []string
	for _, n := range c {
		s := map[string]bool{}
		for k := range seen {
			s[k] = true
		}
		f := w.is(t, n, s)
		if f == "" {
			return ""
		}
		fails = append(fails, f)
	}
	return strings.Join(fails, ", and ")
}

// check generates the document and compares each type with what it stands for.
func (w world) check(o gen.Opts) (fails []string, ok bool) {
	deps := M{}
	for f, d := range w {
		if f != "" {
			deps[f] = d
		}
	}
	o.Deps = deps
	r := gen.Run(w[""], o)
	if f := r.Failed(); f != "" {
		return []string{f}, false
	}
	srcs := []string{r.Src}
	if w["other.json"] != nil {
		// the types of the other file, generated in the same package
		o.Deps, o.Parts = nil, "t"
		r := gen.Run(w["other.json"], o)
		if f := r.Failed(); f != "" {
			return []string{"other file: " + f}, false
		}
		srcs = append(srcs, gen.Without(r.Src, srcs[0]))
	}
	c, errs := gen.CheckAll(len(srcs) > 1, srcs...)
	if len(errs) > 0 {
		return []string{"does not compile: " + errs[0]}, false
	}
	for _, f := range []string{"", "other.json"} {
		if w[f] == nil {
			continue
		}
		schemas := w[f]["components"].(M)["schemas"].(M)
		for _, k := range docs.Keys(schemas) {
			t := c.Type(strings.ToUpper(k[:1]) + k[1:] + "Schema")
			if t == nil {
				fails = append(fails, "no type for the component "+k)
				continue
			}
			if x := w.is(t, node{f, schemas[k].(M)}, map[string]bool{}); x != "" {
				fails = append(fails, "the component "+k+" "+x)
			}
		}
	}
	for _, n := range c.Names() {
		t := c.Type(n)
		if t == nil || !strings.Contains(n, "MMessage") && !strings.Contains(n, "Message") {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if p := st.Field(i); p.Name() == "Payload" && st.Tag(i) == "" {
				m := w.message()
				if x := w.is(p.Type(), node{"", m["payload"].(M)}, map[string]bool{}); x != "" {
					fails = append(fails, "the payload "+x)
				}
			} else if p.Name() == "Headers" && st.Tag(i) == "" {
				if x := w.is(p.Type(), node{"", w.message()["headers"].(M)}, map[string]bool{}); x != "" {
					fails = append(fails, "the headers "+x)
				}
			}
		}
		ok = true
	}
	if len(fails) > 2 {
		fails = fails[:2]
	}
	return fails, true
}

func (w world) message() M {
	c := w[""]["channels"].(M)["c"].(M)
	if s, ok := c["subscribe"].(M); ok {
		return s["message"].(M)
	}
	return c["messages"].(M)["m"].(M)
}

// ---- documents

func schema(of M) M { return of }

// atoms are the parts.
func atoms(prefix string) map[string]func() M {
	return map[string]func() M{
		"a": func() M {
			return obj(M{"a": str(), "m": M{"type": "integer"}}, "required", L{"a"})
		},
		"b": func() M {
			return obj(M{"b": M{"type": "number"}, "n": obj(M{"x": str(), "k": M{"type": "boolean"}}, "required", L{"x"})}, "required", L{"b"})
		},
		"c": func() M {
			return obj(M{"a": M{"type": "integer"}, "l": M{"type": "array", "items": str()}}, "required", L{"l"})
		},
		"d": func() M {
			return obj(M{"n": obj(M{"z": str(), "k": obj(M{"w": str()})})}, "required", L{"n"})
		},
		"e": func() M {
			return obj(M{"s": ref("#/components/schemas/" + prefix + "shared"), "l": M{"type": "array", "items": obj(M{"q": str()}, "required", L{"q"})}})
		},
		"f": func() M {
			return obj(M{"f": str()}, "additionalProperties", M{"type": "integer"})
		},
		"g": func() M {
			return obj(M{"self": ref("#/components/schemas/" + prefix + "comp")}, "additionalProperties", obj(M{"t": str()}))
		},
		"h": func() M { return M{"type": "object", "required": L{"a", "n", "own"}} },
	}
}

// document with the composition at a place.
func document(version int, comp M, place string, schemas M, other M) world {
	payload, headers := any(ref("#/components/schemas/comp")), any(nil)
	in := ref("#/components/schemas/comp")
	switch place {
	case "component":
		schemas["comp"] = comp
	case "payload":
		payload = comp
	case "headers":
		headers = comp
	case "property":
		payload = obj(M{"p": comp, "r": in}, "required", L{"p"})
	case "items":
		payload = obj(M{"p": M{"type": "array", "items": comp}})
	case "additional":
		payload = obj(M{"r": in}, "additionalProperties", comp)
	case "component property":
		schemas["holder"] = obj(M{"p": comp})
		payload = ref("#/components/schemas/holder")
	}
	if schemas["comp"] == nil {
		schemas["comp"] = obj(M{"plain": str()})
	}
	m := M{"payload": payload}
	if headers != nil {
		m["headers"] = headers
	}
	doc := M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"}, "components": M{"schemas": schemas}}
	if version == 2 {
		doc["asyncapi"] = "2.6.0"
		doc["channels"] = M{"c": M{"subscribe": M{"message": m}}}
	} else {
		doc["channels"] = M{"c": M{"address": "c", "messages": M{"m": m}}}
		doc["operations"] = M{"o": M{"action": "send", "channel": ref("#/channels/c")}}
	}
	w := world{"": doc}
	if len(other) > 0 {
		o := M{"asyncapi": doc["asyncapi"], "info": doc["info"], "channels": M{}, "components": M{"schemas": other}}
		w["other.json"] = o
	}
	return w
}

var (
	places = []string{"component", "payload", "headers", "property", "items", "additional", "component property"}
	forms  = []string{"inline", "ref", "refref", "other", "nested allOf", "nested anyOf", "nested oneOf", "component allOf", "component anyOf", "untyped"}
)

// part in a form, where i is its position.
func part(i int, atom, form string, schemas, other M) M {
	prefix := ""
	if form == "other" {
		prefix = "o"
	}
	s := atoms(prefix)[atom]()
	n := fmt.Sprintf("part%d", i)
	kind, kd := form, ""
	if f, k, ok := strings.Cut(form, " "); ok {
		kind, kd = f, k
	}
	switch kind {
	case "inline":
		return s
	case "untyped":
		delete(s, "type")
		return s
	case "ref":
		schemas[n] = s
		return ref("#/components/schemas/" + n)
	case "refref":
		schemas[n] = s
		schemas[n+"ref"] = ref("#/components/schemas/" + n)
		return ref("#/components/schemas/" + n + "ref")
	case "other":
		if other["oshared"] == nil {
			other["oshared"] = obj(M{"o": str()}, "required", L{"o"})
			other["ocomp"] = obj(M{"foreign": str()})
		}
		other["o"+n] = s
		return ref("other.json#/components/schemas/o" + n)
	case "nested":
		return M{kd: L{s, obj(M{fmt.Sprintf("w%d", i): str(), "v": obj(M{"v": str()})}, "required", L{fmt.Sprintf("w%d", i)})}}
	case "component":
		schemas[n] = s
		schemas[n+"c"] = M{"type": "object", kd: L{ref("#/components/schemas/" + n), obj(M{fmt.Sprintf("w%d", i): str()}, "required", L{fmt.Sprintf("w%d", i)})}}
		return ref("#/components/schemas/" + n + "c")
	}
	panic(form)
}

// own are what the composed schema has itself.
var own = map[string]func() M{
	"nothing":    func() M { return M{} },
	"type":       func() M { return M{"type": "object"} },
	"property":   func() M { return obj(M{"own": str(), "o": obj(M{"i": str()})}, "required", L{"own"}) },
	"same":       func() M { return obj(M{"a": M{"type": "boolean"}, "n": obj(M{"mine": str()})}) },
	"required":   func() M { return M{"type": "object", "required": L{"m", "n"}} },
	"additional": func() M { return M{"type": "object", "additionalProperties": str()} },
}

func ownKeys() (ks []string) {
	for k := range own {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func atomKeys() (ks []string) {
	for k := range atoms("") {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type pt struct{ atom, form string }

func one(e *enum.E, v int, kind string, parts []pt, o, place string, opts gen.Opts) {
	name := fmt.Sprintf("v%d %s of %v, own %s, as %s%s", v, kind, parts, o, place, opts)
	e.Case(name, func() ([]string, bool) {
		schemas, other := M{"shared": obj(M{"sh": str(), "n": obj(M{"nn": str()})}, "required", L{"sh"})}, M{}
		comp := own[o]()
		var l L
		for i, p := range parts {
			l = append(l, part(i, p.atom, p.form, schemas, other))
		}
		comp[kind] = l
		return document(v, comp, place, schemas, other).check(opts)
	})
}

// mixed compositions: one part of each of two or three kinds.
func mixed(e *enum.E, v int) {
	ks := atomKeys()
	for i, a := range ks {
		for j, b := range ks {
			for x, k1 := range kinds {
				for y, k2 := range kinds {
					if x == y {
						continue
					}
					for n, f := range forms {
						if !e.Thorough && (i+j+n)%2 != 0 {
							continue
						}
						a, b, k1, k2, f, o, place := a, b, k1, k2, f, ownKeys()[(i+j+n)%len(own)], places[(i+x+n)%len(places)]
						e.Case(fmt.Sprintf("v%d %s of %s (%s) and %s of %s, own %s, as %s", v, k1, a, f, k2, b, o, place), func() ([]string, bool) {
							schemas, other := M{"shared": obj(M{"sh": str()})}, M{}
							comp := own[o]()
							comp[k1] = L{part(0, a, f, schemas, other)}
							comp[k2] = L{part(1, b, "inline", schemas, other), obj(M{"last": str()}, "required", L{"last"})}
							return document(v, comp, place, schemas, other).check(gen.Opts{})
						})
					}
				}
			}
		}
	}
}

// graphs of three components, combined with each other (without cycle) and having
// each other as properties (with cycles), processed in different orders.
func graphs(e *enum.E, v int) {
	var refs [][]int
	for i := 0; i < 9; i++ {
		refs = append(refs, []int{i})
		for j := 0; j < i; j++ {
			refs = append(refs, []int{j, i})
			if e.Thorough {
				for k := 0; k < j; k++ {
					refs = append(refs, []int{k, j, i})
				}
			}
		}
	}
	for _, kind := range kinds {
		for comps := 1; comps < 8; comps++ {
			for _, rs := range refs {
				for form := 0; form < 3; form++ {
					for order := 0; order < 6; order++ {
						kind, comps, rs, form, order := kind, comps, rs, form, order
						e.Case(fmt.Sprintf("v%d %s, combined %03b, properties %v, form %d, order %d", v, kind, comps, rs, form, order), func() ([]string, bool) {
							names := []string{"s0", "s1", "s2"}
							if order >= 3 {
								names = []string{"s2", "s1", "s0"}
							}
							to := func(i int) M { return ref("#/components/schemas/" + names[i]) }
							ss := []M{}
							for i := 0; i < 3; i++ {
								ss = append(ss, obj(M{fmt.Sprintf("p%d", i): str()}, "required", L{fmt.Sprintf("p%d", i)}))
							}
							for _, r := range rs {
								var p any = to(r % 3)
								switch form {
								case 1: // in a list of inline objects
									p = M{"type": "array", "items": obj(M{"in": p})}
								case 2: // combined with something else
									p = M{kind: L{p, obj(M{"with": str()})}}
								}
								ss[r/3]["properties"].(M)[fmt.Sprintf("r%d", r%3)] = p
							}
							for b, edge := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
								if comps>>b&1 == 1 {
									l, _ := ss[edge[0]][kind].(L)
									ss[edge[0]][kind] = append(l, to(edge[1]))
								}
							}
							schemas := M{}
							for i, s := range ss {
								schemas[names[i]] = s
							}
							runtime.VerifMapRand = func(uint64) uint64 { return uint64(order % 3) }
							defer func() { runtime.VerifMapRand = func(uint64) uint64 { return 0 } }()
							w := document(v, obj(M{"x": to(order % 3)}), "payload", schemas, nil)
							return w.check(gen.Opts{})
						})
					}
				}
			}
		}
	}
}

func main() {
	runtime.VerifFixedSeed = true
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		debug.SetGCPercent(400)
		for _, v := range []int{2, 3} {
			e.Section(fmt.Sprintf("one part v%d", v))
			for _, kind := range kinds {
				for _, a := range atomKeys() {
					for _, f := range forms {
						for _, o := range ownKeys() {
							for _, p := range places {
								one(e, v, kind, []pt{{a, f}}, o, p, gen.Opts{})
							}
						}
					}
				}
			}
			e.Section(fmt.Sprintf("two parts v%d", v))
			for _, kind := range kinds {
				for _, a := range atomKeys() {
					for _, b := range atomKeys() {
						for i, f := range forms {
							for j, g := range forms {
								if !e.Thorough && (i+j)%3 != 0 {
									continue
								}
								for k, o := range ownKeys() {
									if !e.Thorough && (i+k)%3 != 0 {
										continue
									}
									p := places[(i+j+k)%len(places)]
									one(e, v, kind, []pt{{a, f}, {b, g}}, o, p, gen.Opts{})
								}
							}
						}
					}
				}
			}
			e.Section(fmt.Sprintf("three parts v%d", v))
			for i, kind := range kinds {
				for x, a := range atomKeys() {
					for y, b := range atomKeys() {
						for z, c := range atomKeys() {
							for f := 0; f < 8; f++ {
								if !e.Thorough && f != 7 && f != (x+y+z)%7 {
									continue
								}
								form := func(j int) string { return []string{"inline", "ref", "untyped", "component allOf"}[f>>j&1+2*((x+i)%2)] }
								one(e, v, kind, []pt{{a, form(0)}, {b, form(1)}, {c, form(2)}}, ownKeys()[(x+y+f)%len(own)], places[(x+z+f)%len(places)], gen.Opts{})
							}
						}
					}
				}
			}
			e.Section(fmt.Sprintf("several kinds v%d", v))
			mixed(e, v)
			e.Section(fmt.Sprintf("graphs v%d", v))
			graphs(e, v)
		}
	})
}
