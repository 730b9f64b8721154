// P22: traits complete messages and operations without overriding them.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// ---- what the processed document says

func process(doc M) (s *asyncapiv3.Specification, fail string) {
	defer func() {
		if p := recover(); p != nil {
			s, fail = nil, fmt.Sprint("panic: ", p)
		}
	}()
	b, _ := json.Marshal(doc)
	spec, err := parser.FromJSON(parser.FromJSONParams{Data: b})
	if err != nil {
		return nil, "error: " + err.Error()
	}
	if err := spec.Process(); err != nil {
		return nil, "error: " + err.Error()
	}
	return spec.(*asyncapiv3.Specification), ""
}

// dump writes everything that can be reached from a value, where what is known already
// is named by its position.
func dump(v any) string {
	var b strings.Builder
	seen := map[uintptr]int{}
	var w func(v reflect.Value)
	w = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&b, "^%d", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			w(v.Elem())
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && !v.Field(i).IsZero() {
					b.WriteString(f.Name + ":")
					w(v.Field(i))
					b.WriteString(" ")
				}
			}
			b.WriteString("}")
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				w(v.Index(i))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Map:
			b.WriteString("map[")
			m := map[string]any{}
			for _, k := range v.MapKeys() {
				m[k.String()] = nil
			}
			for _, k := range docs.Keys(m) {
				b.WriteString(k + ":")
				w(v.MapIndex(reflect.ValueOf(k)))
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			w(v.Elem())
		default:
			fmt.Fprintf(&b, "%#v", v.Interface())
		}
	}
	w(reflect.ValueOf(v))
	return b.String()
}

// ---- what is expected

// fields that are taken from the first that has them.
var (
	messageFields   = []string{"title", "summary", "description", "contentType", "externalDocs", "correlationId", "tags", "examples", "bindings", "headers", "payload"}
	operationFields = []string{"title", "summary", "description", "security", "tags", "externalDocs", "bindings"}
)

// value of a field by the one who defines it.
func value(field, who string, operation bool) any {
	switch field {
	case "externalDocs":
		return M{"url": "http://x/" + who}
	case "correlationId":
		return M{"location": "$message.header#/cid" + who}
	case "tags":
		return L{M{"name": "common", "description": who}, M{"name": "of" + who, "description": who}, ref("#/components/tags/x"), ref("#/components/tags/" + map[string]string{"m": "y", "t1": "y", "t2": "x"}[who])}
	case "security":
		return L{M{"type": "http", "scheme": "common", "description": who}, M{"type": "apiKey", "name": "of" + who, "description": who}}
	case "examples":
		return L{M{"name": "e", "summary": who}}
	case "bindings":
		if operation {
			return ref("#/components/operationBindings/" + who)
		}
		return ref("#/components/messageBindings/" + who)
	case "headers":
		return obj(M{"h": str("description", who), "h" + who: str(), "cidm": str(), "cidt1": str(), "cidt2": str()}, "required", L{"h" + who})
	case "payload":
		return obj(M{"p": str("description", who), "p" + who: str()}, "required", L{"p" + who})
	}
	return who + " " + field
}

// got is the value of a field of what is processed, in a comparable form.
func got(v reflect.Value, field string) string {
	name := map[string]string{"title": "Title", "summary": "Summary", "description": "Description", "contentType": "ContentType", "externalDocs": "ExternalDocs", "correlationId": "CorrelationID",
		"tags": "Tags", "examples": "Examples", "bindings": "Bindings", "headers": "Headers", "payload": "Payload", "security": "Security"}[field]
	switch x := v.FieldByName(name).Interface().(type) {
	case string:
		return x
	case *asyncapiv3.ExternalDocumentation:
		if x != nil && x.ReferenceTo != nil {
			x = x.ReferenceTo
		}
		if x != nil {
			return x.URL
		}
	case *asyncapiv3.CorrelationID:
		if x != nil {
			return x.Follow().Location
		}
	case []*asyncapiv3.Tag:
		var s []string
		for _, t := range x {
			if t.ReferenceTo != nil {
				t = t.ReferenceTo
			}
			s = append(s, t.Name+" "+t.Description)
		}
		return strings.Join(s, ", ")
	case []*asyncapiv3.SecurityScheme:
		var s []string
		for _, t := range x {
			s = append(s, t.Description)
		}
		return strings.Join(s, ", ")
	case []*asyncapiv3.MessageExample:
		var s []string
		for _, t := range x {
			s = append(s, t.Summary)
		}
		return strings.Join(s, ", ")
	case *asyncapiv3.MessageBindings:
		if x != nil {
			return x.Reference
		}
	case *asyncapiv3.OperationBindings:
		if x != nil {
			return x.Reference
		}
	case *asyncapiv3.Schema:
		if x != nil {
			x = x.Follow()
			m := map[string]any{}
			for k := range x.Properties {
				m[k] = nil
			}
			var s []string
			for _, k := range docs.Keys(m) {
				s = append(s, k+" "+x.Properties[k].Description)
				if x.IsFieldRequired(k) {
					s[len(s)-1] += "!"
				}
			}
			return strings.Join(s, ", ")
		}
	}
	return ""
}

// want is the same, of the message or operation and its traits in order.
func want(field string, defs []M) string {
	var has []M
	for _, d := range defs {
		if _, ok := d[field]; ok {
			has = append(has, d)
		}
	}
	if len(has) == 0 {
		return ""
	}
	switch field {
	case "tags":
		var s []string
		known := map[any]bool{}
		for _, d := range has {
			for _, t := range d[field].(L) {
				n, desc := t.(M)["name"], t.(M)["description"]
				if r, ok := t.(M)["$ref"].(string); ok {
					n, desc = r[len(r)-1:], r[len(r)-1:]
				}
				if !known[n] {
					known[n] = true
					s = append(s, fmt.Sprint(n, " ", desc))
				}
			}
		}
		return strings.Join(s, ", ")
	case "security":
		// no scheme is lost: they have no identity besides what they are
		var s []string
		for _, d := range has {
			for _, t := range d[field].(L) {
				s = append(s, fmt.Sprint(t.(M)["description"]))
			}
		}
		return strings.Join(s, ", ")
	case "examples":
		var s []string
		for _, d := range has {
			for _, t := range d[field].(L) {
				s = append(s, fmt.Sprint(t.(M)["summary"]))
			}
		}
		return strings.Join(s, ", ")
	case "headers", "payload":
		m, req := M{}, M{}
		for _, d := range has {
			for k, p := range d[field].(M)["properties"].(M) {
				if _, ok := m[k]; !ok {
					desc, _ := p.(M)["description"].(string)
					m[k] = desc
				}
			}
			l, _ := d[field].(M)["required"].(L)
			for _, k := range l {
				req[k.(string)] = true
			}
		}
		var s []string
		for _, k := range docs.Keys(m) {
			x := k + " " + m[k].(string)
			if req[k] != nil {
				x += "!"
			}
			s = append(s, x)
		}
		return strings.Join(s, ", ")
	}
	switch x := has[0][field].(type) {
	case M:
		if r, ok := x["$ref"].(string); ok && field == "externalDocs" {
			return "http://x/" + r[strings.LastIndex(r, "/")+1:]
		} else if ok && field == "correlationId" {
			return "$message.header#/cid" + r[strings.LastIndex(r, "/")+1:]
		}
		for _, k := range []string{"url", "location", "$ref"} {
			if u, ok := x[k]; ok {
				return u.(string)
			}
		}
	case string:
		return x
	}
	panic(field)
}

// ---- documents

// form of the traits.
var forms = []string{"inline", "component", "component, by reference", byReference}

// byReference are inline traits whose fields, and the ones of the message or operation, are references.
const byReference = "inline, of references"

// given is the value of a field, by reference or not.
func given(field, who, form string, operation bool) any {
	if form == byReference && (field == "externalDocs" || field == "correlationId") {
		return ref("#/components/" + strings.TrimSuffix(field, "Id") + map[string]string{"correlationId": "Ids"}[field] + "/" + who)
	}
	return value(field, who, operation)
}

type user struct {
	def    M // without its traits
	traits []int
}

// document with users of traits: the first is a component, the second is in the channel (messages).
func document(operations bool, users []user, traits []M, form string) M {
	comps := M{"messageBindings": M{"m": M{}, "t1": M{}, "t2": M{}}, "operationBindings": M{"m": M{}, "t1": M{}, "t2": M{}}, "tags": M{"x": M{"name": "x", "description": "x"}, "y": M{"name": "y", "description": "y"}}}
	docsOf, ids := M{}, M{}
	for _, who := range []string{"m", "t1", "t2"} {
		docsOf[who], ids[who] = value("externalDocs", who, operations), value("correlationId", who, operations)
	}
	comps["externalDocs"], comps["correlationIds"] = docsOf, ids
	section := "messageTraits"
	if operations {
		section = "operationTraits"
	}
	ts := M{}
	if form != "inline" && form != byReference {
		for i, t := range traits {
			ts[fmt.Sprintf("t%d", i+1)] = t
			ts[fmt.Sprintf("r%d", i+1)] = ref(fmt.Sprintf("#/components/%s/t%d", section, i+1))
		}
		comps[section] = ts
	}
	use := func(u user) M {
		m := docs.Copy(u.def).(M)
		var l L
		for _, t := range u.traits {
			switch form {
			case "inline", byReference:
				l = append(l, docs.Copy(traits[t]))
			case "component":
				l = append(l, ref(fmt.Sprintf("#/components/%s/t%d", section, t+1)))
			default:
				l = append(l, ref(fmt.Sprintf("#/components/%s/r%d", section, t+1)))
			}
		}
		if l != nil {
			m["traits"] = l
		}
		return m
	}
	doc := M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"}, "components": comps}
	msgs, ops := M{"plain": M{"payload": str()}}, M{}
	if operations {
		for i, u := range users {
			ops[fmt.Sprintf("o%d", i)] = docs.With(use(u), "action", "send", "channel", ref("#/channels/c"))
		}
	} else {
		for i, u := range users {
			if i == 0 {
				comps["messages"] = M{"u0": use(u)}
				msgs["u0"] = ref("#/components/messages/u0")
			} else {
				msgs[fmt.Sprintf("u%d", i)] = use(u)
			}
		}
		ops["o"] = M{"action": "send", "channel": ref("#/channels/c"), "messages": L{ref("#/channels/c/messages/plain")}}
	}
	doc["channels"], doc["operations"] = M{"c": M{"address": "c", "messages": msgs}}, ops
	return doc
}

func used(s *asyncapiv3.Specification, operations bool, i int) reflect.Value {
	if operations {
		return reflect.ValueOf(*s.Operations[fmt.Sprintf("o%d", i)])
	}
	return reflect.ValueOf(*s.Channels["c"].Messages[fmt.Sprintf("u%d", i)].Follow())
}

func traitsOf(s *asyncapiv3.Specification, operations bool) string {
	if operations {
		return dump(s.Components.OperationTraits)
	}
	return dump(s.Components.MessageTraits)
}

func check(operations bool, users []user, traits []M, form string) (fails []string, nt bool) {
	doc := document(operations, users, traits, form)
	s, f := process(doc)
	if f != "" {
		return []string{f}, false
	}
	fields := messageFields
	if operations {
		fields = operationFields
	}
	for i, u := range users {
		defs := []M{u.def}
		for _, t := range u.traits {
			defs = append(defs, traits[t])
		}
		for _, field := range fields {
			if g, w := got(used(s, operations, i), field), want(field, defs); g != w {
				fails = append(fails, fmt.Sprintf("%s of user %d is %q, should be %q", field, i, g, w))
			}
		}
	}
	if form != "inline" && form != byReference {
		none, f := process(document(operations, []user{{M{"payload": str()}, nil}}, traits, form))
		if f != "" {
			return append(fails, "without users: "+f), true
		}
		if a, b := traitsOf(s, operations), traitsOf(none, operations); a != b {
			fails = append(fails, "the traits are not as when nothing uses them: "+diff(a, b))
		}
	}
	return fails, true
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		from, to := i-40, i+60
		if from < 0 {
			from = 0
		}
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return fmt.Sprintf("%q, not %q", cut(a), cut(b))
}

// fields enumerates who defines each of two fields.
func fields(e *enum.E, operations bool) {
	all := messageFields
	if operations {
		all = operationFields
	}
	for i, f := range all {
		for j := 0; j < i; j++ {
			g := all[j]
			for bits := 0; bits < 64; bits++ {
				for _, form := range forms {
					for _, order := range [][]int{{0, 1}, {1, 0}} {
						f, bits, form, order := f, bits, form, order
						e.Case(fmt.Sprintf("%s defined by %03b, %s by %03b, traits %v %s", f, bits&7, g, bits>>3, order, form), func() ([]string, bool) {
							at := func(n int, who string, other bool) M {
								m := M{}
								if !operations && who == "m" {
									m["payload"] = obj(M{"own": str()})
								}
								b := bits
								if other {
									b = 63 - bits
								}
								if b>>n&1 == 1 {
									m[f] = given(f, who, form, operations)
								}
								if b>>(n+3)&1 == 1 {
									m[g] = given(g, who, form, operations)
								}
								// what correlation IDs need
								if m["correlationId"] != nil && m["headers"] == nil {
									m["headers"] = obj(M{"cid" + who: str()})
								}
								return m
							}
							ts := []M{at(1, "t1", false), at(2, "t2", false)}
							users := []user{{at(0, "m", false), order}, {at(0, "m", true), order}, {at(0, "m", true), order[:1]}}
							return check(operations, users, ts, form)
						})
					}
				}
			}
		}
	}
}

// ---- types

// shapes of headers and payloads, where p is the prefix of the components.
var shapes = []struct {
	name string
	of   func(p string) M
}{
	{"none", nil},
	{"a", func(p string) M {
		return obj(M{"h": str(), "o": obj(M{"x": str(), "n": obj(M{"d": str()})}, "required", L{"x"}), "m": str()}, "required", L{"h"})
	}},
	{"b", func(p string) M {
		return obj(M{"h": M{"type": "integer"}, "k": str(), "l": M{"type": "array", "items": obj(M{"q": str()})}}, "required", L{"k"})
	}},
	{"c", func(p string) M {
		return obj(M{"k": ref("#/components/schemas/" + p + "shared"), "o": obj(M{"z": M{"type": "boolean"}})}, "additionalProperties", obj(M{"t": str()}))
	}},
	{"ref", func(p string) M { return ref("#/components/schemas/" + p + "whole") }},
	{"ref to ref", func(p string) M { return ref("#/components/schemas/" + p + "again") }},
	{"combined", func(p string) M {
		return M{"allOf": L{ref("#/components/schemas/" + p + "whole"), obj(M{"in": str(), "o": obj(M{"y": str()})}, "required", L{"in"})}}
	}},
	{"required only", func(p string) M { return M{"type": "object", "required": L{"h", "l", "w"}} }},
	{"string", func(p string) M { return str() }},
}

func components(p string) M {
	return M{
		p + "shared": obj(M{"s": str(), "r": ref("#/components/schemas/" + p + "whole")}, "required", L{"s"}),
		p + "whole":  obj(M{"w": str(), "o": obj(M{"v": str()}), "sh": ref("#/components/schemas/" + p + "shared"), "h": M{"type": "number"}}, "required", L{"w", "sh"}),
		p + "again":  ref("#/components/schemas/" + p + "whole"),
	}
}

// flat is an object without reference nor combination, as seen from the main file.
func flat(m M, file string, comps M) M {
	if r, ok := m["$ref"].(string); ok {
		return flat(comps[r[strings.LastIndex(r, "/")+1:]].(M), file, comps)
	}
	out := M{"type": m["type"]}
	props := M{}
	if ps, ok := m["properties"].(M); ok {
		for k, p := range ps {
			props[k] = from(p, file)
		}
	}
	req, _ := m["required"].(L)
	if x, ok := m["additionalProperties"]; ok {
		out["additionalProperties"] = from(x, file)
	}
	parts, _ := m["allOf"].(L)
	for _, p := range parts {
		out["type"] = "object"
		f := flat(p.(M), file, comps)
		for k, p := range f["properties"].(M) {
			if props[k] == nil {
				props[k] = p
			}
		}
		r, _ := f["required"].(L)
		req = append(append(L{}, req...), r...)
	}
	out["properties"] = props
	if req != nil {
		out["required"] = req
	}
	return out
}

// from rewrites the references of another file.
func from(v any, file string) any {
	if file == "" {
		return v
	}
	switch u := v.(type) {
	case M:
		m := M{}
		for k, x := range u {
			if r, ok := x.(string); ok && k == "$ref" {
				m[k] = file + r
			} else {
				m[k] = from(x, file)
			}
		}
		return m
	case L:
		l := L{}
		for _, x := range u {
			l = append(l, from(x, file))
		}
		return l
	}
	return v
}

type def struct {
	shape int
	file  string
}

func (d def) prefix() string {
	if d.file != "" {
		return "o"
	}
	return ""
}

// expanded is what the schema of a message becomes.
func expanded(comps M, defs []def) any {
	var has []def
	for _, d := range defs {
		if shapes[d.shape].of != nil {
			has = append(has, d)
		}
	}
	if len(has) == 0 {
		return nil
	}
	first := shapes[has[0].shape].of(has[0].prefix())
	if len(has) == 1 || first["type"] == "string" {
		return from(first, has[0].file)
	}
	var parts L
	out := M{"type": "object"}
	props, req := M{}, L{}
	for _, d := range has {
		f := flat(shapes[d.shape].of(d.prefix()), d.file, comps)
		if f["type"] == "string" {
			continue // nothing to add
		}
		for k, p := range f["properties"].(M) {
			if props[k] == nil {
				props[k] = p
			}
		}
		r, _ := f["required"].(L)
		req = append(req, r...)
		if x, ok := f["additionalProperties"]; ok && out["additionalProperties"] == nil {
			out["additionalProperties"] = x
		}
	}
	_ = parts
	out["properties"] = props
	if len(req) > 0 {
		out["required"] = req
	}
	return out
}

var traitForms = []string{"inline", "component", "component, by reference", "other file"}

// types compares the types of two messages that share traits, in a field, with the ones
// of the same document without traits.
func typesOf(e *enum.E, field string) {
	for m := range shapes {
		for t1 := range shapes {
			for t2 := range shapes {
				if field == "headers" && (shapes[m].name == "string" || shapes[t1].name == "string" || shapes[t2].name == "string") {
					continue
				}
				for fi, form := range traitForms {
					if !e.Thorough && (m+t1+t2+fi)%2 == 1 {
						continue
					}
					m, t1, t2, form := m, t1, t2, form
					e.Case(fmt.Sprintf("%s %s, traits %s and %s, %s", field, shapes[m].name, shapes[t1].name, shapes[t2].name, form), func() ([]string, bool) {
						file := ""
						if form == "other file" {
							file = "other.json"
						}
						ts := []def{{t1, file}, {t2, file}}
						comps := components("")
						for k, v := range components("o") {
							comps[k] = v
						}
						schemaOf := func(d def) M {
							x := M{}
							if of := shapes[d.shape].of; of != nil {
								x[field] = of(d.prefix())
							}
							return x
						}
						message := func(shape int) M {
							x := schemaOf(def{shape, ""})
							if field == "headers" {
								x["payload"] = obj(M{"own": str()})
							}
							return x
						}
						users := []user{{message(m), []int{0, 1}}, {message((m + 1) % (len(shapes) - 1)), []int{1, 0}}}
						sh := []int{m, (m + 1) % (len(shapes) - 1)}
						var traits []M
						for _, t := range ts {
							traits = append(traits, schemaOf(t))
						}
						var want []user
						for i, u := range users {
							x := message(sh[i])
							if s := expanded(comps, []def{{sh[i], ""}, ts[u.traits[0]], ts[u.traits[1]]}); s != nil {
								x[field] = s
							}
							want = append(want, user{x, nil})
						}
						other := M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"}, "channels": M{}, "components": M{"schemas": components("o")}}
						if file != "" {
							other["components"].(M)["messageTraits"] = M{"t1": traits[0], "t2": traits[1]}
						}
						run := func(us []user, form string) (map[string]string, []string) {
							f := form
							if form == "other file" {
								f = "component"
							}
							d := document(false, us, traits, f)
							if form == "other file" {
								b := strings.ReplaceAll(docs.JSON(d), `"#/components/messageTraits/`, `"other.json#/components/messageTraits/`)
								d = M{}
								if err := json.Unmarshal([]byte(b), &d); err != nil {
									panic(err)
								}
								delete(d["components"].(M), "messageTraits")
							}
							d["components"].(M)["schemas"] = components("")
							r := gen.Run(d, gen.Opts{Raw: true, Deps: M{"other.json": other}})
							if x := r.Failed(); x != "" {
								return nil, []string{x}
							}
							o := gen.Run(other, gen.Opts{Raw: true, Parts: "t"})
							if x := o.Failed(); x != "" {
								return nil, []string{"other file: " + x}
							}
							c, errs := gen.CheckAll(true, r.Src, gen.Without(o.Src, r.Src))
							if len(errs) > 0 {
								return nil, []string{"does not compile: " + errs[0]}
							}
							out := map[string]string{}
							for _, n := range []string{"U0Message", "U1MessageFromCChannel", "WholeSchema", "SharedSchema", "OwholeSchema", "OsharedSchema"} {
								t := c.Type(n)
								if t == nil {
									return nil, []string{"no type " + n}
								}
								out[n] = c.Shape(t)
							}
							return out, nil
						}
						w, f := run(want, "inline")
						if _, f2 := run(users, form); f != nil && f2 != nil && (shapes[m].of == nil || shapes[sh[1]].of == nil) && shapes[t1].of == nil && shapes[t2].of == nil {
							return nil, false // a message without payload is not accepted
						}
						if f != nil {
							return []string{"without traits: " + f[0]}, false
						}
						g, f := run(users, form)
						if f != nil {
							// neither is a message without payload accepted
							return f, false
						}
						var fails []string
						for _, n := range []string{"U0Message", "U1MessageFromCChannel", "WholeSchema", "SharedSchema", "OwholeSchema", "OsharedSchema"} {
							if g[n] != w[n] {
								fails = append(fails, n+" is not as without traits: "+diff(g[n], w[n]))
							}
						}
						return fails, true
					})
				}
			}
		}
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		debug.SetGCPercent(400)
		e.Section("fields of messages")
		fields(e, false)
		e.Section("fields of operations")
		fields(e, true)
		e.Section("types of headers")
		typesOf(e, "headers")
		e.Section("types of payloads")
		typesOf(e, "payload")
	})
}
