// P20: references resolve to the object they name, or generation reports an error.
package main

import (
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"

	v2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
	v3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"

	templateutil "github.com/lerenn/asyncapi-codegen/pkg/utils/template"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

// where the objects of a kind are in the components
var kinds = map[string]string{
	"Schema": "schemas", "Message": "messages", "Channel": "channels", "Operation": "operations", "Parameter": "parameters",
	"CorrelationID": "correlationIds", "OperationReply": "replies", "OperationReplyAddress": "replyAddresses",
	"ExternalDocumentation": "externalDocs", "Tag": "tags", "MessageTrait": "messageTraits", "OperationTrait": "operationTraits",
	"ServerBindings": "serverBindings", "ChannelBindings": "channelBindings", "OperationBindings": "operationBindings", "MessageBindings": "messageBindings",
	"Server": "servers", "ServerVariable": "serverVariables", "SecurityScheme": "securitySchemes",
}

func pathString(p []any) string {
	var s strings.Builder
	for _, x := range p {
		fmt.Fprintf(&s, "/%v", x)
	}
	return s.String()
}

// a place of a document where a reference may be
type place struct {
	path []any
	kind string
	v    any
}

func (p place) String() string { return pathString(p.path) }

// places lists the objects of a document which can be references.
func places(doc M, spec any) []place {
	var out []place
	for _, n := range docs.Nodes(doc) {
		t := docs.TypeAt(reflect.TypeOf(spec), n.Path)
		if t == nil || t.Kind() != reflect.Struct || docs.Field(t, "$ref") == nil {
			continue
		}
		if _, ok := n.V.(M); !ok {
			continue
		}
		out = append(out, place{n.Path, t.Name(), n.V})
	}
	return out
}

type api struct {
	src             string
	shapes, methods map[string]string
}

var cache = map[string]*api{}

func apiOf(doc any, o gen.Opts, rename ...string) (*api, string) {
	r := gen.Run(doc, o)
	if f := r.Failed(); f != "" {
		return nil, f
	}
	for i := 0; i+1 < len(rename); i += 2 {
		r.Src = strings.ReplaceAll(r.Src, rename[i], rename[i+1])
	}
	if a, ok := cache[r.Src]; ok {
		return a, ""
	}
	c, errs := gen.Check(r.Src, o.Raw)
	if len(errs) > 0 {
		return nil, "does not compile: " + errs[0]
	}
	a := &api{src: gen.Code(r.Src)}
	c.PlainSlices = true
	a.shapes, a.methods = c.API()
	for n := range a.shapes {
		if strings.HasPrefix(n, "Z") { // made from what is added for the case
			delete(a.shapes, n)
		}
	}
	if len(cache) > 50 {
		cache = map[string]*api{}
	}
	cache[r.Src] = a
	return a, ""
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func diff(a, b map[string]string, common bool) []string {
	var fails []string
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if x, ok := b[k]; !ok {
			if !common {
				fails = append(fails, fmt.Sprintf("%s is missing", k))
			}
		} else if x != a[k] {
			fails = append(fails, fmt.Sprintf("%s is %s instead of %s", k, short(x), short(a[k])))
		}
	}
	if !common {
		for k := range b {
			if _, ok := a[k]; !ok {
				fails = append(fails, fmt.Sprintf("%s is new", k))
			}
		}
	}
	return fails
}

func diffLines(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) {
			return fmt.Sprintf("code ends before %q", la[i])
		}
		if la[i] != lb[i] {
			return fmt.Sprintf("code has %q instead of %q", lb[i], la[i])
		}
	}
	return fmt.Sprintf("code has %q more", lb[len(la)])
}

// compare tells how the code of a document with a reference differs from the one without.
func compare(kind string, inline, ref *api) []string {
	fails := diff(inline.methods, ref.methods, false)
	fails = append(fails, diff(inline.shapes, ref.shapes, true)...)
	if len(fails) == 0 && kind != "Schema" && kind != "Message" && kind != "Channel" && kind != "Operation" && inline.src != ref.src {
		fails = append(fails, diffLines(inline.src, ref.src))
	}
	return fails
}

type target struct {
	name string
	deps []string
	// in puts an object and gives the reference to it
	in func(doc M, deps map[string]any, kind string, v any) (ref string)
}

func put(doc M, section, name string, v any) {
	c := doc["components"].(M)
	m, ok := c[section].(M)
	if !ok {
		m = M{}
	}
	n := M{}
	for k, x := range m {
		n[k] = x
	}
	n[name] = v
	c[section] = n
}

func escape(name string) string {
	return strings.ReplaceAll(strings.ReplaceAll(name, "~", "~0"), "/", "~1")
}

func targets() []target {
	ts := []target{}
	for n := 1; n <= 4; n++ {
		n := n
		ts = append(ts, target{name: fmt.Sprintf("component, %d steps", n), in: func(doc M, deps map[string]any, kind string, v any) string {
			for i := n; i > 1; i-- {
				put(doc, kind, fmt.Sprintf("zmv%d", i), v)
				v = docs.Ref(fmt.Sprintf("#/components/%s/zmv%d", kind, i))
			}
			put(doc, kind, "zmv1", v)
			return "#/components/" + kind + "/zmv1"
		}})
	}
	for _, name := range []string{"zm/q", "zm~q", "zm q", "zmqé", "zm.q", "zm-q"} {
		name := name
		ts = append(ts, target{name: fmt.Sprintf("component named %q", name), in: func(doc M, deps map[string]any, kind string, v any) string {
			put(doc, kind, name, v)
			return "#/components/" + kind + "/" + escape(name)
		}})
	}
	for _, name := range []string{"zm q", "zmqé", "zm%q"} {
		name := name
		ts = append(ts, target{name: fmt.Sprintf("component named %q, percent-encoded", name), in: func(doc M, deps map[string]any, kind string, v any) string {
			put(doc, kind, name, v)
			return "#/components/" + kind + "/" + url.PathEscape(name)
		}})
	}
	for n := 0; n <= 2; n++ {
		for _, prefix := range []string{"", "./"} {
			n, prefix := n, prefix
			ts = append(ts, target{name: fmt.Sprintf("other file %q, %d steps there", prefix, n+1), deps: []string{"dep.json"}, in: func(doc M, deps map[string]any, kind string, v any) string {
				dep := deps["dep.json"].(M)
				for i := n; i > 0; i-- {
					put(dep, kind, fmt.Sprintf("zmv%d", i), v)
					v = docs.Ref(fmt.Sprintf("#/components/%s/zmv%d", kind, i))
				}
				put(dep, kind, "zmv", v)
				return prefix + "dep.json#/components/" + kind + "/zmv"
			}})
		}
	}
	ts = append(ts, target{name: "component, then other file", deps: []string{"dep.json"}, in: func(doc M, deps map[string]any, kind string, v any) string {
		put(deps["dep.json"].(M), kind, "zmv", v)
		put(doc, kind, "zmv1", docs.Ref("dep.json#/components/"+kind+"/zmv"))
		return "#/components/" + kind + "/zmv1"
	}})
	ts = append(ts, target{name: "other file, then a third", deps: []string{"dep.json", "third.json"}, in: func(doc M, deps map[string]any, kind string, v any) string {
		put(deps["third.json"].(M), kind, "zmv", v)
		put(deps["dep.json"].(M), kind, "zmv1", docs.Ref("third.json#/components/"+kind+"/zmv"))
		return "dep.json#/components/" + kind + "/zmv1"
	}})
	return ts
}

type doc struct {
	name  string
	doc   func() M
	empty any
}

func docsOf() []doc {
	return []doc{{"v3", docs.V3, v3.Specification{}}, {"v2", docs.V2, v2.Specification{}}}
}

func isRef(v any) bool {
	_, ok := v.(M)["$ref"]
	return ok
}

func copyDoc(m M) M {
	n := M{}
	for k, v := range m {
		n[k] = v
	}
	c := M{}
	for k, v := range m["components"].(M) {
		c[k] = v
	}
	n["components"] = c
	return n
}

// components of the kind itself are not moved: the component would be a reference to itself
func isComponent(path []any) bool { return len(path) == 3 && path[0] == "components" }

func moved(e *enum.E) {
	for _, d := range docsOf() {
		d := d
		base := d.doc()
		for _, t := range targets() {
			t := t
			e.Section(fmt.Sprintf("%s each object moved: %s", d.name, t.name))
			for _, p := range places(base, d.empty) {
				p := p
				kind := kinds[p.kind]
				if kind == "" || isRef(p.v) && len(t.deps) > 0 || through(base, p.path) {
					continue
				}
				// the types of the other files are not generated here: what is moved would need them
				if len(t.deps) > 0 && (p.kind == "Channel" || p.kind == "Schema" && completed(base, p.path)) {
					continue
				}
				e.Case(p.String(), func() (fails []string, nt bool) {
					inline := copyDoc(base)
					ref := copyDoc(base)
					deps := map[string]any{}
					for _, f := range t.deps {
						deps[f] = copyDoc(base)
					}
					r := t.in(ref, deps, kind, p.v)
					got := docs.Set(ref, p.path, docs.Ref(r))
					if kind == "schemas" || kind == "messages" {
						// the types of the other files are not generated: have them here too
						for _, f := range t.deps {
							for name, v := range deps[f].(M)["components"].(M)[kind].(M) {
								for _, here := range []M{inline, got.(M)} {
									if _, ok := here["components"].(M)[kind].(M)[name]; !ok {
										put(here, kind, name, p.v)
									}
								}
								_ = v
							}
						}
					}
					// the document without the reference holds the same components
					if len(t.deps) == 0 {
						t.in(inline, deps, kind, p.v)
					} else if t.name == "component, then other file" {
						put(inline, kind, "zmv1", p.v)
					}
					o := gen.Opts{Deps: deps, Raw: true}
					a, f := apiOf(inline, gen.Opts{Raw: true, Deps: deps})
					if f != "" {
						return []string{"without reference: " + f}, false
					}
					var rename []string
					if (p.kind == "Channel" || p.kind == "Operation") && len(p.path) == 2 {
						// they are named as what is referenced
						to := templateutil.Namify(p.path[1].(string))
						for i := 1; i < 5; i++ {
							rename = append(rename, fmt.Sprintf("Zmv%d", i), to)
						}
						rename = append(rename, templateutil.Namify(last(r)), to, "Zmv", to)
					}
					b, f := apiOf(got, o, rename...)
					if f != "" {
						return []string{f}, true
					}
					return compare(p.kind, a, b), true
				})
			}
		}
	}
}

// last name of a reference
func last(ref string) string {
	n, err := url.PathUnescape(ref[strings.LastIndex(ref, "/")+1:])
	if err != nil {
		n = ref[strings.LastIndex(ref, "/")+1:]
	}
	return strings.ReplaceAll(strings.ReplaceAll(n, "~1", "/"), "~0", "~")
}

// through tells whether a reference of the document goes through an object: it
// would not be found any more if the object was a reference.
func through(doc M, path []any) bool {
	for _, n := range docs.Nodes(doc) {
		if s, ok := n.V.(string); ok && n.Path[len(n.Path)-1] == "$ref" && strings.HasPrefix(s, "#"+pathString(path)+"/") {
			return true
		}
	}
	return false
}

// bad references
func bad(name string, kind string, all []string) []string {
	out := []string{"#", "#/", "#//", "/", "x", "##", "#x", "#/x", "#/components", "#/components/", "#/components/x", "#/components/x/y", "#/components//x",
		"#/components/" + kind, "#/components/" + kind + "/", "#/components/" + kind + "/none", "#/components/" + kind + "/none/x", "#/components/" + kind + "/none/x/y/z",
		"none.json#/components/" + kind + "/zmv", "#/components/" + kind + "/zself", "#/components/" + kind + "/zloop", "#/components/" + kind + "/%zz",
		"#/channels", "#/channels/none", "#/channels/none/messages", "#/channels/none/messages/x", "#/channels/one/messages/none", "#/channels/one/messages/none/payload",
		"#/channels/one/messages", "#/channels/one/parameters", "#/info", "#/info/title", "#/components/" + kind + "/zmv#", "dep.json", "dep.json#", "dep.json#/components/" + kind + "/none", "./dep.json#/components/" + kind + "/none",
		"#/components/schemas/leaf/none", "#/components/schemas/leaf/properties/none", "#/components/schemas/leaf/items", "#/components/schemas/comp/properties", "#/components/messages/msg/none",
		"#/components/messages/msg/payload/none", "#/components/schemas/all/allOf/7", "#/components/schemas/all/allOf/-1", "#/components/schemas/all/allOf/x", "#/components/schemas/all/allOf"}
	for _, k := range all {
		if k != kind {
			out = append(out, "#/components/"+k+"/zmv")
		}
	}
	return out
}

func kindsOf(name string) []string {
	var all []string
	for _, k := range kinds {
		if name == "v3" || k == "schemas" || k == "messages" || k == "parameters" {
			all = append(all, k)
		}
	}
	sort.Strings(all)
	return all
}

// an object of each kind
func some(kind string) M {
	switch kind {
	case "channels":
		return M{"address": "zmv", "messages": M{"zm": M{"payload": docs.Str()}}}
	case "operations":
		return M{"action": "send", "channel": docs.Ref("#/channels/two")}
	case "schemas":
		return docs.Obj(M{"zp": docs.Str()})
	case "messages":
		return M{"payload": docs.Str()}
	case "replies":
		return M{"channel": docs.Ref("#/channels/four")}
	case "replyAddresses", "correlationIds":
		return M{"location": "$message.header#/zmv"}
	}
	return M{"description": "zmv"}
}

func wrong(e *enum.E) {
	for _, d := range docsOf() {
		d := d
		base := d.doc()
		all := kindsOf(d.name)
		e.Section(d.name + " bad references")
		ps := places(base, d.empty)
		for _, k := range all {
			put(base, k, "zmv", some(k))
		}
		for _, p := range ps {
			p := p
			kind := kinds[p.kind]
			if kind == "" || through(base, p.path) {
				continue
			}
			for _, b := range bad(d.name, kind, all) {
				b := b
				e.Case(p.String()+" "+b, func() (fails []string, nt bool) {
					doc := copyDoc(base)
					switch {
					case strings.HasSuffix(b, "/zself"):
						put(doc, kind, "zself", docs.Ref(b))
					case strings.HasSuffix(b, "/zloop"):
						put(doc, kind, "zloop", docs.Ref("#/components/"+kind+"/zloop2"))
						put(doc, kind, "zloop2", docs.Ref(b))
					}
					o := gen.Opts{Raw: true}
					if strings.Contains(b, "dep.json") {
						o.Deps = map[string]any{"dep.json": copyDoc(d.doc())}
					}
					r := gen.Run(docs.Set(doc, p.path, docs.Ref(b)), o)
					switch {
					case r.Panic != "":
						return []string{"panic: " + r.Panic}, true
					case r.Err == nil:
						return []string{"no error"}, true
					case !strings.Contains(r.Err.Error(), b) && !strings.Contains(r.Err.Error(), fmt.Sprintf("%q", b)):
						if i := strings.Index(b, "#"); i < 0 || !strings.Contains(r.Err.Error(), b[i:]) && !strings.Contains(r.Err.Error(), "zself") && !strings.Contains(r.Err.Error(), "zloop") {
							return []string{"the error does not name it: " + r.Err.Error()}, true
						}
					}
					return nil, true
				})
			}
		}
	}
}

// every schema of the document, referenced by its path from another place
func nested(e *enum.E) {
	for _, d := range docsOf() {
		d := d
		base := d.doc()
		e.Section(d.name + " each schema and message referenced by its path")
		for _, p := range places(base, d.empty) {
			p := p
			if (p.kind != "Schema" && p.kind != "Message") || isRef(p.v) {
				continue
			}
			var path []string
			for _, x := range p.path {
				path = append(path, escape(fmt.Sprint(x)))
			}
			if !reachable(d.name, p.path) || completed(base, p.path) {
				continue
			}
			ref := "#/" + strings.Join(path, "/")
			for _, use := range []string{"property", "payload", "items", "message"} {
				use := use
				if (use == "message") != (p.kind == "Message") {
					continue
				}
				e.Case(ref+" as "+use, func() (fails []string, nt bool) {
					with := func(v any) any {
						doc := copyDoc(base)
						switch use {
						case "property":
							v = M{"payload": docs.Obj(M{"zp": v})}
						case "payload":
							v = M{"payload": v}
						case "items":
							v = M{"payload": docs.Obj(M{"zp": M{"type": "array", "items": v}})}
						}
						if d.name == "v3" {
							doc = docs.Set(doc, []any{"channels", "zch"}, M{"address": "z", "messages": M{"zm": v}}).(M)
							return docs.Set(doc, []any{"operations", "zop"}, M{"action": "send", "channel": docs.Ref("#/channels/zch")})
						}
						return docs.Set(doc, []any{"channels", "zch"}, M{"publish": M{"message": v}})
					}
					a, f := apiOf(with(p.v), gen.Opts{Raw: true})
					if f != "" {
						return []string{"without reference: " + f}, false
					}
					b, f := apiOf(with(docs.Ref(ref)), gen.Opts{Raw: true})
					if f != "" {
						return []string{f}, true
					}
					return compare(p.kind, a, b), true
				})
			}
		}
	}
}

// completed tells whether a schema is the headers or the payload of a message, completed by the
// traits or the correlation ID of this message: a copy of it elsewhere is not.
func completed(doc M, path []any) bool {
	if l := path[len(path)-1]; l != "headers" && l != "payload" {
		return false
	}
	for _, n := range docs.Nodes(doc) {
		if pathString(n.Path) == pathString(path[:len(path)-1]) {
			msg, ok := n.V.(M)
			return ok && (msg["traits"] != nil || msg["correlationId"] != nil || msg["correlationID"] != nil)
		}
	}
	return false
}

// reachable tells which paths references may have: those inside the components, and inside the
// messages of the channels in version 3.
func reachable(version string, path []any) bool {
	for _, x := range path {
		switch x {
		case "allOf", "anyOf", "oneOf", "not", "contains", "patternProperties", "propertyNames", "additionalItems", "traits", "messageTraits", "parameters":
			return false
		}
	}
	if path[0] == "components" {
		return path[1] == "schemas" || path[1] == "messages" || len(path) == 3
	}
	return version == "v3" && len(path) >= 4 && path[0] == "channels" && path[2] == "messages"
}

func main() {
	defer gen.Clean()
	enum.Main(func(e *enum.E) {
		nested(e)
		moved(e)
		wrong(e)
	})
}
