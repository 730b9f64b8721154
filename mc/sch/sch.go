// Package sch holds the messages for which code is generated, compiled and run.
package sch

import (
	"fmt"

	"verifmc/docs"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

// Msg is a message: there is a channel and an operation to send it.
type Msg struct {
	Label            string
	Payload, Headers any
	// Constrained is the schema of the property "p" of the payload, with its constraints.
	Constrained M
	// OneOf are the alternatives of the message
	OneOf L
	// Params and Address of the channel
	Address string
	Params  M
	Receive bool // the application receives it
	// Corr is where the correlation identifier is, and how it is given (inline, ref or trait)
	Corr     *Loc
	CorrForm string
	// Reply to it, whose address is at ReplyAt (given inline or by ref) if it is not fixed
	Reply     *Msg
	ReplyAt   *Loc
	ReplyForm string
}

// Pkg is a package generated from a document.
type Pkg struct {
	Name    string
	Version int
	Args    []string // options of the generator
	Msgs    []Msg
	Schemas M // of the components
}

// Opt tells whether an option is given.
func (p Pkg) Opt(name string) bool {
	for _, a := range p.Args {
		if a == name {
			return true
		}
	}
	return false
}

// Doc is the document.
func (p Pkg) Doc() M {
	comps := M{"schemas": p.Schemas}
	add := func(kind, name string, v any) M {
		if comps[kind] == nil {
			comps[kind] = M{}
		}
		comps[kind].(M)[name] = v
		return docs.Ref("#/components/" + kind + "/" + name)
	}
	msg := func(name string, m Msg) M {
		x := M{}
		if m.Payload != nil {
			x["payload"] = m.Payload
		}
		if m.OneOf != nil {
			x["oneOf"] = m.OneOf
		}
		if m.Headers != nil {
			x["headers"] = m.Headers
		}
		if m.Corr != nil {
			c := M{"location": m.Corr.String()}
			switch m.CorrForm {
			case "ref":
				x["correlationId"] = add("correlationIds", name, c)
			case "trait":
				x["traits"] = L{add("messageTraits", name, M{"correlationId": c})}
			default:
				x["correlationId"] = c
			}
		}
		return x
	}
	addr := func(i int, m Msg) string {
		if m.Address != "" {
			return m.Address
		}
		return fmt.Sprintf("ch%d", i)
	}
	chs := M{}
	if p.Version == 2 {
		for i, m := range p.Msgs {
			c := M{map[bool]string{true: "publish", false: "subscribe"}[m.Receive]: M{"operationId": fmt.Sprintf("op%d", i), "message": msg(fmt.Sprintf("ch%d", i), m)}}
			if m.Params != nil {
				c["parameters"] = m.Params
			}
			chs[addr(i, m)] = c
		}
		return M{"asyncapi": "2.6.0", "info": M{"title": p.Name, "version": "1"}, "channels": chs, "components": comps}
	}
	ops := M{}
	for i, m := range p.Msgs {
		n := fmt.Sprintf("ch%d", i)
		c := M{"address": addr(i, m), "messages": M{"m": msg(n, m)}}
		if m.Params != nil {
			c["parameters"] = m.Params
		}
		chs[n] = c
		op := M{"action": map[bool]string{true: "receive", false: "send"}[m.Receive], "channel": docs.Ref("#/channels/" + n)}
		ops[fmt.Sprintf("op%d", i)] = op
		if m.Reply != nil {
			rc := M{"address": fmt.Sprintf("reply%d", i), "messages": M{"r": msg("r"+n, *m.Reply)}}
			reply := M{"channel": docs.Ref("#/channels/r" + n)}
			if m.ReplyAt != nil {
				rc["address"] = nil
				var a any = M{"location": m.ReplyAt.String()}
				if m.ReplyForm == "ref" {
					a = add("replyAddresses", n, a)
				}
				reply["address"] = a
			}
			chs["r"+n], op["reply"] = rc, reply
		}
	}
	return M{"asyncapi": "3.0.0", "info": M{"title": p.Name, "version": "1"}, "channels": chs, "operations": ops, "components": comps}
}

// Packages for a property.
func Packages(prop string) []Pkg {
	switch prop {
	case "P16":
		return p16()
	case "P17":
		return p17()
	case "P18":
		return p18()
	case "P19":
		return p19()
	case "P25":
		return p25()
	case "P29":
		return p29()
	}
	panic("no package for " + prop)
}

func ref(n string) M { return docs.Ref("#/components/schemas/" + n) }

func typ(t, f string) M {
	m := M{"type": t}
	if f != "" {
		m["format"] = f
	}
	return m
}

// Scalars by name.
func Scalars() map[string]M {
	return map[string]M{
		"string": typ("string", ""), "uuid": typ("string", "uuid"), "date": typ("string", "date"), "datetime": typ("string", "date-time"),
		"integer": typ("integer", ""), "int32": typ("integer", "int32"), "int64": typ("integer", "int64"),
		"number": typ("number", ""), "float": typ("number", "float"), "double": typ("number", "double"), "boolean": typ("boolean", ""),
	}
}

func keys[T any](m map[string]T) []string {
	n := M{}
	for k := range m {
		n[k] = nil
	}
	return docs.Keys(n)
}

func arr(of any) M { return M{"type": "array", "items": of} }

func object() M {
	return docs.Obj(M{
		"a": docs.Str(), "b": typ("integer", ""), "c_d": typ("boolean", ""), "t": typ("string", "date-time"), "d": typ("string", "date"), "f": typ("number", "float"),
		"n": docs.Obj(M{"x": docs.Str(), "y": arr(docs.Obj(M{"z": typ("integer", "int32")}))}, "required", L{"x"}), "l": arr(docs.Str()), "r": ref("obj"), "rt": ref("datetime"), "rd": ref("date"), "ri": ref("int32"),
		"g": M{"type": "object", "x-go-type": "netip.Addr", "x-go-type-import": M{"name": "netip", "path": "net/netip"}},
	}, "required", L{"a", "d", "l", "rd", "f"})
}

func p16() []Pkg {
	sc := Scalars()
	schemas := M{"obj": docs.Obj(M{"k": docs.Str(), "o": typ("integer", "")}, "required", L{"k"}), "list": arr(ref("obj")), "chain": ref("string")}
	for k, s := range sc {
		schemas[k] = s
	}
	ext := object()["properties"].(M)["g"]
	var msgs []Msg
	payload := func(label string, s any) { msgs = append(msgs, Msg{Label: "payload " + label, Payload: s}) }
	for _, k := range keys(sc) {
		payload(k, sc[k])
		payload("reference to "+k, ref(k))
		payload("list of "+k, arr(sc[k]))
	}
	payload("chain of references", ref("chain"))
	payload("list of references", arr(ref("obj")))
	payload("list of lists", arr(arr(docs.Obj(M{"z": typ("number", "")}))))
	payload("object", object())
	payload("reference to an object", ref("obj"))
	payload("reference to a list", ref("list"))
	payload("object with additional properties", docs.Obj(M{"a": docs.Str()}, "additionalProperties", typ("integer", "")))
	payload("own type", ext)
	payload("no property", M{"type": "object"})
	payload("anything", M{})
	payload("true", true)
	payload("list of anything", M{"type": "array"})
	payload("list of any items", arr(true))
	payload("reference to anything", ref("any"))
	payload("object with anything", docs.Obj(M{"a": M{}, "b": ref("any"), "l": M{"type": "array"}}, "additionalProperties", true, "required", L{"b"}))
	header := func(label string, h M) {
		msgs = append(msgs, Msg{Label: "headers " + label, Payload: docs.Str(), Headers: h})
	}
	hs := map[string]any{"list": arr(docs.Str()), "object": docs.Obj(M{"x": docs.Str(), "y": typ("integer", "")}), "reference to obj": ref("obj"), "reference to list": ref("list"), "chain": ref("chain"), "own type": ext, "anything": M{}, "reference to anything": ref("any"), "list of anything": M{"type": "array"}}
	schemas["any"] = M{"description": "anything"}
	for k, s := range sc {
		hs[k] = s
		hs["reference to "+k] = ref(k)
	}
	for _, k := range docs.Keys(hs) {
		header("required "+k, docs.Obj(M{"h": hs[k]}, "required", L{"h"}))
		header("optional "+k, docs.Obj(M{"h": hs[k]}))
	}
	header("several", docs.Obj(M{"a": docs.Str(), "b": docs.Str(), "x-c": typ("integer", ""), "X_D": typ("string", "date-time"), "e f": typ("boolean", ""), "g": typ("string", "date")}, "required", L{"a", "x-c", "g"}))
	schemas["hdr"] = docs.Obj(M{"a": docs.Str(), "b": docs.Str(), "t": ref("datetime")}, "required", L{"a"})
	header("reference", ref("hdr"))
	header("none", docs.Obj(M{}))
	header("object with payload object", docs.Obj(M{"a": docs.Str()}))
	msgs[len(msgs)-1].Payload = ref("obj")
	var out []Pkg
	for _, v := range []int{3, 2} {
		out = append(out,
			Pkg{Name: fmt.Sprintf("v%d", v), Version: v, Msgs: msgs, Schemas: schemas},
			Pkg{Name: fmt.Sprintf("v%dformat", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--ignore-string-format"}},
			Pkg{Name: fmt.Sprintf("v%dptr", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--force-pointers"}},
			Pkg{Name: fmt.Sprintf("v%dsnake", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--convert-keys", "snake"}})
	}
	return out
}

// but is a copy with keys set.
func but(m M, kv ...any) M { return docs.With(docs.Copy(m).(M), kv...) }
