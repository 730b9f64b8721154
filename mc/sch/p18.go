package sch

import (
	"fmt"

	"verifmc/docs"
)

// Plain names of properties, which any key conversion is defined for.
var Plain = []string{"a", "userName", "user_id", "x-y", "A b", "Zed", "json", "type"}

// Odd names of properties.
var Odd = []string{"with.dot", "éa", "1st", "a$b", "a/b", "-a", "a:b", "a@b", "a+b", "a%b", "a%sb", "{a}", "$ref a", "a=b", "日本a", "omitempty", "string", "a!", "a#", "a&b", "a(b", "a*b", "a;b", "a<b", "a?b", "a[b", "a^b", "a|b", "a~b", "a_", "null a",
	"a'b", "a,b", "a,omitempty", "a,string", "a☃b", "a\"b", "a\\b", "a`b"}

// structures with properties of each type, required or not, with or without the explicit omission or
// retention of empty values; then with each name
func p18() []Pkg {
	schemas := M{"obj": docs.Obj(M{"k": docs.Str(), "o": typ("integer", "")}, "required", L{"k"}), "str": docs.Str(), "dt": typ("string", "date-time"), "d": typ("string", "date"), "list": arr(typ("integer", "")), "chain": ref("obj"),
		"chained": ref("str"), "kept": but(docs.Str(), "x-omitempty", false), "omitted": but(docs.Str(), "x-omitempty", true), "objs": arr(ref("obj")),
		"tree": docs.Obj(M{"name": docs.Str(), "left": ref("tree"), "children": arr(ref("tree"))}, "required", L{"name"})}
	schemas["any"] = M{"description": "anything"}
	types := map[string]M{
		"any": {}, "array": {"type": "array"}, "list of any": arr(M{}), "any by reference": ref("any"), "list of any by reference": arr(ref("any")), "open": docs.Obj(M{"a": docs.Str(), "n": true}, "additionalProperties", true, "required", L{"n"}),
		"string": docs.Str(), "integer": typ("integer", ""), "int32": typ("integer", "int32"), "number": typ("number", ""), "float": typ("number", "float"), "boolean": typ("boolean", ""),
		"date-time": typ("string", "date-time"), "date": typ("string", "date"), "uuid": typ("string", "uuid"), "list of strings": arr(docs.Str()), "list of lists": arr(arr(typ("integer", ""))), "list of date-times": arr(typ("string", "date-time")),
		"object": docs.Obj(M{"z_z": docs.Str(), "w": typ("boolean", "")}, "required", L{"w"}), "list of objects": arr(docs.Obj(M{"z_z": docs.Str(), "w": typ("integer", "")}, "required", L{"w"})),
		"nested": docs.Obj(M{"n": docs.Obj(M{"n": docs.Obj(M{"x": docs.Str()})}), "m": docs.Obj(M{"y": docs.Str()}, "required", L{"y"})}, "required", L{"m"}), "empty object": M{"type": "object"},
		"additional": docs.Obj(M{"a": docs.Str()}, "additionalProperties", typ("integer", "")),
		"obj":        ref("obj"), "str": ref("str"), "dt": ref("dt"), "d": ref("d"), "list": ref("list"), "chain": ref("chain"), "chained": ref("chained"), "objs": ref("objs"), "list of obj": arr(ref("obj")), "list of dt": arr(ref("dt")),
	}
	var msgs []Msg
	for _, t := range keys(types) {
		s := types[t]
		msgs = append(msgs, Msg{Label: t, Payload: docs.Obj(M{
			"req_val": s, "opt_val": s, "req_omit": but(s, "x-omitempty", true), "req_keep": but(s, "x-omitempty", false), "opt_omit": but(s, "x-omitempty", true), "opt_keep": but(s, "x-omitempty", false),
		}, "required", L{"req_val", "req_omit", "req_keep"})})
	}
	for _, n := range []string{"kept", "omitted"} {
		msgs = append(msgs, Msg{Label: "reference to " + n, Payload: docs.Obj(M{"req_val": ref(n), "opt_val": ref(n)}, "required", L{"req_val"})})
	}
	msgs = append(msgs, Msg{Label: "tree", Payload: ref("tree")})
	named := func(names []string) (out []Msg) {
		for _, n := range names {
			out = append(out, Msg{Label: fmt.Sprintf("name %q", n), Payload: docs.Obj(M{"q": docs.Obj(M{n: typ("integer", "")}, "required", L{n}), "r": docs.Obj(M{n: docs.Str()})})})
			out = append(out, Msg{Label: fmt.Sprintf("additional and name %q", n), Payload: docs.Obj(M{n: docs.Str()}, "additionalProperties", docs.Str())})
		}
		return
	}
	plain := append(append([]Msg{}, msgs...), named(Plain)...)
	odd := append(append([]Msg{}, plain...), named(Odd)...)
	var out []Pkg
	for _, v := range []int{3, 2} {
		n := func(s string) string { return fmt.Sprintf("v%d%s", v, s) }
		out = append(out,
			Pkg{Name: n(""), Version: v, Msgs: odd, Schemas: schemas},
			Pkg{Name: n("format"), Version: v, Msgs: plain, Schemas: schemas, Args: []string{"--ignore-string-format", "--convert-keys", "none"}},
			Pkg{Name: n("ptr"), Version: v, Msgs: plain, Schemas: schemas, Args: []string{"--force-pointers"}},
			Pkg{Name: n("snake"), Version: v, Msgs: plain, Schemas: schemas, Args: []string{"--convert-keys", "snake"}},
			Pkg{Name: n("kebab"), Version: v, Msgs: plain, Schemas: schemas, Args: []string{"--convert-keys", "kebab", "--force-pointers"}},
			Pkg{Name: n("camel"), Version: v, Msgs: plain, Schemas: schemas, Args: []string{"--convert-keys", "camel"}})
	}
	return out
}
