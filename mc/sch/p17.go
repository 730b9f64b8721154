package sch

import (
	"fmt"

	"verifmc/docs"
)

// objects with additional properties: each type of these, each set of declared properties, each place
func p17() []Pkg {
	schemas := M{"obj": docs.Obj(M{"k": docs.Str(), "o": typ("integer", "")}, "required", L{"k"}), "str": docs.Str(), "dt": typ("string", "date-time"), "list": arr(typ("integer", "")), "chain": M{"$ref": "#/components/schemas/obj"}}
	schemas["any"] = M{"description": "anything"}
	additional := map[string]any{
		"true": true, "anything": M{}, "reference to anything": ref("any"), "list of anything": M{"type": "array"}, "list of lists of anything": arr(arr(M{})),
		"string": docs.Str(), "integer": typ("integer", ""), "int32": typ("integer", "int32"), "number": typ("number", ""), "float": typ("number", "float"), "boolean": typ("boolean", ""),
		"date-time": typ("string", "date-time"), "date": typ("string", "date"), "list of strings": arr(docs.Str()), "list of lists": arr(arr(typ("integer", ""))),
		"object": docs.Obj(M{"z": docs.Str(), "w": typ("boolean", "")}, "required", L{"w"}), "list of objects": arr(docs.Obj(M{"z": docs.Str()})),
		"reference to an object": ref("obj"), "reference to a string": ref("str"), "reference to a date-time": ref("dt"), "reference to a list": ref("list"), "chain": ref("chain"),
		"additional": docs.Obj(M{"a": docs.Str()}, "additionalProperties", typ("integer", "")),
	}
	declared := map[string]M{
		"no property":        {"type": "object"},
		"required":           docs.Obj(M{"a": docs.Str()}, "required", L{"a"}),
		"optional":           docs.Obj(M{"a": typ("integer", "")}),
		"both":               docs.Obj(M{"a": typ("integer", ""), "x-y": typ("boolean", ""), "B_c": docs.Str()}, "required", L{"x-y"}),
		"optional structure": docs.Obj(M{"a": docs.Obj(M{"a": docs.Str()}), "k": ref("obj")}),
		"optional lists":     docs.Obj(M{"a": arr(docs.Str()), "s": arr(ref("obj"))}),
		"time":               docs.Obj(M{"a": typ("string", "date-time"), "k": typ("string", "date")}, "required", L{"a"}),
		"kept":               docs.Obj(M{"a": but(docs.Str(), "x-omitempty", false)}),
	}
	var msgs []Msg
	for _, a := range keys(additional) {
		for _, d := range keys(declared) {
			msgs = append(msgs, Msg{Label: d + " and " + a, Payload: but(declared[d], "additionalProperties", additional[a])})
		}
	}
	for _, a := range []string{"string", "list of strings", "object", "reference to a date-time"} {
		o := but(declared["both"], "additionalProperties", additional[a])
		schemas["with "+a] = o
		r := ref("with " + a)
		for _, p := range []struct {
			place string
			of    M
		}{{"", o}, {"reference to ", r}} {
			msgs = append(msgs,
				Msg{Label: p.place + "payload " + a, Payload: p.of},
				Msg{Label: p.place + "required property " + a, Payload: docs.Obj(M{"p": p.of}, "required", L{"p"})},
				Msg{Label: p.place + "optional property " + a, Payload: docs.Obj(M{"p": p.of})},
				Msg{Label: p.place + "list " + a, Payload: arr(p.of)},
				Msg{Label: p.place + "lists in a property " + a, Payload: docs.Obj(M{"p": arr(arr(p.of))}, "required", L{"p"})},
				Msg{Label: p.place + "additional " + a, Payload: M{"type": "object", "additionalProperties": p.of}})
		}
	}
	var out []Pkg
	for _, v := range []int{3, 2} {
		out = append(out,
			Pkg{Name: fmt.Sprintf("v%d", v), Version: v, Msgs: msgs, Schemas: schemas},
			Pkg{Name: fmt.Sprintf("v%dformat", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--ignore-string-format"}},
			Pkg{Name: fmt.Sprintf("v%dsnake", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--convert-keys", "snake", "--force-pointers"}})
	}
	return out
}
