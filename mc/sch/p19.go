package sch

import (
	"encoding/json"
	"fmt"
	"strings"

	"verifmc/docs"
)

// Num is a number.
type Num = json.Number

type num = Num

// structures with one property, constrained in each way
func p19() []Pkg {
	schemas := M{"tree": docs.Obj(M{"v": but(typ("integer", ""), "minimum", 0), "l": ref("tree")}, "required", L{"v"})}
	var msgs []Msg
	add := func(s M) {
		label := strings.TrimSpace(docs.JSON(s))
		obj := func(name string, s M, required bool) {
			o := docs.Obj(M{"p": s})
			if required {
				o["required"] = L{"p"}
			}
			msgs = append(msgs, Msg{Label: name + " " + label, Payload: o, Constrained: s})
		}
		obj("required", s, true)
		obj("optional", s, false)
	}
	places := func(s M) { // of a constrained schema, other than directly in a property
		label := strings.TrimSpace(docs.JSON(s))
		n := fmt.Sprintf("s%d", len(schemas))
		schemas[n], schemas["c"+n], schemas["b"+n] = s, ref("b"+n), ref(n)
		schemas["a"+n] = ref("c" + n)
		put := func(place string, p M, required bool) {
			o := docs.Obj(M{"p": p})
			if required {
				o["required"] = L{"p"}
			}
			msgs = append(msgs, Msg{Label: place + " " + label, Payload: o, Constrained: s})
		}
		for _, req := range []bool{true, false} {
			r := map[bool]string{true: "required ", false: "optional "}[req]
			put(r+"reference", ref(n), req)
			put(r+"chain", ref("a"+n), req)
			put(r+"chain from the middle", ref("c"+n), req)
		}
	}
	bounds := []num{"0", "-1", "1", "5", "1000000", "-2500000", "9007199254740993", "1.5", "-0.25"}
	kinds := []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"}
	for _, t := range []M{typ("integer", ""), typ("integer", "int32"), typ("number", ""), typ("number", "float")} {
		for _, k := range kinds {
			for _, b := range bounds {
				if b == "9007199254740993" && (t["format"] != nil || t["type"] == "number") {
					continue
				}
				add(but(t, k, b))
			}
		}
		for _, p := range [][2]num{{"0", "0"}, {"-1", "1"}, {"0", "5"}, {"-5", "0"}, {"2", "1"}} {
			for _, lo := range []string{"minimum", "exclusiveMinimum"} {
				for _, hi := range []string{"maximum", "exclusiveMaximum"} {
					add(but(but(t, lo, p[0]), hi, p[1]))
				}
			}
		}
		add(but(but(t, "minimum", num("0")), "exclusiveMinimum", num("2")))
		add(but(but(t, "maximum", num("3")), "exclusiveMaximum", num("2")))
		add(t)
	}
	str := docs.Str()
	for _, n := range []num{"0", "1", "2", "12", "1000000"} {
		add(but(str, "minLength", n))
		add(but(str, "maxLength", n))
	}
	for _, p := range [][2]num{{"0", "0"}, {"1", "2"}, {"2", "2"}, {"0", "1"}, {"3", "1"}} {
		add(but(but(str, "minLength", p[0]), "maxLength", p[1]))
	}
	for _, e := range []L{{"a"}, {"a", "b"}, {"a b", "c"}, {"", "x"}, {""}, {"a,b", "c"}, {"a|b", "c"}, {"é", "日本"}, {"a=b"}, {"-"}, {"omitempty"}, {"required", "dive"}, {" a "}, {"a\tb"}, {"%d"}, {"<a>"}, {"1", "2"}, {"a:b"}, {"0x2c"}, {"a\\b"}, {"a\"b"}, {"a\nb"}, {"it's"}, {"it's", "a, b"}, {"'"}, {"a`b"}, {"0x2C"}} {
		add(but(str, "enum", e))
		if len(e) == 1 {
			add(but(str, "const", e[0]))
		}
	}
	for _, c := range []string{"a b", "a,b", "a|b", "x"} {
		add(but(str, "const", c))
	}
	add(but(but(str, "enum", L{"a", "bb", "ccc"}), "minLength", num("2")))
	add(but(but(str, "enum", L{"a", "bb", "ccc"}), "const", "bb"))
	add(str)
	for _, of := range []M{str, typ("integer", ""), typ("number", ""), typ("boolean", ""), docs.Obj(M{"x": str}, "required", L{"x"}), docs.Obj(M{"x": str}), arr(str), typ("string", "date")} {
		add(but(arr(of), "uniqueItems", true))
		add(but(arr(of), "uniqueItems", false))
	}
	for _, k := range []string{"minLength", "maxLength"} { // of lists too
		add(but(arr(str), k, num("0")))
		add(but(arr(str), k, num("2")))
	}
	// constraints that do not apply to the type, or that all its values satisfy
	for _, t := range []M{typ("boolean", ""), typ("integer", ""), typ("integer", "int32"), typ("number", ""), typ("number", "float"), docs.Obj(M{"x": str}), arr(docs.Obj(M{"x": str})), str} {
		for _, c := range []struct{ of, k string }{{"string", "minLength"}, {"string", "maxLength"}, {"number", "minimum"}, {"number", "maximum"}, {"number", "exclusiveMinimum"}, {"number", "exclusiveMaximum"}, {"array", "uniqueItems"}} {
			if kind := t["type"]; kind == c.of || kind == "integer" && c.of == "number" || kind == "array" && c.of == "string" {
				continue
			}
			if c.k == "uniqueItems" {
				add(but(t, c.k, true))
				continue
			}
			add(but(t, c.k, num("2")))
		}
	}
	for _, f := range []string{"date", "date-time"} {
		add(but(typ("string", f), "minLength", num("10")))
		add(but(typ("string", f), "maxLength", num("64")))
		add(but(but(typ("string", f), "minLength", num("1")), "maxLength", num("1000000")))
		places(but(typ("string", f), "maxLength", num("64")))
	}
	add(typ("boolean", ""))
	add(typ("string", "date-time"))
	add(typ("string", "date"))
	add(docs.Obj(M{"x": str}))
	for _, s := range []M{but(typ("integer", ""), "minimum", num("0")), but(typ("number", ""), "exclusiveMaximum", num("0")), but(str, "maxLength", num("2")), but(str, "enum", L{"a", "bb"}), but(str, "const", "bb"), but(arr(str), "uniqueItems", true), str,
		docs.Obj(M{"x": but(str, "minLength", num("1"))}, "required", L{"x"})} {
		places(s)
		// beside elements that are not for the validation
		for _, o := range []struct {
			k string
			v any
		}{{"title", "a title"}, {"description", "a description"}, {"maxItems", num("1000")}, {"minItems", num("1")}, {"pattern", ".*"}, {"multipleOf", num("1")}, {"examples", L{}}, {"readOnly", true}, {"deprecated", true}, {"maxProperties", num("1000")}, {"minProperties", num("1")}, {"default", nil}} {
			if s["type"] != "object" || o.k != "minProperties" {
				places(but(s, o.k, o.v))
			}
		}
	}
	nested := docs.Obj(M{"x": but(str, "minLength", num("1"))}, "required", L{"x"})
	msgs = append(msgs, Msg{Label: "required structure", Payload: docs.Obj(M{"p": nested}, "required", L{"p"}), Constrained: nested},
		Msg{Label: "optional structure", Payload: docs.Obj(M{"p": nested}), Constrained: nested})
	var out []Pkg
	for _, v := range []int{3, 2} {
		out = append(out,
			Pkg{Name: fmt.Sprintf("v%d", v), Version: v, Msgs: msgs, Schemas: schemas},
			Pkg{Name: fmt.Sprintf("v%dptr", v), Version: v, Msgs: msgs, Schemas: schemas, Args: []string{"--force-pointers"}},
			combined(v))
	}
	return out
}

// combined has structures with a property which several parts of the schema define.
// It is constrained by {"all": [...]} and {"any": [...]}.
func combined(version int) Pkg {
	schemas := M{}
	var msgs []Msg
	with := func(p M, kv ...any) M { return docs.Obj(M{"p": p, "q": docs.Str()}, kv...) }
	as := func(form int, o M) M { // how a part is given
		n := fmt.Sprintf("part%d", len(schemas))
		switch form {
		case 1:
			schemas[n] = o
			return ref(n)
		case 2: // the property is a reference
			schemas[n] = o["properties"].(M)["p"]
			o = docs.Copy(o).(M)
			o["properties"].(M)["p"] = ref(n)
		}
		return o
	}
	all := func(l ...M) M { return M{"all": l} }
	any_ := func(l ...M) M { return M{"any": l} }
	add := func(label string, payload M, oneOf L, c M) {
		msgs = append(msgs, Msg{Label: label + " " + strings.TrimSpace(docs.JSON(c)), Payload: payload, OneOf: oneOf, Constrained: c})
	}
	str, integer := docs.Str(), typ("integer", "")
	untyped := M{"const": "bb"}
	atoms := [][]M{
		{str, but(str, "minLength", num("1")), but(str, "minLength", num("2")), but(str, "maxLength", num("2")), but(but(str, "minLength", num("1")), "maxLength", num("1")),
			but(str, "enum", L{"a", "bb"}), but(str, "enum", L{"bb", "ccc"}), but(str, "enum", L{"x"}), but(str, "const", "a"), but(str, "const", "bb"), but(but(str, "enum", L{"a", "bb"}), "const", "a")},
		{integer, but(integer, "minimum", num("0")), but(integer, "minimum", num("2")), but(integer, "exclusiveMinimum", num("0")), but(integer, "maximum", num("3")), but(integer, "exclusiveMaximum", num("4"))},
		{arr(str), but(arr(str), "uniqueItems", true), but(arr(str), "maxLength", num("2"))},
	}
	n := 0
	for _, l := range atoms {
		for _, a := range l {
			for _, b := range l {
				n++
				form := n % 3
				add("allOf", M{"type": "object", "allOf": L{as(form, with(a)), as(0, with(b))}}, nil, all(a, b))
				add("allOf and its own", but(with(a), "allOf", L{as(form, with(b))}), nil, all(a, b))
				for _, k := range []string{"anyOf", "oneOf"} {
					add(k, M{"type": "object", k: L{as(0, with(a)), as(form, with(b))}}, nil, any_(a, b))
				}
				add("oneOf and its own", but(with(a), "oneOf", L{as(form, with(b)), as(0, with(l[1]))}), nil, all(a, any_(b, l[1])))
				add("oneOf and allOf", M{"type": "object", "oneOf": L{as(0, with(a)), as(form, with(l[2]))}, "allOf": L{as(0, with(b))}}, nil, all(b, any_(a, l[2])))
				add("oneOf in an allOf", M{"type": "object", "allOf": L{M{"type": "object", "oneOf": L{as(form, with(a)), as(0, with(b))}}, as(0, with(l[2]))}}, nil, all(l[2], any_(a, b)))
				add("three alternatives", M{"type": "object", "oneOf": L{as(0, with(a)), as(form, with(b)), as(0, with(l[1]))}}, nil, any_(a, b, l[1]))
				add("messages", nil, L{M{"payload": as(0, with(a))}, M{"payload": as(form, with(b))}}, any_(a, b))
			}
		}
	}
	add("untyped", M{"type": "object", "oneOf": L{with(but(str, "const", "a")), with(untyped)}}, nil, any_(but(str, "const", "a"), but(str, "const", "bb")))
	add("required", M{"type": "object", "allOf": L{with(but(str, "minLength", num("1")), "required", L{"p"}), with(but(str, "maxLength", num("2")))}, "required": L{"p"}}, nil, all(but(str, "minLength", num("1")), but(str, "maxLength", num("2"))))
	add("missing in an alternative", M{"type": "object", "oneOf": L{with(but(str, "minLength", num("1"))), docs.Obj(M{"q": str})}}, nil, all(but(str, "minLength", num("1"))))
	return Pkg{Name: fmt.Sprintf("v%dcombined", version), Version: version, Msgs: msgs, Schemas: schemas}
}
