// Package docs holds the base documents the enumerations start from.
package docs

import (
	"encoding/json"
	"sort"

	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

// Ref is a reference object.
func Ref(to string) M { return M{"$ref": to} }

// Str is a string schema.
func Str(kv ...any) M { return With(M{"type": "string"}, kv...) }

// Obj is an object schema of the given properties.
func Obj(props M, kv ...any) M { return With(M{"type": "object", "properties": props}, kv...) }

// With sets keys of an object.
func With(m M, kv ...any) M {
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

// Copy is a deep copy.
func Copy(v any) any {
	switch u := v.(type) {
	case M:
		m := M{}
		for k, x := range u {
			m[k] = Copy(x)
		}
		return m
	case L:
		l := make(L, len(u))
		for i, x := range u {
			l[i] = Copy(x)
		}
		return l
	}
	return v
}

// Keys in order.
func Keys(m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// JSON of a value, on one line.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Node of a document: its path and the way to change it in a copy.
type Node struct {
	Path []any // keys and indexes
	V    any
}

// Nodes lists every node of a document below the root, in a fixed order.
func Nodes(v any) []Node {
	var out []Node
	var walk func(path []any, v any)
	walk = func(path []any, v any) {
		if len(path) > 0 {
			out = append(out, Node{append([]any{}, path...), v})
		}
		switch u := v.(type) {
		case M:
			for _, k := range Keys(u) {
				walk(append(path, k), u[k])
			}
		case L:
			for i := range u {
				walk(append(path, i), u[i])
			}
		}
	}
	walk(nil, v)
	return out
}

// Deleted marks a node to remove.
type Deleted struct{}

// Set gives a copy of a document with a node replaced or deleted.
func Set(v any, path []any, to any) any {
	if len(path) == 0 {
		return to
	}
	_, del := to.(Deleted)
	switch u := v.(type) {
	case M:
		m := M{}
		for k, x := range u {
			if k == path[0].(string) {
				if del && len(path) == 1 {
					continue
				}
				m[k] = Set(x, path[1:], to)
			} else {
				m[k] = x
			}
		}
		if _, ok := u[path[0].(string)]; !ok && !del && len(path) == 1 {
			m[path[0].(string)] = to
		}
		return m
	case L:
		l := L{}
		for i, x := range u {
			if i == path[0].(int) {
				if del && len(path) == 1 {
					continue
				}
				l = append(l, Set(x, path[1:], to))
			} else {
				l = append(l, x)
			}
		}
		return l
	}
	return v
}

// V3 is a document in version 3 with every part the generator reads.
func V3() M {
	return M{
		"asyncapi": "3.0.0",
		"info": M{"title": "T", "version": "1.2.3", "description": "d", "tags": L{M{"name": "it", "externalDocs": M{"url": "u"}}, Ref("#/components/tags/tag")},
			"externalDocs": M{"url": "u"}, "contact": M{"name": "n"}, "license": M{"name": "l"}},
		"servers": M{"srv": M{"host": "h", "protocol": "nats", "variables": M{"v": Ref("#/components/serverVariables/sv")}, "tags": L{M{"name": "st"}},
			"security": L{M{"type": "plain"}}, "bindings": M{}, "externalDocs": Ref("#/components/externalDocs/ed")}, "srv2": Ref("#/components/servers/csrv")},
		"channels": M{
			"one": M{"address": "one.{par}.x", "title": "t", "messages": M{"hello": M{
				"headers": Obj(M{"h": Str(), "at": Str("format", "date-time"), "o": Obj(M{"x": Str()})}, "required", L{"h"}), "payload": Obj(M{
					"a": Str("description", "a\nb", "minLength", 1, "x-omitempty", false), "n": M{"type": "integer", "format": "int32", "minimum": 2, "exclusiveMaximum": 9},
					"l": M{"type": "array", "items": Obj(M{"z": M{"type": "boolean"}}), "uniqueItems": true}, "r": Ref("#/components/schemas/leaf"),
					"e": Str("enum", L{"a", "b"}), "c": Str("const", "k"), "g": Str("x-go-type", "big.Int", "x-go-type-import", M{"path": "math/big"})},
					"required", L{"a", "r"}),
				"correlationID": M{"location": "$message.header#/cid"}, "description": "md", "tags": L{M{"name": "mt"}}, "bindings": M{}, "examples": L{M{"name": "e", "payload": M{"a": "x"}}},
				"externalDocs": M{"url": "u"}, "traits": L{Ref("#/components/messageTraits/mtrait"), M{"summary": "s", "headers": Obj(M{"th": Str()})}}}},
				"parameters": M{"par": M{"description": "pd", "enum": L{"q"}}}, "servers": L{Ref("#/components/servers/csrv")}, "tags": L{M{"name": "ct"}}, "bindings": M{}, "externalDocs": M{"url": "u"}},
			"two":   M{"address": "two", "messages": M{"m": Ref("#/components/messages/msg")}},
			"three": Ref("#/components/channels/cch"),
			"four":  M{"address": "four", "messages": M{"m4": M{"payload": Str(), "correlationID": M{"location": "$message.header#/cid"}}}},
			"five":  M{"messages": M{"m5": M{"payload": Obj(M{"v": Str()}), "correlationID": M{"location": "$message.header#/cid"}}}},
			"six": M{"address": "six", "messages": M{"m6": M{"headers": Obj(M{"replyTo": Str()}, "required", L{"replyTo"}), "payload": Obj(M{"v": Ref("#/components/schemas/comp/properties/p")}),
				"correlationID": M{"location": "$message.header#/cid"}}}},
		},
		"operations": M{
			"opone": M{"action": "send", "channel": Ref("#/channels/one"), "title": "t", "traits": L{Ref("#/components/operationTraits/otrait"), M{"title": "tt"}}, "tags": L{M{"name": "ot"}},
				"messages": L{Ref("#/channels/one/messages/hello")}, "bindings": M{}, "externalDocs": M{"url": "u"}, "security": L{Ref("#/components/securitySchemes/sec")}},
			"optwo":   M{"action": "receive", "channel": Ref("#/channels/two"), "messages": L{Ref("#/channels/two/messages/m")}},
			"opthree": M{"action": "receive", "channel": Ref("#/channels/three")},
			"opfour": M{"action": "receive", "channel": Ref("#/channels/one"), "messages": L{Ref("#/channels/one/messages/hello")},
				"reply": M{"channel": Ref("#/channels/four"), "messages": L{Ref("#/channels/four/messages/m4")}}},
			"opsix": M{"action": "send", "channel": Ref("#/channels/six"), "reply": M{"channel": Ref("#/channels/five"), "address": M{"location": "$message.header#/replyTo"}}},
		},
		"components": M{
			"schemas": M{"leaf": Str("maxLength", 4), "comp": Obj(M{"p": Obj(M{"q": Str()}), "s": Ref("#/components/schemas/leaf")}),
				"all":  M{"allOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()}, "required", L{"own"})}},
				"any":  M{"anyOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()})}},
				"oneS": M{"oneOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()})}},
				"addp": Obj(M{"d": Str()}, "additionalProperties", M{"type": "integer"}),
				"arr":  M{"type": "array", "items": Ref("#/components/schemas/comp")},
				"misc": Obj(M{"m": Str()}, "patternProperties", M{"^x": Str()}, "not", Str(), "contains", Str(), "additionalItems", Str(), "propertyNames", Str("pattern", "a"), "examples", L{1}, "default", M{"a": 1})},
			"messages":          M{"msg": M{"headers": Obj(M{"hh": Str()}), "payload": Ref("#/components/schemas/comp"), "title": "t"}, "alias": M{"payload": Ref("#/components/schemas/all")}},
			"channels":          M{"cch": M{"address": "three", "messages": M{"cm": M{"payload": M{"type": "array", "items": Str()}}}}},
			"servers":           M{"csrv": M{"host": "h", "protocol": "kafka"}},
			"serverVariables":   M{"sv": M{"default": "d", "enum": L{"d"}}},
			"parameters":        M{"cpar": M{"description": "d"}},
			"correlationIds":    M{"ccid": M{"location": "$message.header#/cid"}},
			"operations":        M{"cop": M{"action": "send", "channel": Ref("#/channels/two")}},
			"replies":           M{"crep": M{"channel": Ref("#/channels/four")}},
			"replyAddresses":    M{"cra": M{"location": "$message.header#/replyTo"}},
			"externalDocs":      M{"ed": M{"url": "u"}},
			"tags":              M{"tag": M{"name": "n"}},
			"securitySchemes":   M{"sec": M{"type": "plain"}},
			"operationTraits":   M{"otrait": M{"summary": "os", "tags": L{M{"name": "ott"}}, "security": L{M{"type": "plain"}}}},
			"messageTraits":     M{"mtrait": M{"headers": Obj(M{"tr": Str()}), "contentType": "x/y", "correlationID": M{"location": "$message.header#/cid"}, "tags": L{M{"name": "tt"}}}},
			"serverBindings":    M{"b": M{}},
			"channelBindings":   M{"b": M{}},
			"operationBindings": M{"b": M{}},
			"messageBindings":   M{"b": M{}},
		},
	}
}

// V2 is a document in version 2 with every part the generator reads.
func V2() M {
	return M{
		"asyncapi": "2.6.0",
		"info":     M{"title": "T", "version": "1.2.3"},
		"channels": M{
			"one.{par}.x": M{"parameters": M{"par": M{"description": "pd", "schema": Str()}, "id": Ref("#/components/parameters/cpar")}, "publish": M{"operationId": "opOne", "message": M{
				"headers": Obj(M{"h": Str(), "at": Str("format", "date-time"), "o": Obj(M{"x": Str()})}, "required", L{"h"}), "payload": Obj(M{
					"a": Str("description", "a\nb", "minLength", 1, "x-omitempty", false), "n": M{"type": "integer", "format": "int32", "minimum": 2, "exclusiveMaximum": 9},
					"l": M{"type": "array", "items": Obj(M{"z": M{"type": "boolean"}}), "uniqueItems": true}, "r": Ref("#/components/schemas/leaf"),
					"e": Str("enum", L{"a", "b"}), "c": Str("const", "k"), "g": Str("x-go-type", "big.Int", "x-go-type-import", M{"path": "math/big"})},
					"required", L{"a", "r"}),
				"correlationID": M{"location": "$message.header#/cid"}, "description": "md"}}},
			"two":   M{"subscribe": M{"message": Ref("#/components/messages/msg")}, "publish": M{"message": M{"payload": Str()}}},
			"three": M{"subscribe": M{"message": M{"payload": Ref("#/components/schemas/comp/p"), "correlationID": M{"location": "$message.payload#/q"}}}},
		},
		"components": M{
			"schemas": M{"leaf": Str("maxLength", 4), "comp": Obj(M{"p": Obj(M{"q": Str()}), "s": Ref("#/components/schemas/leaf")}),
				"all":  M{"allOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()}, "required", L{"own"})}},
				"any":  M{"anyOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()})}},
				"oneS": M{"oneOf": L{Ref("#/components/schemas/comp"), Obj(M{"own": Str()})}},
				"addp": Obj(M{"d": Str()}, "additionalProperties", M{"type": "integer"}),
				"arr":  M{"type": "array", "items": Ref("#/components/schemas/comp")}},
			"messages": M{"msg": M{"headers": Obj(M{"hh": Str()}), "payload": Ref("#/components/schemas/comp")},
				"multi": M{"oneOf": L{Ref("#/components/messages/msg"), M{"payload": Obj(M{"k": Str()}), "headers": Obj(M{"kh": Str()})}}}},
			"parameters": M{"cpar": M{"schema": M{"type": "integer"}}},
		},
	}
}
