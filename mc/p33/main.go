// P33: what the standard allows is accepted, and what only describes changes nothing.
package main

import (
	"fmt"
	"sort"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// grammar of the objects of the standard: the kind of what is under each key ("[]" of a list, "{}" of a map).
func grammar(v int) map[string]map[string]string {
	described := func(m map[string]string) map[string]string {
		m["tags"], m["externalDocs"] = "[]Tag", "Docs"
		return m
	}
	schema := described(map[string]string{"properties": "{}Schema", "patternProperties": "{}Schema", "additionalProperties": "Schema", "items": "Schema",
		"allOf": "[]Schema", "anyOf": "[]Schema", "oneOf": "[]Schema", "not": "Schema"})
	delete(schema, "tags")
	if v == 2 {
		return map[string]map[string]string{
			"Root":    described(map[string]string{"info": "Info", "servers": "{}Server", "channels": "{}Channel", "components": "Components"}),
			"Info":    {"contact": "Contact", "license": "License"},
			"Contact": {}, "License": {}, "Tag": {"externalDocs": "Docs"}, "Docs": {}, "Correlation": {},
			"Server":     {"variables": "{}Variable", "bindings": "Bindings"},
			"Variable":   {},
			"Channel":    {"parameters": "{}Parameter", "publish": "Operation", "subscribe": "Operation", "bindings": "Bindings"},
			"Parameter":  {"schema": "Schema"},
			"Operation":  described(map[string]string{"message": "Message", "bindings": "Bindings"}),
			"Message":    described(map[string]string{"headers": "Schema", "payload": "Schema", "correlationID": "Correlation", "oneOf": "[]Message", "bindings": "Bindings"}),
			"Components": {"schemas": "{}Schema", "messages": "{}Message", "parameters": "{}Parameter", "correlationIds": "{}Correlation"},
			"Schema":     schema, "Bindings": {},
		}
	}
	schema["contains"], schema["additionalItems"], schema["propertyNames"] = "Schema", "Schema", "Schema"
	return map[string]map[string]string{
		"Root":    {"info": "Info", "servers": "{}Server", "channels": "{}Channel", "operations": "{}Operation", "components": "Components"},
		"Info":    described(map[string]string{"contact": "Contact", "license": "License"}),
		"Contact": {}, "License": {}, "Tag": {"externalDocs": "Docs"}, "Docs": {}, "Correlation": {},
		"Server":         described(map[string]string{"variables": "{}Variable", "security": "[]Security", "bindings": "ServerBindings"}),
		"Variable":       {},
		"Security":       {},
		"Channel":        described(map[string]string{"messages": "{}Message", "parameters": "{}Parameter", "bindings": "ChannelBindings"}),
		"Parameter":      {},
		"Operation":      described(map[string]string{"security": "[]Security", "bindings": "OperationBindings", "traits": "[]OperationTrait", "reply": "Reply"}),
		"OperationTrait": described(map[string]string{"security": "[]Security", "bindings": "OperationBindings"}),
		"Reply":          {"address": "ReplyAddress"},
		"ReplyAddress":   {},
		"Message":        described(map[string]string{"headers": "Schema", "payload": "Schema", "correlationID": "Correlation", "bindings": "MessageBindings", "examples": "[]Example", "traits": "[]MessageTrait"}),
		"MessageTrait":   described(map[string]string{"headers": "Schema", "correlationID": "Correlation", "bindings": "MessageBindings", "examples": "[]Example"}),
		"Example":        {},
		"Components": {"schemas": "{}Schema", "messages": "{}Message", "channels": "{}Channel", "servers": "{}Server", "serverVariables": "{}Variable", "parameters": "{}Parameter",
			"correlationIds": "{}Correlation", "operations": "{}Operation", "replies": "{}Reply", "replyAddresses": "{}ReplyAddress", "externalDocs": "{}Docs", "tags": "{}Tag",
			"securitySchemes": "{}Security", "operationTraits": "{}OperationTrait", "messageTraits": "{}MessageTrait", "serverBindings": "{}ServerBindings",
			"channelBindings": "{}ChannelBindings", "operationBindings": "{}OperationBindings", "messageBindings": "{}MessageBindings"},
		"Schema": schema, "ServerBindings": {}, "ChannelBindings": {}, "OperationBindings": {}, "MessageBindings": {},
	}
}

// place of an object in a document.
type place struct {
	kind string
	path []any
	at   M
}

// places are the objects of a document, but the references.
func places(g map[string]map[string]string, kind string, path []any, v any, out *[]place) {
	switch {
	case strings.HasPrefix(kind, "{}"):
		if m, ok := v.(M); ok {
			for _, k := range docs.Keys(m) {
				places(g, kind[2:], append(append([]any{}, path...), k), m[k], out)
			}
		}
	case strings.HasPrefix(kind, "[]"):
		if l, ok := v.(L); ok {
			for i := range l {
				places(g, kind[2:], append(append([]any{}, path...), i), l[i], out)
			}
		}
	default:
		m, ok := v.(M)
		if !ok || m["$ref"] != nil {
			return
		}
		*out = append(*out, place{kind, path, m})
		keys := make([]string, 0)
		for k := range g[kind] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if x, ok := m[k]; ok {
				places(g, g[kind][k], append(append([]any{}, path...), k), x, out)
			}
		}
	}
}

// word of the vocabulary: a key and a value.
type word struct {
	key     string
	value   any
	changes bool // what is generated may be different
	only    func(m M) bool
	more    string // the value is one more element of the object with this key
}

// loose schemas accept everything, nothing, or everything of a type.
var loose = L{M{}, true, false, M{"type": "null"}, M{"type": "object"}, M{"type": "array"}, M{"type": "array", "items": M{}}, M{"type": "array", "items": true}, M{"type": "array", "items": M{"type": "array"}}, M{"type": "array", "items": M{"type": "null"}},
	M{"enum": L{1, "a"}}, M{"const": nil}, M{"not": M{}}, M{"description": "d"}, M{"format": "date-time"}, M{"type": "array", "items": false, "minItems": 1, "uniqueItems": true}, M{"minLength": 3, "maximum": 3}, M{"type": "object", "additionalProperties": true}}

func typed(ts ...string) func(m M) bool {
	return func(m M) bool {
		for _, t := range ts {
			if m["type"] == t {
				return true
			}
		}
		return false
	}
}

var anything = L{"s", "", 0, 1.5, -3, 1e30, true, nil, L{}, L{1, "a", nil}, M{}, M{"a": M{"b": L{1}}, "$ref": 3}}

func words(v int) map[string][]word {
	tags := []word{{key: "tags", value: L{}}, {key: "tags", value: L{M{"name": "n"}, M{"name": "n2", "description": "d", "externalDocs": M{"url": "u", "description": "d"}}}}}
	ed := []word{{key: "externalDocs", value: M{"url": "https://x.y/z?a=b#c", "description": "d\n\"e\"`"}}}
	titles := []word{{key: "title", value: "t\n`\"*/"}, {key: "summary", value: "s\n`\"*/"}}
	describe := []word{{key: "description", value: "d\n`\"*/", changes: true}, {key: "description", value: "", changes: true}}
	bindings := func() (out []word) {
		for _, b := range []M{{}, {"nats": M{"queue": "q", "bindingVersion": "0.1.0"}},
			{"kafka": M{"groupId": str("enum", L{"g"}), "clientId": M{"type": "string"}, "bindingVersion": "0.5.0", "key": M{"type": "string"}, "partitions": 20, "topic": "t", "replicas": 3, "topicConfiguration": M{"cleanup.policy": L{"delete"}, "retention.ms": 604800000}, "schemaRegistryUrl": "u"}},
			{"amqp": M{"is": "routingKey", "queue": M{"name": "n", "durable": true}, "exchange": M{"name": "e", "type": "topic"}, "expiration": 1000, "cc": L{"a"}, "ack": false, "contentEncoding": "gzip", "messageType": "m"}},
			{"mqtt": M{"clientId": "c", "cleanSession": true, "lastWill": M{"topic": "t", "qos": 2, "message": "m", "retain": false}, "keepAlive": 60, "qos": 2, "retain": true}, "mqtt5": M{"sessionExpiryInterval": 60}},
			{"ws": M{"method": "GET", "query": M{"type": "object", "properties": M{"r": M{"type": "string"}}}, "headers": M{"type": "object"}}, "http": M{"method": "POST", "query": M{"type": "object"}, "statusCode": 200}},
			{"pulsar": M{"namespace": "n", "persistence": "p", "tenant": "t"}, "googlepubsub": M{"topic": "t", "labels": M{"a": "b"}, "messageStoragePolicy": M{"allowedPersistenceRegions": L{"r"}}}, "ibmmq": M{"queue": M{"objectName": "o"}, "maxMsgLength": 3, "type": "jms"}, "solace": M{"destinations": L{M{"destinationType": "queue", "queue": M{"name": "n"}}}, "msgVpn": "v"}, "sns": M{"name": "n", "ordering": M{"type": "FIFO"}}, "sqs": M{"queue": M{"name": "q", "fifoQueue": true}}, "jms": M{"destination": "d"}, "anypointmq": M{"destination": "d"}, "stomp": M{}, "redis": M{}, "mercure": M{}, "amqp1": M{}},
			{"x-own": M{"a": L{1}}}} {
			out = append(out, word{key: "bindings", value: b})
		}
		return out
	}()
	ofBinding := func() (out []word) {
		for _, b := range bindings {
			for k, x := range b.value.(M) {
				out = append(out, word{key: k, value: x})
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].key+docs.JSON(out[i].value) < out[j].key+docs.JSON(out[j].value) })
		return out
	}()
	flows := M{}
	for i, f := range []string{"implicit", "password", "clientCredentials", "authorizationCode"} {
		x := M{"refreshUrl": "r", "availableScopes": M{"a:b": "c"}, "scopes": M{"a:b": "c"}}
		if i%3 == 0 {
			x["authorizationUrl"] = "a"
		}
		if i > 0 {
			x["tokenUrl"] = "t"
		}
		flows[f] = x
	}
	schemes := L{M{"type": "userPassword"}, M{"type": "apiKey", "in": "user", "description": "d"}, M{"type": "X509"}, M{"type": "symmetricEncryption"}, M{"type": "http", "scheme": "bearer", "bearerFormat": "JWT"},
		M{"type": "httpApiKey", "name": "n", "in": "header"}, M{"type": "oauth2", "flows": flows, "scopes": L{"a:b"}}, M{"type": "openIdConnect", "openIdConnectUrl": "u", "scopes": L{}}, M{"type": "scramSha256"}, M{"type": "gssapi"}}
	cat := func(ls ...[]word) (out []word) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return out
	}
	examples := func(key string, wrap func(any) any) (out []word) {
		for _, x := range anything {
			out = append(out, word{key: key, value: L{wrap(x)}}, word{key: key, value: L{wrap("first"), wrap(x)}})
		}
		return out
	}
	plain := func(x any) any { return x }
	schema := cat(titles[:1], ed, describe, examples("examples", plain), []word{
		{key: "multipleOf", value: 2}, {key: "multipleOf", value: 0.01}, {key: "multipleOf", value: 10}, {key: "maxItems", value: 3}, {key: "minItems", value: 0}, {key: "minProperties", value: 1}, {key: "maxProperties", value: 30},
		{key: "pattern", value: "^[a-z`\"\\\\]+$"}, {key: "readOnly", value: true}, {key: "readOnly", value: false}, {key: "writeOnly", value: true}, {key: "deprecated", value: true},
		{key: "discriminator", value: "k"}, {key: "if", value: M{"required": L{"k"}}}, {key: "then", value: M{"required": L{"q"}}}, {key: "else", value: false}, {key: "definitions", value: M{"d": M{"type": "string"}}},
		{key: "dependencies", value: M{"a": L{"b"}}}, {key: "$id", value: "http://x/y.json"}, {key: "$schema", value: "http://json-schema.org/draft-07/schema#"}, {key: "$comment", value: "c"}, {key: "contentEncoding", value: "base64"}, {key: "contentMediaType", value: "image/png"},
		{key: "not", value: M{"required": L{"zz"}}}, {key: "not", value: false}, {key: "required", value: L{}}, {key: "required", value: L{"zz"}}, {key: "enum", value: L{1, "a", nil, true, L{}, M{}}}, {key: "const", value: 3, only: typed("object", "array", "integer", "boolean")}, {key: "const", value: nil},
		{key: "patternProperties", value: M{"^a.*$": M{"type": "string"}, "b": true, "c": obj(M{"i": str()})}}, {key: "propertyNames", value: M{"pattern": "^a"}}, {key: "propertyNames", value: true}, {key: "propertyNames", value: false},
		{key: "contains", value: M{"type": "string"}}, {key: "contains", value: true}, {key: "contains", value: obj(M{"i": obj(M{"j": str()})})}, {key: "additionalItems", value: M{"type": "string"}}, {key: "additionalItems", value: false}, {key: "additionalItems", value: true},
		{key: "additionalProperties", value: false}, {key: "additionalProperties", value: true, changes: true, only: typed("object")}, {key: "additionalProperties", value: true, only: typed("string", "array", "integer", "boolean")},
		{key: "additionalProperties", value: M{}, changes: true, only: typed("object")}, {key: "additionalProperties", value: M{"type": "object", "additionalProperties": false, "properties": M{"any": true}}, changes: true, only: typed("object")},
		{key: "format", value: "email", only: typed("string", "boolean", "array", "object", "integer", "number")}, {key: "format", value: "date-time", only: typed("boolean", "array", "object", "integer", "number")}, {key: "format", value: "date", only: typed("boolean", "array", "object", "integer", "number")},
		{key: "format", value: "int32", only: typed("string", "boolean", "array", "object")}, {key: "format", value: "float", only: typed("string", "boolean", "array", "object")}, {key: "format", value: "double", only: typed("number")}, {key: "format", value: "int64", only: typed("integer")},
		{key: "minLength", value: 3, changes: true}, {key: "maximum", value: 30.5, changes: true}, {key: "uniqueItems", value: false},
	})
	for _, k := range []string{"maxItems", "minItems", "maxProperties", "minProperties", "maxLength", "minLength"} {
		for _, x := range []any{0, 1, 200, 300, 70000, 4294967296} {
			schema = append(schema, word{key: k, value: x, changes: true})
		}
	}
	for _, k := range []string{"maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum"} {
		for _, x := range []any{0, -1, -0.5, 1e-7, 3000000000, 9007199254740993, 1e21} {
			schema = append(schema, word{key: k, value: x, changes: true})
		}
	}
	for _, x := range anything {
		schema = append(schema, word{key: "default", value: x})
	}
	// schemas that are no or little restriction
	var components []word
	for i, x := range loose {
		schema = append(schema, word{key: fmt.Sprint("zz", i), value: x, changes: true, more: "properties"}, word{key: "additionalProperties", value: x, changes: true, only: typed("object")})
		components = append(components, word{key: fmt.Sprint("zz", i), value: x, changes: true, more: "schemas"}, word{key: fmt.Sprint("zz", i), value: M{"payload": x}, changes: true, more: "messages"})
	}
	if v == 2 {
		return map[string][]word{
			"Root": cat(tags, ed, []word{{key: "id", value: "urn:a:b"}, {key: "defaultContentType", value: "application/json"},
				{key: "servers", value: M{"s": M{"url": "{u}.x", "protocol": "kafka", "protocolVersion": "1", "description": "d", "variables": M{"u": M{"enum": L{"a"}, "default": "a", "description": "d", "examples": L{"a"}}}, "security": L{M{"s": L{}}, M{"o": L{"a:b"}}}, "tags": L{M{"name": "n"}}, "bindings": M{"kafka": M{}}}, "r": ref("#/components/servers/s")}}}),
			"Info":      cat(describe[:0], []word{{key: "termsOfService", value: "t"}, {key: "contact", value: M{"name": "n", "url": "u", "email": "e"}}, {key: "license", value: M{"name": "n", "url": "u"}}, {key: "description", value: "d\n`\"*/"}}),
			"Channel":   cat([]word{{key: "description", value: "d\n`\"*/", changes: true}, {key: "servers", value: L{"s", "t"}}}, bindings),
			"Parameter": {{key: "location", value: "$message.payload#/x/y"}, {key: "description", value: "d\n*/", changes: true}},
			"Operation": cat(tags, ed, bindings, titles[1:], []word{{key: "description", value: "d\n`\"*/", changes: true}, {key: "security", value: L{M{"s": L{}}}}, {key: "traits", value: L{M{"summary": "s", "operationId": "other", "tags": L{M{"name": "n"}}}, ref("#/components/operationTraits/x")}}}),
			"Message": cat(tags, ed, bindings, titles, describe, []word{{key: "name", value: "n\n"}, {key: "messageId", value: "mid"}, {key: "contentType", value: "application/json"}, {key: "schemaFormat", value: "application/vnd.aai.asyncapi+json;version=2.6.0"}},
				examples("examples", func(x any) any { return M{"name": "n", "payload": x, "headers": M{"h": x}} })),
			"Correlation": describe,
			"Components": append(components, []word{{key: "servers", value: M{"s": M{"url": "u", "protocol": "p"}}}, {key: "serverVariables", value: M{"s": M{"default": "u"}}}, {key: "channels", value: M{"c": M{"subscribe": M{"message": M{"payload": str()}}}}}, {key: "securitySchemes", value: M{"a": schemes[0], "b": schemes[4], "c": schemes[6]}},
				{key: "operationTraits", value: M{"x": M{"summary": "s", "bindings": M{"kafka": M{"groupId": 1}}}}}, {key: "messageTraits", value: M{"x": M{"summary": "s", "headers": obj(M{"a": str()})}}}, {key: "serverBindings", value: M{"x": M{"kafka": M{}}}}, {key: "channelBindings", value: M{"x": bindings[2].value}}, {key: "operationBindings", value: M{"x": bindings[2].value}}, {key: "messageBindings", value: M{"x": bindings[3].value}}}...),
			"Schema": schema,
		}
	}
	server := M{"host": "{u}.x:1", "protocol": "kafka", "protocolVersion": "1", "pathname": "/p", "description": "d", "title": "t", "summary": "s", "variables": M{"u": M{"enum": L{"a"}, "default": "a", "description": "d", "examples": L{"a"}}}, "security": schemes, "tags": L{M{"name": "n"}}, "externalDocs": M{"url": "u"}, "bindings": M{"kafka": M{"schemaRegistryUrl": "u"}}}
	return map[string][]word{
		"Root":    {{key: "id", value: "urn:a:b"}, {key: "defaultContentType", value: "application/json"}, {key: "servers", value: M{"s": server}}},
		"Info":    cat(tags, ed, []word{{key: "termsOfService", value: "t"}, {key: "contact", value: M{"name": "n", "url": "u", "email": "e"}}, {key: "license", value: M{"name": "n", "url": "u"}}, {key: "description", value: "d\n`\"*/"}}),
		"Contact": {{key: "url", value: "u"}, {key: "email", value: "e"}}, "License": {{key: "url", value: "u"}},
		"Tag": cat(ed, []word{{key: "description", value: "d"}}), "Docs": {{key: "description", value: "d"}},
		"Server":         cat(tags, ed, bindings, titles, []word{{key: "description", value: "d"}, {key: "protocolVersion", value: "1.2"}, {key: "pathname", value: "/p/{v}"}, {key: "variables", value: server["variables"]}, {key: "security", value: schemes}, {key: "security", value: L{}}, {key: "security", value: L{ref("#/components/securitySchemes/sec"), schemes[6]}}}),
		"Variable":       {{key: "enum", value: L{"a", "b"}}, {key: "default", value: "a"}, {key: "description", value: "d"}, {key: "examples", value: L{"a"}}},
		"Security":       {{key: "description", value: "d"}, {key: "in", value: "user"}, {key: "name", value: "n"}, {key: "scheme", value: "basic"}, {key: "bearerFormat", value: "JWT"}, {key: "flows", value: flows}, {key: "openIdConnectUrl", value: "u"}, {key: "scopes", value: L{"a"}}},
		"Channel":        cat(tags, ed, bindings, titles, []word{{key: "description", value: "d\n`\"*/", changes: true}, {key: "servers", value: L{}}, {key: "servers", value: L{ref("#/servers/srv"), ref("#/components/servers/csrv")}}}),
		"Parameter":      {{key: "location", value: "$message.payload#/x/y"}, {key: "description", value: "d\n*/", changes: true}, {key: "enum", value: L{"a"}}, {key: "default", value: "a"}, {key: "examples", value: L{"a", "b"}}},
		"Operation":      cat(tags, ed, bindings, titles, []word{{key: "description", value: "d\n`\"*/", changes: true}, {key: "security", value: schemes}, {key: "security", value: L{ref("#/components/securitySchemes/sec")}}, {key: "traits", value: L{}}, {key: "traits", value: L{M{"title": "s", "security": schemes, "bindings": bindings[2].value}, ref("#/components/operationTraits/otrait")}}}),
		"OperationTrait": cat(tags, ed, bindings, titles, []word{{key: "security", value: schemes}}),
		"Message": cat(tags, ed, bindings, titles, describe, []word{{key: "contentType", value: "application/json"}, {key: "name", value: "n"}},
			examples("examples", func(x any) any { return M{"name": "n", "summary": "s", "payload": x, "headers": M{"h": x}} })),
		"MessageTrait": cat(tags, ed, bindings, titles, []word{{key: "contentType", value: "application/json"}, {key: "name", value: "n"}},
			examples("examples", func(x any) any { return M{"payload": x} })),
		"Example":     {{key: "summary", value: "s"}, {key: "headers", value: M{"a": 1}}, {key: "name", value: "n"}},
		"Correlation": {{key: "description", value: "d\n`\"*/"}}, "Reply": {}, "ReplyAddress": {{key: "description", value: "d\n`\"*/"}},
		"Components": components,
		"Schema":     schema, "ServerBindings": ofBinding, "ChannelBindings": ofBinding, "OperationBindings": ofBinding, "MessageBindings": ofBinding,
	}
}

// extensions go everywhere.
func extensions() (out []word) {
	for _, x := range anything {
		out = append(out, word{key: "x-own", value: x})
	}
	return append(out, word{key: "x-", value: M{"type": "string"}}, word{key: "x-go-types", value: "s"})
}

func pathString(p []any) string {
	s := "#"
	for _, x := range p {
		s += fmt.Sprint("/", x)
	}
	return s
}

// use of a word somewhere
type use struct {
	place
	word
}

func (u use) String() string {
	s := docs.JSON(u.value)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return fmt.Sprintf("%s (%s): %s%s: %s", pathString(u.path), u.kind, u.more, u.key, s)
}

func (u use) in(d any) any {
	at := append([]any{}, u.path...)
	if u.more != "" {
		at = append(at, u.more)
	}
	return docs.Set(d, append(at, u.key), u.value)
}

// uses of the vocabulary in a document.
func uses(v int, d M) (out []use) {
	var ps []place
	places(grammar(v), "Root", nil, d, &ps)
	ws := words(v)
	for _, p := range ps {
		for _, w := range append(append([]word{}, ws[p.kind]...), extensions()...) {
			at := p.at
			if w.more != "" {
				m, ok := at[w.more].(M)
				if !ok {
					continue
				}
				at = m
			}
			if _, has := at[w.key]; has || w.only != nil && !w.only(p.at) {
				continue
			}
			out = append(out, use{p, w})
		}
	}
	return out
}

func verdict(d any, same string, src string) []string {
	r := gen.Run(d, gen.Opts{Raw: true})
	if f := r.Failed(); f != "" {
		return []string{f}
	}
	if same != "" {
		if r.Src != src {
			g, w := strings.Split(r.Src, "\n"), strings.Split(src, "\n")
			for i := range g {
				if i >= len(w) || g[i] != w[i] {
					return []string{fmt.Sprintf("the generated code changes: line %d is %q", i+1, strings.TrimSpace(g[i]))}
				}
			}
			return []string{"the generated code changes: it ends earlier"}
		}
		return nil
	}
	if r.Src == src {
		return nil
	}
	_, errs := gen.Check(r.Src, true)
	return errs
}

func main() {
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		for _, v := range []int{3, 2} {
			base := docs.V2()
			if v == 3 {
				base = docs.V3()
			}
			src := gen.Run(base, gen.Opts{Raw: true})
			e.Section(fmt.Sprintf("v%d: one element", v))
			if f := src.Failed(); f != "" {
				e.Fail("base document", "%s", f)
				continue
			}
			all := uses(v, base)
			for _, u := range all {
				u := u
				e.Case(u.String(), func() ([]string, bool) {
					same := "same"
					if u.changes {
						same = ""
					}
					return verdict(u.in(base), same, src.Src), true
				})
			}
			e.Section(fmt.Sprintf("v%d: all the elements of a kind", v))
			byWord := map[string][]use{}
			var keys []string
			for _, u := range all {
				k := u.kind + " " + u.key + docs.JSON(u.value)
				if byWord[k] == nil {
					keys = append(keys, k)
				}
				byWord[k] = append(byWord[k], u)
			}
			for _, k := range keys {
				us := byWord[k]
				e.Case(k+" everywhere", func() ([]string, bool) {
					var d any = base
					for _, u := range us {
						d = u.in(d)
					}
					same := "same"
					for _, u := range us {
						if u.changes {
							same = ""
						}
					}
					return verdict(d, same, src.Src), true
				})
			}
			if !e.Thorough {
				continue
			}
			e.Section(fmt.Sprintf("v%d: two elements", v))
			for i, u := range all {
				for j, w := range all[:i] {
					if (i*7+j)%11 != 0 && u.kind != w.kind || u.key == w.key && pathString(u.path) == pathString(w.path) {
						continue
					}
					u, w := u, w
					e.Case(w.String()+"; "+u.String(), func() ([]string, bool) {
						same := "same"
						if u.changes || w.changes {
							same = ""
						}
						return verdict(u.in(w.in(base)), same, src.Src), true
					})
				}
			}
		}
	})
}
