package main

import (
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

// words are the names; most collide with others or with what is generated once converted.
var words = []string{"alpha", "alphaBeta", "alpha_beta", "Alpha beta", "alpha{x}", "alpha{x}{y}", "1alpha", "é", "_", "additionalProperties", "marshalJSON", "alpha message", "alpha schema", "type", "string", "controller", "Error", "AppController",
	"app_subscriber", "context", "extensions", "asyncAPIVersion", "channelsPaths", "withLogger", "message with correlation ID", "controller option", "receive alpha", "headers", "payload", "correlationID", "setCorrelationID", "close", "alpha payload", "alpha parameters", "alpha path", "alpha message payload", "alpha message headers", "messageFromAlphaChannel", "subscribe to all channels", "error", "op received", "controllerr"}

var short = []string{"alpha", "alpha_beta", "alpha message", "alpha schema", "alpha payload", "alpha parameters", "error", "alpha path", "alpha message payload", "alpha message from beta channel", "alpha additional properties", "alpha received", "item from alpha schema"}

// kinds of names; f puts names in a document.
type kind struct {
	name string
	put  func(version int, d M, names ...string)
}

func sub(d M, keys ...string) M {
	for _, k := range keys {
		if d[k] == nil {
			d[k] = M{}
		}
		d = d[k].(M)
	}
	return d
}

func esc(s string) string { return strings.NewReplacer("~", "~0", "/", "~1").Replace(s) }

var kinds = []kind{
	{"schemas", func(v int, d M, names ...string) {
		for _, n := range names {
			sub(d, "components", "schemas")[n] = obj(M{"x": obj(M{"y": str()}), "l": M{"type": "array", "items": obj(M{"z": str()})}})
		}
	}},
	{"array schemas", func(v int, d M, names ...string) {
		for _, n := range names {
			sub(d, "components", "schemas")[n] = M{"type": "array", "items": obj(M{"z": str()})}
		}
	}},
	{"schemas with additional", func(v int, d M, names ...string) {
		for _, n := range names {
			sub(d, "components", "schemas")[n] = obj(M{"p": str()}, "additionalProperties", obj(M{"n": str()}))
		}
	}},
	{"component messages", func(v int, d M, names ...string) {
		for _, n := range names {
			sub(d, "components", "messages")[n] = M{"payload": obj(M{"x": str()}), "headers": obj(M{"h": str()})}
		}
	}},
	{"properties", func(v int, d M, names ...string) {
		p := M{}
		for _, n := range names {
			p[n] = obj(M{"y": str()})
		}
		sub(d, "components", "schemas")["holder"] = obj(p)
	}},
	{"properties with additional", func(v int, d M, names ...string) {
		p := M{}
		for _, n := range names {
			p[n] = str()
		}
		sub(d, "components", "schemas")["holder2"] = obj(p, "additionalProperties", M{"type": "integer"})
	}},
	{"headers", func(v int, d M, names ...string) {
		p := M{}
		for _, n := range names {
			p[n] = str()
		}
		sub(d, "components", "messages")["hm"] = M{"payload": str(), "headers": obj(p)}
	}},
	{"correlation", func(v int, d M, names ...string) {
		p := M{}
		for _, n := range names {
			p[n] = str()
		}
		sub(d, "components", "messages")["km"] = M{"payload": obj(p), "correlationId": M{"location": "$message.payload#/" + names[0]}, "correlationID": M{"location": "$message.payload#/" + names[0]}}
	}},
	{"parameters", func(v int, d M, names ...string) {
		a, p := "par", M{}
		for _, n := range names {
			a += ".{" + n + "}"
			p[n] = M{"description": "d"}
			if v == 2 {
				p[n] = M{"schema": str()}
			}
		}
		if v == 2 {
			sub(d, "channels")[a] = M{"publish": M{"message": M{"payload": str()}}, "parameters": p}
			return
		}
		sub(d, "channels")["par"] = M{"address": a, "parameters": p, "messages": M{"pm": M{"payload": str()}}}
		sub(d, "operations")["pop"] = M{"action": "receive", "channel": ref("#/channels/par")}
	}},
	{"channels", func(v int, d M, names ...string) {
		for _, n := range names {
			if v == 2 {
				sub(d, "channels")[n] = M{"publish": M{"message": M{"payload": str()}}, "parameters": M{"x": M{"schema": str()}}}
				continue
			}
			sub(d, "channels")[n] = M{"address": "ad", "messages": M{"cm": M{"payload": str()}}, "parameters": M{"x": M{}}}
			sub(d, "operations")["op for "+n] = M{"action": "send", "channel": ref("#/channels/" + esc(n))}
		}
	}},
	{"operations", func(v int, d M, names ...string) {
		for i, n := range names {
			if v == 2 {
				sub(d, "channels")["opch"+string(rune('a'+i))] = M{"subscribe": M{"operationId": n, "message": M{"payload": str()}}}
				continue
			}
			sub(d, "channels")["opch"] = M{"address": "ad", "messages": M{"om": M{"payload": str()}}}
			sub(d, "operations")[n] = M{"action": "send", "channel": ref("#/channels/opch")}
		}
	}},
	{"replies", func(v int, d M, names ...string) {
		for i, n := range names {
			if v == 2 {
				sub(d, "channels")["both"+string(rune('a'+i))] = M{"publish": M{"operationId": n, "message": M{"payload": str()}}, "subscribe": M{"operationId": "s" + n, "message": M{"payload": str()}}}
				continue
			}
			sub(d, "channels")["rqch"] = M{"address": "ad", "messages": M{"om": M{"payload": str()}}}
			sub(d, "channels")[n] = M{"address": "rp", "messages": M{"rm": M{"payload": str()}}}
			sub(d, "operations")["rop"+string(rune('a'+i))] = M{"action": "receive", "channel": ref("#/channels/rqch"), "reply": M{"channel": ref("#/channels/" + esc(n))}}
		}
	}},
	{"operations on a shared reply", func(v int, d M, names ...string) {
		for _, n := range names {
			if v == 2 {
				continue
			}
			sub(d, "channels")["rqch2"] = M{"address": "ad", "messages": M{"om": M{"payload": str()}}}
			sub(d, "channels")["srch"] = M{"address": "rp", "messages": M{"rm": M{"payload": str()}}}
			sub(d, "operations")[n] = M{"action": "receive", "channel": ref("#/channels/rqch2"), "reply": M{"channel": ref("#/channels/srch")}}
		}
	}},
	{"channel messages", func(v int, d M, names ...string) {
		if v == 2 {
			for i, n := range names {
				sub(d, "channels")["named"+string(rune('a'+i))] = M{"subscribe": M{"message": M{"name": n, "payload": str()}}}
			}
			return
		}
		ms := M{}
		for _, n := range names {
			ms[n] = M{"payload": obj(M{"x": str()}), "headers": obj(M{"h": str()})}
		}
		sub(d, "channels")["msgs"] = M{"address": "ad", "messages": ms}
		sub(d, "operations")["mop"] = M{"action": "receive", "channel": ref("#/channels/msgs")}
	}},
	{"aliases of a channel", func(v int, d M, names ...string) {
		if v == 2 {
			return
		}
		sub(d, "components", "channels")["aliased"] = M{"address": "ad.{x}", "parameters": M{"x": M{}}, "messages": M{"am": M{"payload": str()}}}
		for _, n := range names {
			sub(d, "channels")[n] = ref("#/components/channels/aliased")
			sub(d, "operations")["aop "+n] = M{"action": "send", "channel": ref("#/channels/" + esc(n))}
		}
	}},
	{"aliases of a message", func(v int, d M, names ...string) {
		sub(d, "components", "messages")["aliasedm"] = M{"payload": str()}
		for i, n := range names {
			sub(d, "components", "messages")[n] = ref("#/components/messages/aliasedm")
			if v == 2 {
				sub(d, "channels")["ach"+string(rune('a'+i))] = M{"subscribe": M{"message": ref("#/components/messages/" + esc(n))}}
			} else {
				sub(d, "channels")["ach"+string(rune('a'+i))] = M{"address": "a", "messages": M{n: ref("#/components/messages/" + esc(n))}}
				sub(d, "operations")["o ach"+string(rune('a'+i))] = M{"action": "receive", "channel": ref("#/channels/ach" + string(rune('a'+i)))}
			}
		}
	}},
	{"aliases of an operation", func(v int, d M, names ...string) {
		if v == 2 {
			return
		}
		sub(d, "channels")["aoch"] = M{"address": "a", "messages": M{"m": M{"payload": str()}}}
		sub(d, "components", "operations")["aliasedo"] = M{"action": "send", "channel": ref("#/channels/aoch")}
		for _, n := range names {
			sub(d, "operations")[n] = ref("#/components/operations/aliasedo")
		}
	}},
}

func base(v int) M {
	if v == 2 {
		return M{"asyncapi": "2.6.0", "info": M{"title": "T", "version": "1.0.0"}, "channels": M{}, "components": M{"schemas": M{}, "messages": M{}}}
	}
	return M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"}, "channels": M{}, "operations": M{}, "components": M{"schemas": M{}, "messages": M{}}}
}

// plain names which are distinct once converted, and are not the ones of anything else.
var plain = []string{"alpha", "beta_gamma", "delta epsilon", "zetaEta"}

func names(e *enum.E, v int) {
	opts := []gen.Opts{{}, {Naming: "camel"}, {Raw: true}}
	words, list := words, short
	if e.Thorough {
		list = words
	} else {
		words, list = words[:24], short[:7]
	}
	for _, k := range kinds {
		for _, a := range plain {
			for _, b := range plain {
				if a == b {
					continue
				}
				a, b, k := a, b, k
				e.Case("plain "+k.name+" "+a+", "+b, func() ([]string, bool) {
					d := base(v)
					k.put(v, d, a, b)
					return must(d, gen.Opts{})
				})
			}
		}
		for i, a := range words {
			for j := i; j < len(words); j++ {
				for oi, o := range opts {
					if oi > 0 && !e.Thorough && j > i {
						continue
					}
					a, b, o, k := a, words[j], o, k
					e.Case(k.name+" "+a+", "+b+" "+opt(o), func() ([]string, bool) {
						d := base(v)
						if a == b {
							k.put(v, d, a)
						} else {
							k.put(v, d, a, b)
						}
						return compiles(d, o)
					})
				}
			}
		}
	}
	// names of two kinds
	for i, k := range kinds {
		for j, l := range kinds {
			if i >= j {
				continue
			}
			for _, a := range list {
				for _, b := range list {
					a, b, k, l := a, b, k, l
					e.Case(k.name+" "+a+", "+l.name+" "+b, func() ([]string, bool) {
						d := base(v)
						k.put(v, d, a)
						l.put(v, d, b)
						return compiles(d, gen.Opts{})
					})
				}
			}
		}
	}
}

var _ = docs.Copy
