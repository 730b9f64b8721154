package main

import (
	"fmt"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

// product calls f with every combination of one of each alternatives; dev limits the
// number of the soft ones (from index soft on) which are not the first.
func product(alts [][]string, soft, dev int, f func(c []string)) {
	c := make([]string, len(alts))
	var rec func(i, dev int)
	rec = func(i, dev int) {
		if i == len(alts) {
			f(append([]string{}, c...))
			return
		}
		for j, a := range alts[i] {
			d := dev
			if i >= soft && j > 0 {
				if d--; d < 0 {
					break
				}
			}
			c[i] = a
			rec(i+1, d)
		}
	}
	rec(0, dev)
}

// message of a form of payload and of correlation, with the headers given.
func message(payload, corr string, headers M, required L) M {
	var p M
	switch payload {
	case "str":
		p = str()
	case "obj":
		p = obj(M{"a": str(), "b": obj(M{"c": str()})}, "required", L{"a"})
	case "ref":
		p = ref("#/components/schemas/body")
	case "arr":
		p = M{"type": "array", "items": obj(M{"z": str()})}
	}
	hs := M{}
	for k, v := range headers {
		hs[k] = v
	}
	msg := M{"payload": p}
	switch corr {
	case "undeclared":
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "undeclared required":
		required = append(append(L{}, required...), "cid")
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "optional", "required", "component":
		hs["cid"] = str()
		if corr == "required" {
			required = append(append(L{}, required...), "cid")
		}
		msg["correlationId"] = M{"location": "$message.header#/cid"}
		if corr == "component" {
			msg["correlationId"] = ref("#/components/correlationIds/ci")
		}
	case "payload":
		msg["correlationId"] = M{"location": "$message.payload#/cid"}
		if payload != "obj" {
			p = obj(M{"cid": str()})
			msg["payload"] = p
		}
	case "nested":
		msg["correlationId"] = M{"location": "$message.payload#/b/c"}
		if payload != "obj" {
			msg["payload"] = obj(M{"b": obj(M{"c": str()}, "required", L{"c"})}, "required", L{"b"})
		}
	case "ref":
		hs["cid"] = ref("#/components/schemas/id")
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "refRef required":
		hs["cid"] = ref("#/components/schemas/idRef")
		required = append(append(L{}, required...), "cid")
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "headers":
		msg["correlationId"] = M{"location": "$message.header#/in.ner/c-id"}
	case "through reference":
		msg["correlationId"] = M{"location": "$message.payload#/in/deep/cid"}
		msg["payload"] = obj(M{"in": ref("#/components/schemas/inner")})
	case "new through reference":
		msg["correlationId"] = M{"location": "$message.payload#/in/new/cid"}
		msg["payload"] = obj(M{"in": ref("#/components/schemas/inner")})
	case "number":
		hs["cid"] = M{"type": "integer"}
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "array":
		msg["correlationId"] = M{"location": "$message.payload#/cid"}
		msg["payload"] = M{"type": "array", "items": str()}
	case "any":
		hs["cid"] = M{}
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	case "date":
		hs["cid"] = str("format", "date-time")
		msg["correlationId"] = M{"location": "$message.header#/cid"}
	}
	if c, ok := msg["correlationId"]; ok {
		msg["correlationID"] = c // both spellings
	}
	if len(hs) > 0 || len(required) > 0 {
		h := obj(hs)
		if len(required) > 0 {
			h["required"] = required
		}
		msg["headers"] = h
	}
	return msg
}

var corrs = []string{"none", "undeclared", "optional", "required", "component", "undeclared required", "payload", "nested", "ref", "refRef required", "headers", "through reference", "new through reference", "date", "number", "array", "any"}

var mainCorrs = []string{"none", "undeclared", "optional", "required"}

// The forms whose first alternative is "" replace the main ones.
func operations3(e *enum.E) {
	mainReplies := []string{"none", "static none", "static required", "dynReq required", "dynOpt optional", "dynPayload required", "params none", "sameParams required", "dynChanAddr required"}
	replies := []string{""}
	for _, k := range []string{"static", "dynReq", "dynOpt", "dynNew", "dynPayload", "dynChanAddr", "params", "sameParams", "noAddr"} {
		for _, c := range []string{"none", "required", "optional"} {
			if r := k + " " + c; !in(mainReplies, r) {
				replies = append(replies, r)
			}
		}
	}
	alts := [][]string{{"send", "receive"}, {"c", "c.{p}", ""}, mainCorrs, mainReplies,
		append([]string{""}, corrs[len(mainCorrs):]...), replies,
		{"inline", "component channel"}, {"inline", "component message", "two messages"}, {"unlisted", "listed"}, {"str", "obj", "ref", "arr"},
		{"inline", "component reply"}, {"listed", "unlisted"}, {"defaults", "forcePtr", "camel", "kebab", "raw"}, {"one", "both"}}
	dev := 1
	if e.Thorough {
		dev = 2
	}
	product(alts, 4, dev, func(c []string) {
		if c[4] != "" && c[2] != "none" || c[5] != "" && c[3] != "none" {
			return
		}
		if c[4] != "" {
			c[2] = c[4]
		}
		if c[5] != "" {
			c[3] = c[5]
		}
		c = append(c[:4:4], c[6:]...)
		if strings.HasPrefix(c[3], "none") && (c[8] != "inline" || c[9] != "listed") {
			return
		}
		e.Case(strings.Join(c, ", "), func() ([]string, bool) {
			doc, known := op3(c)
			if known {
				return compiles(doc, opOpts(c[10]))
			}
			return must(doc, opOpts(c[10]))
		})
	})
}

func opOpts(name string) (o gen.Opts) {
	switch name {
	case "forcePtr":
		o.ForcePtr = true
	case "camel":
		o.Naming = "camel"
	case "kebab":
		o.Keys = "kebab"
	case "raw":
		o.Raw = true
	}
	return o
}

func badCorr(corr string) bool {
	return corr == "date" || corr == "number" || corr == "array" || corr == "any"
}

func op3(c []string) (doc M, unsupported bool) {
	action, address, corr, reply, chanForm, msgForm, listed, payload, replyForm, replyListed, two := c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[11]
	hs, required := M{}, L(nil)
	rk, rcorr, _ := strings.Cut(reply, " ")
	if rk == "dynReq" || rk == "dynOpt" || rk == "dynChanAddr" {
		hs["replyTo"] = str()
		if rk != "dynOpt" {
			required = L{"replyTo"}
		}
	}
	msg := message(payload, corr, hs, required)
	if rk == "dynPayload" {
		pl := docs.Copy(msg["payload"]).(M)
		if pl["properties"] == nil {
			pl = obj(M{})
		}
		pl["properties"].(M)["to"] = str()
		msg["payload"] = pl
	}
	comps := M{"schemas": M{"body": obj(M{"k": str()}), "id": str("maxLength", 40), "idRef": ref("#/components/schemas/id"), "inner": obj(M{"deep": obj(M{"cid": str()})})}, "correlationIds": M{"ci": M{"location": "$message.header#/cid"}}, "messages": M{}, "channels": M{}, "replies": M{}}
	var m any = msg
	if msgForm == "component message" {
		comps["messages"].(M)["cm"] = msg
		m = ref("#/components/messages/cm")
	}
	ch := M{"address": address, "messages": M{"m": m}}
	if address == "" {
		delete(ch, "address")
	}
	if msgForm == "two messages" {
		ch["messages"].(M)["m2"] = message("str", corr, hs, required)
	}
	if strings.Contains(address, "{") {
		ch["parameters"] = M{"p": M{"description": "d"}}
	}
	chans := M{"ch": ch}
	if chanForm == "component channel" {
		comps["channels"].(M)["cch"] = ch
		chans["ch"] = ref("#/components/channels/cch")
	}
	op := M{"action": action, "channel": ref("#/channels/ch")}
	at := "#/channels/ch/messages/m"
	if chanForm == "component channel" {
		at = "#/components/channels/cch/messages/m"
	}
	if listed == "listed" {
		op["messages"] = L{ref(at)}
	}
	if rk != "none" {
		rmsg := message("obj", rcorr, nil, nil)
		rch := M{"address": "r", "messages": M{"rm": rmsg}}
		r := M{"channel": ref("#/channels/rch")}
		if replyListed == "listed" {
			r["messages"] = L{ref("#/channels/rch/messages/rm")}
		}
		switch rk {
		case "dynReq", "dynOpt", "dynNew":
			delete(rch, "address")
			r["address"] = M{"location": "$message.header#/replyTo"}
		case "dynPayload":
			delete(rch, "address")
			r["address"] = M{"location": "$message.payload#/to"}
		case "dynChanAddr":
			r["address"] = M{"location": "$message.header#/replyTo"}
		case "noAddr":
			delete(rch, "address")
		case "sameParams":
			rch["address"] = "r.{p}"
			rch["parameters"] = M{"p": M{}}
		case "params":
			rch["address"] = "r.{q}"
			rch["parameters"] = M{"q": M{}}
		}
		chans["rch"] = rch
		op["reply"] = r
		if replyForm == "component reply" {
			comps["replies"].(M)["crep"] = r
			op["reply"] = ref("#/components/replies/crep")
		}
	}
	ops := M{"op": op}
	if two == "both" {
		op2 := docs.Copy(op).(M)
		op2["action"] = map[string]string{"send": "receive", "receive": "send"}[action]
		ops["op2"] = op2
	}
	// what is not supported, and may be an error
	unsupported = badCorr(corr) || rk == "noAddr" || rk == "dynPayload" && (msgForm == "two messages" || corr == "array")
	return M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1.0.0"}, "channels": chans, "operations": ops, "components": comps}, unsupported
}

func operations2(e *enum.E) {
	alts := [][]string{{"publish", "subscribe", "both"}, {"c", "c.{p}", "c.{p}.{q}"}, mainCorrs, {"inline", "component", "oneOf", "oneOf components", "alias"},
		append([]string{""}, corrs[len(mainCorrs):]...), {"str", "obj", "ref", "arr"},
		{"no id", "id"}, {"inline parameter", "component parameter", "no schema", "undeclared parameter"}, {"defaults", "forcePtr", "camel", "kebab", "raw"}}
	dev := 1
	if e.Thorough {
		dev = 3
	}
	product(alts, 4, dev, func(c []string) {
		if c[4] != "" {
			if c[2] != "none" {
				return
			}
			c[2] = c[4]
		}
		c = append(c[:4:4], c[5:]...)
		e.Case(strings.Join(c, ", "), func() ([]string, bool) {
			if badCorr(c[2]) {
				return compiles(op2(c), opOpts(c[7]))
			}
			return must(op2(c), opOpts(c[7]))
		})
	})
}

func op2(c []string) M {
	dir, address, corr, form, payload, id, param := c[0], c[1], c[2], c[3], c[4], c[5], c[6]
	comps := M{"schemas": M{"body": obj(M{"k": str()}), "id": str("maxLength", 40), "idRef": ref("#/components/schemas/id"), "inner": obj(M{"deep": obj(M{"cid": str()})})}, "correlationIds": M{"ci": M{"location": "$message.header#/cid"}}, "messages": M{}, "parameters": M{"cp": M{"schema": str()}}}
	ch := M{}
	for _, p := range []string{"p", "q"} {
		if !strings.Contains(address, "{"+p+"}") {
			continue
		}
		var v any
		switch param {
		case "inline parameter":
			v = M{"schema": str(), "description": "d"}
		case "component parameter":
			v = ref("#/components/parameters/cp")
		case "no schema":
			v = M{}
		default:
			continue
		}
		if ch["parameters"] == nil {
			ch["parameters"] = M{}
		}
		ch["parameters"].(M)[p] = v
	}
	for i, d := range []string{"publish", "subscribe"} {
		if dir != d && dir != "both" {
			continue
		}
		msg := message(payload, corr, nil, nil)
		name := fmt.Sprintf("cm%d", i)
		var m any = msg
		switch form {
		case "component":
			comps["messages"].(M)[name] = msg
			m = ref("#/components/messages/" + name)
		case "alias":
			comps["messages"].(M)[name] = msg
			comps["messages"].(M)["al"+name] = ref("#/components/messages/" + name)
			m = ref("#/components/messages/al" + name)
		case "oneOf":
			m = M{"oneOf": L{msg, message("obj", corr, nil, nil)}}
		case "oneOf components":
			comps["messages"].(M)[name] = msg
			comps["messages"].(M)[name+"b"] = message("obj", corr, nil, nil)
			m = M{"oneOf": L{ref("#/components/messages/" + name), ref("#/components/messages/" + name + "b")}}
		}
		op := M{"message": m}
		if id == "id" {
			op["operationId"] = "do" + d
		}
		ch[d] = op
	}
	return M{"asyncapi": "2.6.0", "info": M{"title": "T", "version": "1.0.0"}, "channels": M{address: ch}, "components": comps}
}
