package main

import (
	"fmt"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
)

// channel2 is a channel of version 2
type channel2 struct {
	key, name, params string
	// forms of the messages of the operations: 0 none, 1 inline, 2 a component, 3 with correlation identifier, 4 a component with it
	pub, sub int
	ids      int // operation IDs: bit 0 for publish, bit 1 for subscribe
}

func (c channel2) String() string {
	return fmt.Sprintf("{%s publish=%d subscribe=%d ids=%d}", c.key, c.pub, c.sub, c.ids)
}

func (c channel2) prop(op string, form int) string {
	switch form {
	case 2:
		return "UShared"
	case 4:
		return "UCorr"
	}
	return "U" + c.name + op
}

func (c channel2) doc() M {
	d := M{}
	for op, form := range map[string]int{"publish": c.pub, "subscribe": c.sub} {
		if form == 0 {
			continue
		}
		m := message(c.prop(op, form))
		switch form {
		case 2:
			m = docs.Ref("#/components/messages/shared")
		case 3:
			m["correlationId"] = M{"location": "$message.header#/cid"}
		case 4:
			m = docs.Ref("#/components/messages/correlated")
		}
		o := M{"message": m}
		if op == "publish" && c.ids&1 != 0 || op == "subscribe" && c.ids&2 != 0 {
			o["operationId"] = op + c.name + "Id"
		}
		d[op] = o
	}
	if c.params != "" {
		d["parameters"] = M{"id": M{"schema": docs.Str()}}
	}
	return d
}

// operation name: the identifier of the operation, or the name of the channel
func (c channel2) operation() string {
	switch {
	case c.pub != 0 && c.ids&1 != 0:
		return "Publish" + c.name + "Id"
	case c.sub != 0 && c.ids&2 != 0:
		return "Subscribe" + c.name + "Id"
	}
	return c.name
}

func (c channel2) expected(app bool, want map[string]string) {
	name := c.operation()
	msg := func(op string, form int) string { return "msg:" + c.prop(op, form) }
	recv, send, recvForm, sendForm := "subscribe", "publish", c.sub, c.pub
	if app { // operations are those of the user
		recv, send, recvForm, sendForm = "publish", "subscribe", c.pub, c.sub
	}
	if recvForm != 0 {
		m := msg(recv, recvForm)
		fn := "(Context " + m + ")"
		want["Subscriber."+name] = fn + "(error)"
		want["Subscribe"+name] = args("Context", c.params, fn+"(error)") + "(error)"
		want["Unsubscribe"+name] = args("Context", c.params) + "()"
		want["SubscribeAll"] = "(Context " + map[bool]string{true: "App", false: "User"}[app] + "Subscriber)(error)"
		want["UnsubscribeAll"] = "(Context)()"
		if !app && recvForm >= 3 {
			want["WaitFor"+name] = args("Context", c.params, "MessageWithCorrelationID", "(Context)(error)") + "(" + m + " error)"
		}
	}
	if sendForm != 0 {
		want["Publish"+name] = args("Context", c.params, msg(send, sendForm)) + "(error)"
	}
}

func case2(e *enum.E, part string, chs ...channel2) {
	e.Case(fmt.Sprintf("%s %v", part, chs), func() ([]string, bool) {
		corr := message("UCorr")
		corr["correlationId"] = M{"location": "$message.payload#/UCorr"}
		d := M{"asyncapi": "2.6.0", "info": M{"title": "T", "version": "1"}, "channels": M{},
			"components": M{"messages": M{"shared": message("UShared"), "correlated": corr}, "schemas": M{"unused": docs.Obj(M{"k": docs.Str()})}}}
		addrs := map[string]bool{}
		for _, c := range chs {
			d["channels"].(M)[c.key] = c.doc()
			addrs[c.key] = true
		}
		return verdict(d, part, addrs, func(app bool) map[string]string {
			w := map[string]string{}
			for _, c := range chs {
				c.expected(app, w)
			}
			return w
		}), len(chs) > 0
	})
}

func channels2(key string, forms []int) []channel2 {
	c := channel2{key: key, name: strings.ToUpper(key[:1]) + strings.ReplaceAll(key[1:], "{id}", "Id")}
	if strings.Contains(key, "{id}") {
		c.params = "{Id}"
	}
	var out []channel2
	for _, c.pub = range forms {
		for _, c.sub = range forms {
			for c.ids = 0; c.ids < 4; c.ids++ {
				if c.ids&1 != 0 && c.pub == 0 || c.ids&2 != 0 && c.sub == 0 {
					continue
				}
				out = append(out, c)
			}
		}
	}
	return out
}

func v2(e *enum.E) {
	all := []int{0, 1, 2, 3, 4}
	e.Section("v2 one channel")
	for _, part := range parts {
		case2(e, part)
	}
	for _, key := range []string{"one", "two{id}"} {
		for _, c := range channels2(key, all) {
			for _, part := range parts {
				case2(e, part, c)
			}
		}
	}
	e.Section("v2 two channels")
	second := []int{0, 1, 4}
	if e.Thorough {
		second = all
	}
	for _, c := range channels2("one", all) {
		for _, d := range channels2("two{id}", second) {
			case2(e, "uat", c, d)
		}
	}
}
