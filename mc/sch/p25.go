package sch

import (
	"fmt"

	"verifmc/docs"
)

// P25Types are the types of the parameters by name (version 2).
var P25Types = map[string]M{"id": docs.Str(), "n": typ("integer", ""), "i": typ("integer", "int32"), "f": typ("number", ""), "b": typ("boolean", ""), "user_id": docs.Str(), "other-id": nil, "userName": docs.Str()}

// Addresses of channels: the expressions are of the parameters of which there is an expression.
var Addresses = []string{"a/{id}", "{id}", "{id}/a", "a/{id}/b/{user_id}", "{user_id}{id}", "a.{other-id}.{userName}", "a/{id}/{id}", "{id}-{user_id}-{id}", "p%/{id}", "%d/{id}", "%%{id}%s", "100%.{id}", "{id}%", "a b/{id}", "é/{id}", "a\"b/{id}", "a\\b/{id}", "$x/{id}", "x{}y/{id}", "{{id}}", "}{id}{", "{id}}", "a/{ID}",
	"plain", "%plain", "pl%sain", "a\\tb", "a{id", "\"", "a/*/>", "a/{unknown}", "a/{unknown}/{id}"}

// Typed addresses, of version 2.
var Typed = []string{"a/{n}", "a/{i}/{b}", "{f}", "{b}{n}%"}

func p25() []Pkg {
	var out []Pkg
	for _, v := range []int{3, 2} {
		for _, naming := range []string{"", "camel"} {
			var msgs []Msg
			list := Addresses
			if v == 2 {
				list = append(append([]string{}, list...), Typed...)
			}
			for _, receive := range []bool{false, true} {
				for _, a := range list {
					a += fmt.Sprintf("/x%d", len(msgs)) // not the name of another channel
					msgs = append(msgs, Msg{Label: a, Address: a, Params: params(a, v), Payload: docs.Str(), Receive: receive})
				}
			}
			p := Pkg{Name: fmt.Sprintf("v%d%s", v, naming), Version: v, Msgs: msgs, Schemas: M{}}
			if naming != "" {
				p.Args = []string{"--naming-scheme", naming}
			}
			out = append(out, p)
		}
	}
	return out
}

// params of an address, if there is any.
func params(addr string, version int) M {
	out := M{}
	for _, e := range Expressions(addr) {
		name := addr[e[0]+1 : e[1]-1]
		t, ok := P25Types[name]
		switch {
		case !ok && name != "ID":
		case version == 2 && t != nil:
			out[name] = M{"schema": t}
		default:
			out[name] = M{"description": "A parameter"}
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// Expressions gives the positions of what is between braces.
func Expressions(addr string) (out [][2]int) {
	open := -1
	for i := 0; i < len(addr); i++ {
		switch addr[i] {
		case '{':
			open = i
		case '}':
			if open >= 0 {
				out = append(out, [2]int{open, i + 1})
			}
			open = -1
		}
	}
	return
}
