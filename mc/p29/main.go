// P29: correlation identifiers and reply addresses are where the document says.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/enum"
	"verifmc/gen/reg"
	"verifmc/sch"
	"verifmc/vals"
	"verifmc/wire"
)

// at gives what is at the location of the message as it is encoded.
func at(m extensions.BrokerMessage, l sch.Loc) (v string, found bool) {
	doc, path := m.Payload, l.Path
	if l.Field == "header" {
		doc, path = m.Headers[path[0]], path[1:]
		if doc == nil {
			return "", false
		}
		if len(path) == 0 {
			return string(doc), true
		}
	}
	var x any
	if err := json.Unmarshal(doc, &x); err != nil {
		return "not JSON: " + string(doc), true
	}
	for _, k := range path {
		o, ok := x.(map[string]any)
		if !ok {
			return "", false
		}
		if x, ok = o[k]; !ok {
			return "", false
		}
	}
	s, ok := x.(string)
	if !ok {
		return fmt.Sprintf("not a string: %v", x), true
	}
	return s, true
}

// with gives the message whose location, cut after n steps, holds v (nothing if it is nil).
func with(m extensions.BrokerMessage, l sch.Loc, n int, v any) extensions.BrokerMessage {
	out := extensions.BrokerMessage{Payload: m.Payload, Headers: map[string][]byte{}}
	for k, h := range m.Headers {
		out.Headers[k] = h
	}
	set := func(doc []byte, path []string) []byte {
		var root map[string]any
		if json.Unmarshal(doc, &root) != nil || root == nil {
			root = map[string]any{}
		}
		o := root
		for i, k := range path {
			if i == len(path)-1 {
				if o[k] = v; v == nil {
					delete(o, k)
				}
				break
			}
			next, ok := o[k].(map[string]any)
			if !ok {
				if v == nil {
					break
				}
				next = map[string]any{"k": 1}
				o[k] = next
			}
			o = next
		}
		b, err := json.Marshal(root)
		if err != nil {
			panic(err)
		}
		return b
	}
	path := l.Path[:n]
	switch {
	case l.Field == "payload":
		out.Payload = set(m.Payload, path)
	case len(path) > 1:
		out.Headers[path[0]] = set(m.Headers[path[0]], path[1:])
	case v == nil:
		delete(out.Headers, path[0])
	default:
		out.Headers[path[0]] = []byte(v.(string))
	}
	return out
}

// steps that are there on the way to a location.
func steps(m extensions.BrokerMessage, l sch.Loc) (n int) {
	for n < len(l.Path) {
		cut := l
		cut.Path = l.Path[:n+1]
		if _, ok := at(m, cut); !ok {
			return n
		}
		n++
	}
	return n
}

// text shows a message, in one way.
func text(m extensions.BrokerMessage) string {
	canon := func(b []byte) string {
		var x any
		if json.Unmarshal(b, &x) != nil {
			return fmt.Sprintf("%q", b)
		}
		c, _ := json.Marshal(x)
		return string(c)
	}
	var hs []string
	for k, h := range m.Headers {
		hs = append(hs, fmt.Sprintf("%q:%s", k, canon(h)))
	}
	sort.Strings(hs)
	return canon(m.Payload) + " {" + strings.Join(hs, ",") + "}"
}

func getID(msg reflect.Value) string {
	return msg.MethodByName("CorrelationID").Call(nil)[0].String()
}

// pointer to a copy
func pointer(msg reflect.Value) reflect.Value {
	p := reflect.New(msg.Type())
	p.Elem().Set(msg)
	return p
}

func setID(msg reflect.Value, id string) reflect.Value {
	p := pointer(msg)
	p.MethodByName("SetCorrelationID").Call([]reflect.Value{reflect.ValueOf(id)})
	return p.Elem()
}

func ctxID(ctx context.Context) string {
	if ctx == nil {
		return "no context"
	}
	v := ""
	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsCorrelationID, func(s string) { v = s })
	return v
}

var ids = []string{"x", `a"b\é/%s`, " ", "0123456789abcdef0123456789abcdef0123456789abcdef"}

// getset: what is set is got, is sent, and nothing else changes.
func getset(p sch.Pkg, i int, l sch.Loc, k int, id string) (fails []string) {
	fail := func(format string, a ...any) { fails = append(fails, fmt.Sprintf(format, a...)) }
	c := wire.New(reg.Reg[p.Name], i)
	value := func() reflect.Value { return vals.Of(c.T, false, false)[k] }
	before, old := value(), getID(value())
	enc, err := c.Encode(before)
	if err != nil {
		return []string{"before: " + err.Error()}
	}
	if !reflect.DeepEqual(before.Interface(), value().Interface()) {
		fail("sending it changed the message of the sender, which has identifier %q", getID(before))
	}
	got, found := at(enc, l)
	switch {
	case !found || got == "":
		fail("sent without identifier: %s", text(enc))
	case old != "" && got != old:
		fail("sent with %q, for a message with %q", got, old)
	}
	if id := ctxID(c.B.Ctx); id != got {
		fail("sent with %q, and the context says %q", got, id)
	}
	after := setID(value(), id)
	if got := getID(after); got != id {
		fail("set to %q, and it is %q", id, got)
	}
	enc2, err := c.Encode(after)
	if err != nil {
		return append(fails, "after: "+err.Error())
	}
	if got, _ := at(enc2, l); got != id {
		fail("set to %q, and sent with %q", id, got)
	}
	if got := ctxID(c.B.Ctx); got != id {
		fail("set to %q, and the context says %q", id, got)
	}
	// as the first one was sent with another identifier
	if a, b := text(with(enc, l, len(l.Path), id)), text(enc2); a != b {
		fail("setting it changed something else: %s and %s", a, b)
	}
	return fails
}

// decode: what is received is got, at any time in the context.
func decode(p sch.Pkg, i int, l sch.Loc, k int, n int, id string) (fails []string) {
	fail := func(format string, a ...any) { fails = append(fails, fmt.Sprintf(format, a...)) }
	c := wire.New(reg.Reg[p.Name], i)
	enc, err := c.Encode(vals.Of(c.T, false, false)[k])
	if err != nil {
		return []string{err.Error()}
	}
	if n > 0 {
		enc = with(enc, l, n, nil)
		id = ""
	} else {
		enc = with(enc, l, len(l.Path), id)
	}
	m, err := c.Decode(enc)
	if err != nil {
		return []string{"decoding " + text(enc) + ": " + err.Error()}
	}
	if got := getID(m); got != id {
		fail("received %s, and the identifier is %q", text(enc), got)
	}
	if got := ctxID(c.RecvCtx); got != id {
		fail("received %s, and the context says %q", text(enc), got)
	}
	return fails
}

// reply to a request with an address and an identifier, if they are not empty.
func reply(p sch.Pkg, i int, addr, id string) (fails []string) {
	fail := func(format string, a ...any) { fails = append(fails, fmt.Sprintf(format, a...)) }
	m := p.Msgs[i]
	c := wire.New(reg.Reg[p.Name], i)
	enc, err := c.Encode(vals.Of(c.T, false, false)[0])
	if err != nil {
		return []string{err.Error()}
	}
	put := func(l *sch.Loc, v string) {
		if l == nil {
			return
		}
		if v != "" {
			enc = with(enc, *l, len(l.Path), v)
			return
		}
		for n := range l.Path {
			if l.Opt[n] {
				enc = with(enc, *l, n+1, nil)
				return
			}
		}
		enc = with(enc, *l, len(l.Path), "")
	}
	put(m.ReplyAt, addr)
	put(m.Corr, id)
	recv, err := c.Decode(enc)
	if err != nil {
		return []string{"decoding " + text(enc) + ": " + err.Error()}
	}
	want := addr
	if m.ReplyAt == nil {
		want = fmt.Sprintf("reply%d", i)
	}
	fn := wire.Method(c.To, fmt.Sprintf("ReplyToOp%dOperation", i))
	ft := fn.Type().In(fn.Type().NumIn() - 1)
	called := 0
	cb := reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		called++
		if m.Reply.Corr != nil {
			if got := getID(a[0].Elem()); got != id {
				fail("the reply to prepare has identifier %q instead of %q", got, id)
			}
		}
		return nil
	})
	c.B.Published, c.B.Last = 0, nil
	e := fn.Call([]reflect.Value{reflect.ValueOf(context.Background()), recv, cb})[0]
	if want == "" || m.Corr != nil && id == "" {
		if e.IsNil() || c.B.Published != 0 {
			fail("replied to %s: %v, %d sent", text(enc), e, c.B.Published)
		}
		return fails
	}
	if !e.IsNil() {
		return append(fails, fmt.Sprintf("replying to %s: %v", text(enc), e))
	}
	if c.B.Published != 1 || c.B.Addr != want || called != 1 {
		fail("%d sent, to %q instead of %q, callback called %d times", c.B.Published, c.B.Addr, want, called)
	} else if m.Reply.Corr != nil {
		if got, _ := at(*c.B.Last, *m.Reply.Corr); got != id {
			fail("the reply %s should have identifier %q", text(*c.B.Last), id)
		}
		if got := ctxID(c.B.Ctx); got != id {
			fail("the context of the reply has identifier %q instead of %q", got, id)
		}
	}
	return fails
}

// request from the other side: replied at the address, with another identifier first.
func request(p sch.Pkg, i int, addr, id string) (fails []string) {
	fail := func(format string, a ...any) { fails = append(fails, fmt.Sprintf(format, a...)) }
	m := p.Msgs[i]
	c := wire.New(reg.Reg[p.Name], i)
	enc, err := c.Encode(vals.Of(c.T, false, false)[0])
	if err != nil {
		return []string{err.Error()}
	}
	if m.ReplyAt != nil {
		enc = with(enc, *m.ReplyAt, len(m.ReplyAt.Path), addr)
	}
	if m.Corr != nil {
		enc = with(enc, *m.Corr, len(m.Corr.Path), id)
	}
	msg, err := c.Decode(enc)
	if err != nil {
		return []string{"decoding " + text(enc) + ": " + err.Error()}
	}
	c.B.Subs = map[string]extensions.BrokerChannelSubscription{}
	want := addr
	if m.ReplyAt == nil {
		want = fmt.Sprintf("reply%d", i)
	}
	fn := wire.Method(c.From, fmt.Sprintf("RequestAsOp%dOperation", i), fmt.Sprintf("RequestToOp%dOperation", i))
	rt := fn.Type().Out(0)
	empty := extensions.BrokerMessage{Payload: []byte("{}")}
	c.B.OnPublish = func(_ string, sent extensions.BrokerMessage) {
		c.B.OnPublish = nil
		if m.Corr != nil {
			if got, _ := at(sent, *m.Corr); got != id {
				fail("the request %s should have identifier %q", text(sent), id)
			}
		}
		s, ok := c.B.Subs[want]
		if !ok || len(c.B.Subs) != 1 {
			fail("no subscription to %q when the request is sent: %v", want, c.B.Subs)
		}
		for _, x := range c.B.Subs { // so that it always ends
			s = x
		}
		if m.Reply.Corr != nil {
			wire.Transmit(s, with(empty, *m.Reply.Corr, len(m.Reply.Corr.Path), id+"-other"))
			wire.Transmit(s, with(empty, *m.Reply.Corr, len(m.Reply.Corr.Path), id))
		} else {
			wire.Transmit(s, empty)
		}
		s.Cancel(context.Background())
	}
	out := fn.Call([]reflect.Value{reflect.ValueOf(context.Background()), msg})
	if want == "" {
		if out[1].IsNil() || c.B.Last != nil && c.B.OnPublish == nil {
			fail("the request without reply address gives %v", out[1])
		}
		return fails
	}
	if !out[1].IsNil() {
		return append(fails, fmt.Sprintf("the request gives %v", out[1]))
	}
	if m.Reply.Corr != nil {
		if got := getID(out[0]); got != id || out[0].Type() != rt {
			fail("the reply has identifier %q instead of %q", got, id)
		}
	}
	return fails
}

func main() {
	enum.Main(func(e *enum.E) {
		for _, p := range sch.Packages("P29") {
			p := p
			e.Section(p.Name)
			for i, m := range p.Msgs {
				i, m := i, m
				if m.Corr != nil && m.ReplyAt == nil {
					l := *m.Corr
					n := len(vals.Of(wire.New(reg.Reg[p.Name], i).T, false, false))
					if !e.Thorough && n > 6 {
						n = 6
					}
					for k := 0; k < n; k++ {
						for _, id := range ids {
							k, id := k, id
							e.Case(fmt.Sprintf("%s %v: value %d, set to %q", m.Label, l.Path, k, id), func() ([]string, bool) { return getset(p, i, l, k, id), true })
							e.Case(fmt.Sprintf("%s %v: value %d, received with %q", m.Label, l.Path, k, id), func() ([]string, bool) { return decode(p, i, l, k, 0, id), true })
						}
						for s := range l.Path {
							if s := s; l.Opt[s] {
								e.Case(fmt.Sprintf("%s %v: value %d, received without step %d", m.Label, l.Path, k, s), func() ([]string, bool) { return decode(p, i, l, k, s+1, ""), true })
							}
						}
					}
				}
				if m.Reply == nil {
					continue
				}
				for _, addr := range []string{"there", "a.b/c %s é", ""} {
					for _, id := range append([]string{""}, ids...) {
						addr, id := addr, id
						if addr != "there" && m.ReplyAt == nil || m.Corr == nil && id != "" || !e.Thorough && addr != "there" && len(id) > 3 {
							continue
						}
						e.Case(fmt.Sprintf("%s %v: reply at %q with %q", m.Label, m.Reply.Corr, addr, id), func() ([]string, bool) { return reply(p, i, addr, id), true })
						if m.Corr == nil || id != "" {
							e.Case(fmt.Sprintf("%s: request, reply at %q with %q", m.Label, addr, id), func() ([]string, bool) { return request(p, i, addr, id), true })
						}
					}
				}
			}
		}
	})
}
