// P30: generated controllers offer exactly the operations of the document, with their messages.
package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

// class tells what a type is, by what it holds: messages are known by the property of their payload.
func class(t types.Type) string {
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + class(u.Elem())
	case *types.Signature:
		return class(u.Params()) + class(u.Results())
	case *types.Tuple:
		var s []string
		for i := 0; i < u.Len(); i++ {
			s = append(s, class(u.At(i).Type()))
		}
		return "(" + strings.Join(s, " ") + ")"
	case *types.Named:
		name := u.Obj().Name()
		if u.Obj().Pkg() == nil || u.Obj().Pkg().Name() != "generated" {
			return name
		}
		s, ok := u.Underlying().(*types.Struct)
		if !ok {
			return name
		}
		var fields []string
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == "Payload" {
				p, ok := f.Type().Underlying().(*types.Struct)
				if !ok || p.NumFields() != 1 {
					return "msg?"
				}
				return "msg:" + p.Field(0).Name()
			}
			fields = append(fields, s.Field(i).Name())
		}
		sort.Strings(fields)
		return "{" + strings.Join(fields, ",") + "}"
	}
	return t.String()
}

// api is the methods of a controller and of its subscriber.
func api(c *gen.Checked, side string) map[string]string {
	out := map[string]string{}
	if o := c.Pkg.Scope().Lookup(side + "Subscriber"); o != nil {
		i := o.Type().Underlying().(*types.Interface)
		for k := 0; k < i.NumMethods(); k++ {
			out["Subscriber."+i.Method(k).Name()] = class(i.Method(k).Type())
		}
	}
	if o := c.Pkg.Scope().Lookup(side + "Controller"); o != nil {
		set := types.NewMethodSet(types.NewPointer(o.Type()))
		for k := 0; k < set.Len(); k++ {
			if f := set.At(k).Obj(); f.Exported() {
				out[f.Name()] = class(f.Type())
			}
		}
	}
	return out
}

func diff(what string, got, want map[string]string) (fails []string) {
	for k, w := range want {
		if g, ok := got[k]; !ok {
			fails = append(fails, fmt.Sprintf("%s has no %s%s", what, k, w))
		} else if g != w {
			fails = append(fails, fmt.Sprintf("%s has %s%s instead of %s", what, k, g, w))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			fails = append(fails, fmt.Sprintf("%s has %s%s", what, k, g))
		}
	}
	sort.Strings(fails)
	return fails
}

// message whose payload has this only property
func message(p string) M { return M{"payload": docs.Obj(M{p: docs.Str()}, "required", L{p})} }

// args joins the arguments that are there.
func args(s ...string) string {
	var out []string
	for _, x := range s {
		if x != "" {
			out = append(out, x)
		}
	}
	return "(" + strings.Join(out, " ") + ")"
}

// channel of version 3
type channel struct {
	key, address string
	params       string // the class of its parameters
	ref          bool   // it is a reference to a component
	msgs         []string
}

var channels = []channel{
	{"chA", "a.zero", "", false, []string{"m", "n"}},
	{"chB", "b.{id}.{nb}", "{Id,Nb}", false, []string{"x"}},
	{"chC", "c.zero", "", true, []string{"q", "p"}},
	{"chD", "d.{id}", "{Id}", true, []string{"y"}},
	{"chE", "", "", false, []string{"r"}},
	{"chF", "", "", true, []string{"s", "t"}},
}

// prop is the property of a message of a channel
func (c channel) prop(m string) string { return "U" + c.key[2:] + strings.ToUpper(m) }

func (c channel) first() string {
	m := append([]string{}, c.msgs...)
	sort.Strings(m)
	return c.prop(m[0])
}

// component tells whether a message is in the components
func (c channel) component(i int) bool { return i%2 == 1 || c.key == "chD" }

// listed are the references to messages, from the last or at most n: messages inside referenced channels
// cannot be referenced.
func (c channel) listed(n int) (l L) {
	for i := len(c.msgs) - 1; i >= 0 && len(l) < n; i-- {
		switch {
		case !c.ref:
			l = append(l, docs.Ref("#/channels/"+c.key+"/messages/"+c.msgs[i]))
		case c.component(i):
			l = append(l, docs.Ref("#/components/messages/c"+c.key+c.msgs[i]))
		}
	}
	return l
}

func (c channel) doc(comps M) M {
	msgs := M{}
	for i, m := range c.msgs {
		x := message(c.prop(m))
		if c.component(i) { // in the components, where another message is
			comps["messages"].(M)["c"+c.key+m] = x
			x = docs.Ref("#/components/messages/c" + c.key + m)
		}
		msgs[m] = x
	}
	d := M{"messages": msgs}
	if c.address != "" {
		d["address"] = c.address
	} else {
		d["address"] = nil
	}
	if c.params != "" {
		p := M{}
		for _, k := range strings.Split(strings.ToLower(strings.Trim(c.params, "{}")), ",") {
			p[k] = M{"description": k}
		}
		d["parameters"] = p
	}
	if c.ref {
		comps["channels"].(M)["comp"+c.key] = d
		return docs.Ref("#/components/channels/comp" + c.key)
	}
	return d
}

// operation of version 3
type operation struct {
	key   string
	send  bool
	ch    int
	msgs  int // 0: none given, 1: the last, 2: all from the last to the first
	reply int // -1: none, otherwise the channel
	rForm int // the reply is inline, with its messages, or a reference
	ref   bool
}

func (o operation) String() string {
	return fmt.Sprintf("{%s send=%v %s messages=%d reply=%d/%d ref=%v}", o.key, o.send, channels[o.ch].key, o.msgs, o.reply, o.rForm, o.ref)
}

func (o operation) message() string {
	c := channels[o.ch]
	if o.msgs == 0 {
		return "msg:" + c.first()
	}
	return "msg:" + c.prop(c.msgs[len(c.msgs)-1])
}

func (o operation) doc(comps M) M {
	c := channels[o.ch]
	d := M{"action": map[bool]string{true: "send", false: "receive"}[o.send], "channel": docs.Ref("#/channels/" + c.key)}
	if o.msgs > 0 {
		d["messages"] = c.listed(o.msgs)
	}
	if o.reply >= 0 {
		rc := channels[o.reply]
		r := M{"channel": docs.Ref("#/channels/" + rc.key)}
		if rc.address == "" {
			r["address"] = M{"location": "$message.header#/rt"}
		}
		switch o.rForm {
		case 1:
			if l := rc.listed(2); len(l) > 0 {
				r["messages"] = l
			}
		case 2:
			comps["replies"].(M)["re"+o.key] = r
			r = docs.Ref("#/components/replies/re" + o.key)
		}
		d["reply"] = r
	}
	if o.ref {
		comps["operations"].(M)["co"+o.key] = d
		return docs.Ref("#/components/operations/co" + o.key)
	}
	return d
}

func (o operation) name() string {
	return strings.ToUpper(o.key[:1]) + strings.ReplaceAll(o.key[1:], "_", "") + "Operation"
}

// conflict tells whether operations would have the same method on a side that is generated
func conflict(part string, ops []operation) bool {
	for _, app := range []bool{true, false} {
		if !strings.Contains(part, map[bool]string{true: "a", false: "u"}[app]) {
			continue
		}
		seen := map[string]bool{}
		for _, o := range ops {
			w := map[string]string{}
			o.expected(app, w)
			for m := range w {
				if seen[m] && !strings.HasSuffix(m, "AllChannels") {
					return true
				}
				seen[m] = true
			}
		}
	}
	return false
}

// expected methods of a side
func (o operation) expected(app bool, want map[string]string) {
	name := o.name()
	c, prep := channels[o.ch], "To"
	if app {
		prep = "As"
	}
	var rc channel
	replyMsg, dyn := "", ""
	if o.reply >= 0 {
		rc = channels[o.reply]
		replyMsg = "msg:" + rc.first()
		if o.rForm == 1 && len(rc.listed(1)) > 0 {
			replyMsg = "msg:" + rc.prop(rc.msgs[len(rc.msgs)-1])
		}
		if rc.address == "" {
			dyn = "string"
		}
	}
	if o.send != app { // it is received
		fn := "(Context " + o.message() + ")(error)"
		want["Subscriber."+name+"Received"] = fn
		want["SubscribeTo"+name] = args("Context", c.params, fn) + "(error)"
		want["UnsubscribeFrom"+name] = args("Context", c.params) + "()"
		want["SubscribeToAllChannels"] = "(Context " + map[bool]string{true: "App", false: "User"}[app] + "Subscriber)(error)"
		want["UnsubscribeFromAllChannels"] = "(Context)()"
		if o.reply >= 0 {
			want["ReplyTo"+name] = args("Context", rc.params, o.message(), "(*"+replyMsg+")()") + "(error)"
			want["Send"+prep+"ReplyTo"+name] = args("Context", rc.params, dyn, replyMsg) + "(error)"
		}
		return
	}
	want["Send"+prep+name] = args("Context", c.params, o.message()) + "(error)"
	if o.reply >= 0 {
		needs := rc.params
		if strings.Contains(c.params, "Id") && (needs == "{Id}" || strings.Contains(c.params, "Nb")) { // the ones of the request
			needs = ""
		}
		want["Request"+prep+name] = args("Context", c.params, needs, o.message()) + "(" + replyMsg + " error)"
	}
}

func v3(chs []int, ops []operation) M {
	comps := M{"messages": M{"aaa": message("Other")}, "channels": M{}, "operations": M{}, "replies": M{}, "schemas": M{"unused": docs.Obj(M{"k": docs.Str()})}}
	d := M{"asyncapi": "3.0.0", "info": M{"title": "T", "version": "1"}, "channels": M{}, "operations": M{}, "components": comps}
	for _, c := range chs {
		d["channels"].(M)[channels[c].key] = channels[c].doc(comps)
	}
	for _, o := range ops {
		d["operations"].(M)[o.key] = o.doc(comps)
	}
	return d
}

// constants of the paths of the channels, with the list of all
func paths(c *gen.Checked, src string, want map[string]bool) (fails []string) {
	got := map[string]string{}
	for _, n := range c.Names() {
		if k, ok := c.Pkg.Scope().Lookup(n).(*types.Const); ok && strings.HasSuffix(n, "Path") {
			got[n] = constant.StringVal(k.Val())
		}
	}
	values := map[string]bool{}
	for n, v := range got {
		values[v] = true
		if !want[v] {
			fails = append(fails, fmt.Sprintf("%s is %q", n, v))
		}
	}
	for v := range want {
		if !values[v] {
			fails = append(fails, fmt.Sprintf("no constant is %q", v))
		}
	}
	_, list, ok := strings.Cut(src, "ChannelsPaths = []string{")
	list, _, _ = strings.Cut(list, "}")
	var listed []string
	for _, n := range strings.FieldsFunc(list, func(r rune) bool { return r == ',' || r == ' ' || r == '\n' || r == '\t' }) {
		listed = append(listed, n)
	}
	var names []string
	for n := range got {
		names = append(names, n)
	}
	sort.Strings(names)
	sort.Strings(listed)
	if ok != (len(want) > 0) || strings.Join(names, " ") != strings.Join(listed, " ") {
		fails = append(fails, fmt.Sprintf("ChannelsPaths is %v instead of %v", listed, names))
	}
	return fails
}

// sides to generate: both with the types, or one with the types
var parts = []string{"uat", "ut", "at", "t"}

// verdict of the code generated from a document against what each side should have.
func verdict(doc M, part string, addrs map[string]bool, want func(app bool) map[string]string) []string {
	r := gen.Run(doc, gen.Opts{Parts: part})
	if f := r.Failed(); f != "" {
		return []string{f}
	}
	c, errs := gen.Check(r.Src, false)
	if len(errs) > 0 {
		return errs
	}
	var fails []string
	for _, side := range []string{"App", "User"} {
		w := map[string]string{}
		if strings.Contains(part, strings.ToLower(side[:1])) {
			w = want(side == "App")
			w["Close"] = "(Context)()"
		}
		fails = append(fails, diff(side, api(c, side), w)...)
	}
	return append(fails, paths(c, r.Src, addrs)...)
}

func case3(e *enum.E, part string, chs []int, ops ...operation) {
	var labels []string
	for _, o := range ops {
		labels = append(labels, o.String())
	}
	e.Case(fmt.Sprintf("%s channels %v %s", part, chs, strings.Join(labels, " ")), func() ([]string, bool) {
		addrs := map[string]bool{}
		for _, c := range chs {
			addrs[channels[c].address] = true
		}
		return verdict(v3(chs, ops), part, addrs, func(app bool) map[string]string {
			w := map[string]string{}
			for _, o := range ops {
				o.expected(app, w)
			}
			return w
		}), len(ops) > 0
	})
}

func operations(key string, all bool) []operation {
	var out []operation
	for _, send := range []bool{false, true} {
		for ch := 0; ch < 4; ch++ {
			for msgs := 0; msgs < 3; msgs++ {
				for reply := -1; reply < len(channels); reply++ {
					for form := 0; form < 3; form++ {
						for _, ref := range []bool{false, true} {
							if reply < 0 && form > 0 || !all && (form == 1 || ref && form != 2 || msgs == 2 || ch == 1) {
								continue
							}
							out = append(out, operation{key: key, send: send, ch: ch, msgs: msgs, reply: reply, rForm: form, ref: ref})
						}
					}
				}
			}
		}
	}
	return out
}

func main() {
	enum.Main(func(e *enum.E) {
		every := []int{0, 1, 2, 3, 4, 5}
		e.Section("v3 no operation")
		for set := 0; set < 1<<len(channels); set++ {
			var chs []int
			for i := range channels {
				if set&(1<<i) != 0 {
					chs = append(chs, i)
				}
			}
			for _, part := range parts {
				case3(e, part, chs)
			}
		}
		e.Section("v3 one operation")
		for _, o := range operations("opX", true) {
			for _, part := range parts {
				if part != "uat" && (o.rForm != 0 || o.ref) {
					continue
				}
				case3(e, part, every, o)
			}
		}
		e.Section("v3 two operations")
		second := operations("anOp", false)
		for _, o := range operations("opX", e.Thorough) {
			for _, p := range second {
				if !e.Thorough && (p.rForm != 0 || p.ref) {
					continue
				}
				case3(e, "uat", every, o, p)
			}
		}
		names3(e, every)
		v2(e)
	})
}

// names3 are operations whose names look like what is generated for other operations.
func names3(e *enum.E, every []int) {
	e.Section("v3 names of operations")
	var all []operation
	for _, key := range []string{"foo", "replyToFoo", "ReplyToFooOperation", "replyToFooOperation", "ReplyToFooOperation_", "replyToReplyToFooOperation", "ReplyToReplyToFooOperationOperation", "Foo_", "sendAsFoo", "close"} {
		for _, send := range []bool{false, true} {
			for _, reply := range []int{-1, 2, 5} {
				all = append(all, operation{key: key, send: send, ch: 0, reply: reply})
			}
		}
	}
	run := func(part string, ops ...operation) {
		if !conflict(part, ops) {
			case3(e, part, every, ops...)
			return
		}
		e.Case(fmt.Sprintf("%s conflict %v", part, ops), func() ([]string, bool) {
			r := gen.Run(v3(every, ops), gen.Opts{Parts: part})
			if r.Panic != "" {
				return []string{r.Failed()}, true
			}
			if r.Err == nil {
				return []string{"the generation succeeds, although methods have the same name"}, true
			}
			return nil, true
		})
	}
	for i, o := range all {
		for j, p := range all[:i] {
			if o.key == p.key {
				continue
			}
			for _, part := range []string{"uat", "at", "ut"} {
				run(part, p, o)
			}
			if !e.Thorough && (i+j)%5 != 0 {
				continue
			}
			for _, q := range all[:j] {
				if q.key != p.key && q.key != o.key {
					run("uat", q, p, o)
				}
			}
		}
	}
}
