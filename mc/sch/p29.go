package sch

import (
	"fmt"
	"strings"

	"verifmc/docs"
)

// Loc is a location of which the way is declared or not.
type Loc struct {
	Field  string // header or payload
	Path   []string
	Label  string
	Opt    []bool // whether each step may be absent
	Schema any    // of the headers or payload, nil if absent
}

// String is the location in the document.
func (l Loc) String() string {
	s := "$message." + l.Field + "#"
	for _, p := range l.Path {
		s += "/" + strings.NewReplacer("~", "~0", "/", "~1").Replace(p)
	}
	return s
}

type step struct {
	declared, required, ref bool
}

var (
	req, opt, reqRef, optRef = step{true, true, false}, step{true, false, false}, step{true, true, true}, step{true, false, true}
	none, noneReq            = step{}, step{required: true}
)

func (s step) String() string {
	if !s.declared {
		return map[bool]string{true: "undeclared-required", false: "undeclared"}[s.required]
	}
	return map[bool]string{true: "required", false: "optional"}[s.required] + map[bool]string{true: "-ref"}[s.ref]
}

// locations in a field, whose components go in comps.
func locations(field, prefix string, comps M) []Loc {
	var ways [][]step
	leaves := []step{req, opt, reqRef, optRef, none, noneReq}
	for _, l := range leaves {
		ways = append(ways, []step{l})
	}
	for _, m := range []step{req, opt, reqRef, optRef} {
		for _, l := range leaves {
			ways = append(ways, []step{m, l})
		}
	}
	ways = append(ways, []step{none, none}, []step{noneReq, none})
	for _, m := range [][]step{{req, req}, {opt, opt}, {optRef, opt}, {opt, reqRef}, {reqRef, optRef}} {
		for _, l := range []step{req, opt, none, optRef} {
			ways = append(ways, append(append([]step{}, m...), l))
		}
	}
	ways = append(ways, []step{opt, none, none}, []step{reqRef, none, none}, []step{none, none, none})
	names := [][]string{{"id", "m", "n"}, {"corr_id", "meta-data", "X"}, {"X-Id", "m2", "n"}}
	plain := len(ways)
	odd := [][]string{{"x/y", "m"}, {"x~y", "m"}, {"a.b", "m.n"}, {"a b", "m~1/n"}, {"properties", "payload"}, {"header", "message"}, {"0a", "1a"}, {"id é", "é m"}}
	for range odd {
		ways = append(ways, []step{req}, []step{none}, []step{opt, opt}, []step{req, none})
	}
	var out []Loc
	for _, root := range []string{"inline", "ref"} {
		for i, w := range ways {
			nm := names[i%len(names)]
			if i >= plain {
				nm = odd[(i-plain)/4]
			}
			l := Loc{Field: field, Label: field + " " + root}
			n := len(w)
			var s any
			for k := n - 1; k >= 0; k-- {
				key := nm[0]
				if k < n-1 {
					key = nm[1+k]
				}
				l.Path = append([]string{key}, l.Path...)
				l.Opt = append([]bool{!w[k].required}, l.Opt...)
				props := M{"s": docs.Str(), "k": typ("integer", "")}
				rq := L{"k"}
				if field == "header" && k == 0 { // a required one is an error if it is unset, with pointers
					rq = L{}
				}
				if w[k].declared {
					v := s
					if k == n-1 {
						v = docs.Str()
					}
					if w[k].ref {
						c := fmt.Sprintf("%s%s%d%d%s", prefix, field, i, k, root)
						comps[c] = v
						v = ref(c)
					}
					props[key] = v
				}
				if w[k].required {
					rq = append(rq, key)
				}
				s = docs.Obj(props, "required", rq)
			}
			for _, x := range w {
				l.Label += " " + x.String()
			}
			if root == "ref" {
				c := fmt.Sprintf("%s%s%droot", prefix, field, i)
				comps[c] = s
				s = ref(c)
			}
			l.Schema = s
			out = append(out, l)
		}
	}
	out = append(out, Loc{Field: field, Path: []string{"id"}, Opt: []bool{true}, Label: field + " absent"},
		Loc{Field: field, Path: []string{"m", "id"}, Opt: []bool{true, true}, Label: field + " absent"})
	return out
}

// in puts the schema of the location in the message, the other part being plain.
func (m *Msg) in(l Loc) {
	if l.Field == "header" {
		m.Headers, m.Payload = l.Schema, docs.Obj(M{"z": docs.Str()})
	} else {
		m.Headers, m.Payload = docs.Obj(M{"h": docs.Str()}), l.Schema
	}
}

func p29() []Pkg {
	var out []Pkg
	for _, version := range []int{2, 3} {
		for _, args := range [][]string{nil, {"--force-pointers"}} {
			for _, field := range []string{"header", "payload"} {
				for _, form := range []string{"inline", "ref", "trait"} {
					if version == 2 && form == "trait" || args != nil && form != "inline" {
						continue
					}
					p := Pkg{Name: fmt.Sprintf("corr%d%s%s", version, field, form), Version: version, Args: args, Schemas: M{}}
					if args != nil {
						p.Name += "fp"
					}
					for i, l := range locations(field, "c", p.Schemas) {
						l := l
						m := Msg{Label: l.Label, Corr: &l, CorrForm: form, Receive: i%2 == 1}
						m.in(l)
						if version == 3 {
							r := Msg{Corr: &l, CorrForm: form}
							r.in(l)
							m.Reply = &r
						}
						p.Msgs = append(p.Msgs, m)
					}
					out = append(out, p)
				}
				if version == 2 {
					continue
				}
				p := Pkg{Name: "addr" + field, Version: version, Args: args, Schemas: M{}}
				if args != nil {
					p.Name += "fp"
				}
				for i, l := range locations(field, "a", p.Schemas) {
					l := l
					m := Msg{Label: l.Label, ReplyAt: &l, Receive: i%2 == 1, ReplyForm: []string{"inline", "ref"}[i/2%2]}
					m.in(l)
					m.Reply = &Msg{Payload: docs.Obj(M{"z": docs.Str()})}
					if i%3 == 0 { // correlated, in the other part
						c := Loc{Field: map[string]string{"header": "payload", "payload": "header"}[field], Path: []string{"cid"}, Opt: []bool{true}}
						m.Corr, m.Reply.Corr, m.Reply.Headers = &c, &c, docs.Obj(M{"h": docs.Str()})
					}
					p.Msgs = append(p.Msgs, m)
				}
				out = append(out, p)
			}
		}
	}
	return out
}
