package main

import (
	"fmt"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

func rich(v int) M {
	if v == 2 {
		return docs.V2()
	}
	return docs.V3()
}

// separately generates the parts of documents, with every set of options for the
// rich one and of few operations.
func separately(e *enum.E, v int) {
	for _, o := range options(true) {
		o := o
		e.Case("rich "+opt(o), func() ([]string, bool) { return parts(rich(v), o) })
	}
	e.Case("empty", func() ([]string, bool) { return parts(base(v), gen.Opts{}) })
	opts := options(false)
	if !e.Thorough {
		opts = opts[:1]
	}
	for _, o := range opts {
		o := o
		if v == 3 {
			for _, action := range []string{"send", "receive"} {
				for _, address := range []string{"c", "c.{p}", ""} {
					for _, corr := range mainCorrs {
						for _, reply := range []string{"none", "static none", "static required", "dynReq required", "dynOpt optional", "params none", "sameParams required"} {
							for _, two := range []string{"one", "both"} {
								c := []string{action, address, corr, reply, "inline", "component message", "listed", "ref", "inline", "listed", "", two}
								e.Case(fmt.Sprint(c)+" "+opt(o), func() ([]string, bool) {
									doc, _ := op3(c)
									return parts(doc, o)
								})
							}
						}
					}
				}
			}
			continue
		}
		for _, dir := range []string{"publish", "subscribe", "both"} {
			for _, address := range []string{"c", "c.{p}", "c.{p}.{q}"} {
				for _, corr := range mainCorrs {
					for _, form := range []string{"inline", "component", "oneOf"} {
						for _, payload := range []string{"str", "obj", "ref", "arr"} {
							c := []string{dir, address, corr, form, payload, "no id", "inline parameter"}
							e.Case(fmt.Sprint(c)+" "+opt(o), func() ([]string, bool) { return parts(op2(c), o) })
						}
					}
				}
			}
		}
	}
}

// edits are the replacements of a node.
var edits = []named{{"deleted", docs.Deleted{}}, {"empty object", M{}}, {"empty", ""}, {"hostile", "a\nb */ /* `c` \"d\" // {e} %s \\ {{.}}"}, {"string schema", str()}, {"object schema", obj(M{"ed": str()})}, {"array schema", M{"type": "array", "items": M{"type": "integer"}}}, {"true", true}, {"number", 7}}

func edited(e *enum.E, v int) {
	d := rich(v)
	nodes := docs.Nodes(d)
	for _, n := range nodes {
		for _, ed := range edits {
			n, ed := n, ed
			e.Case(fmt.Sprint(n.Path)+" "+ed.name, func() ([]string, bool) {
				return compiles(docs.Set(d, n.Path, ed.v), gen.Opts{})
			})
		}
	}
	if !e.Thorough {
		return
	}
	for i, n := range nodes {
		for _, m := range nodes[i+1:] {
			n, m := n, m
			e.Case(fmt.Sprint(n.Path)+" and "+fmt.Sprint(m.Path)+" deleted", func() ([]string, bool) {
				d := docs.Set(d, m.Path, docs.Deleted{})
				return compiles(docs.Set(d, n.Path, docs.Deleted{}), gen.Opts{})
			})
		}
	}
}
