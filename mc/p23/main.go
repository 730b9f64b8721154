// P23: the generated code is a function of the document and of the options.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// order of map iterations: the offset of each one of the maps with several entries.
type order struct {
	base uint64
	at   map[int]uint64
	n    int
	used []uint64
	rec  bool
}

func (o *order) next(used uint64) uint64 {
	if used < 2 {
		return 0
	}
	i := o.n
	o.n++
	if o.rec {
		o.used = append(o.used, used)
	}
	if d, ok := o.at[i]; ok {
		return d
	}
	return o.base
}

// under runs a generation with the order of map iterations given.
func under(o *order, f func() gen.Result) gen.Result {
	runtime.VerifMapRand = o.next
	defer func() { runtime.VerifMapRand = func(uint64) uint64 { return 0 } }()
	return f()
}

// outcome is what can be seen of a generation.
func outcome(r gen.Result) string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error"
	}
	return r.Src
}

func differs(what string, got, want string) []string {
	if got == want {
		return nil
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range g {
		if i >= len(w) || g[i] != w[i] {
			x := "nothing"
			if i < len(w) {
				x = strings.TrimSpace(w[i])
			}
			return []string{fmt.Sprintf("%s: line %d is %q, %s", what, i+1, strings.TrimSpace(g[i]), "not "+strconv.Quote(x))}
		}
	}
	return []string{fmt.Sprintf("%s: lines after line %d, which are not there otherwise: %q", what, len(g), strings.TrimSpace(w[len(g)]))}
}

type document struct {
	name string
	doc  any
	deps map[string]any
}

func (d document) run(o gen.Opts) gen.Result {
	o.Deps = d.deps
	return gen.Run(d.doc, o)
}

func ofVersion(v int, chans, comps M, ops M) M {
	d := M{"info": M{"title": "T", "version": "1.0.0"}, "channels": chans, "components": comps}
	if v == 2 {
		d["asyncapi"] = "2.6.0"
		return d
	}
	d["asyncapi"], d["operations"] = "3.0.0", ops
	return d
}

// smalls are small documents with several entries in their maps.
func smalls(v int) (out []document) {
	msg := func(kv ...any) M {
		return docs.With(M{"payload": obj(M{"b": str(), "a": obj(M{"y": str("format", "date"), "x": M{"type": "integer"}}), "snake_case": str("format", "date-time"), "o2": M{"type": "array", "items": obj(M{"v": obj(M{}), "u": obj(M{})})}, "o1": obj(M{"w": str()})}, "required", L{"a"}), "headers": obj(M{"h2": str(), "h1": str(), "o4": obj(M{"t": str()}), "o3": obj(M{"t": str()})})}, kv...)
	}
	if v == 2 {
		out = append(out, document{"channels", ofVersion(2, M{"c2": M{"publish": M{"message": msg()}}, "c1": M{"subscribe": M{"message": msg()}, "publish": M{"message": msg()}}, "c3.{p}.{q}": M{"subscribe": M{"message": ref("#/components/messages/m2")}, "parameters": M{"q": M{"schema": str()}, "p": M{"schema": str()}}}}, M{"messages": M{"m2": msg(), "m1": msg()}}, nil), nil})
		out = append(out, document{"messages", ofVersion(2, M{"c": M{"subscribe": M{"message": M{"oneOf": L{msg(), ref("#/components/messages/m1"), M{"payload": obj(M{"b": M{"type": "integer"}, "z": str()})}}}}}}, M{"messages": M{"m2": ref("#/components/messages/m1"), "m1": msg("correlationId", ref("#/components/correlationIds/ci"))}, "correlationIds": M{"ci": M{"location": "$message.header#/new"}, "c0": M{"location": "$message.payload#/new/x"}}}, nil), nil})
	} else {
		out = append(out, document{"channels", ofVersion(3, M{"c2": M{"address": "c2.{q}.{p}", "messages": M{"m2": msg(), "m1": msg()}, "parameters": M{"q": M{}, "p": M{}}}, "c1": M{"address": "c1", "messages": M{"a2": msg(), "a1": ref("#/components/messages/m1")}}}, M{"messages": M{"m2": msg(), "m1": msg()}},
			M{"o2": M{"action": "send", "channel": ref("#/channels/c2")}, "o1": M{"action": "receive", "channel": ref("#/channels/c1")}, "o3": M{"action": "send", "channel": ref("#/channels/c1"), "messages": L{ref("#/channels/c1/messages/a2")}}}), nil})
		out = append(out, document{"replies", ofVersion(3, M{"c": M{"address": "c", "messages": M{"m": msg("correlationId", M{"location": "$message.header#/cid"})}}, "r": M{"address": "r", "messages": M{"r2": msg(), "r1": msg("correlationId", ref("#/components/correlationIds/ci"))}}, "d": M{"messages": M{"d": msg()}}}, M{"correlationIds": M{"ci": M{"location": "$message.header#/new"}, "c0": M{"location": "$message.payload#/new/x"}}},
			M{"o2": M{"action": "receive", "channel": ref("#/channels/c"), "reply": M{"channel": ref("#/channels/r")}}, "o1": M{"action": "receive", "channel": ref("#/channels/c"), "reply": M{"channel": ref("#/channels/d"), "address": M{"location": "$message.header#/to"}}}, "o3": M{"action": "send", "channel": ref("#/channels/c"), "reply": M{"channel": ref("#/channels/r")}}}), nil})
		out = append(out, document{"traits", ofVersion(3, M{"c": M{"address": "c", "messages": M{"m2": M{"payload": str(), "traits": L{ref("#/components/messageTraits/t2"), ref("#/components/messageTraits/t1")}}, "m1": M{"payload": str(), "traits": L{ref("#/components/messageTraits/t1")}}}}},
			M{"messageTraits": M{"t2": M{"headers": obj(M{"h": str(), "g": str()}), "correlationId": M{"location": "$message.header#/cid"}}, "t1": M{"headers": obj(M{"h": M{"type": "integer"}, "k": str()}), "description": "d"}}, "messages": M{"m4": M{"payload": str(), "traits": L{ref("#/components/messageTraits/t2")}}}},
			M{"o": M{"action": "send", "channel": ref("#/channels/c")}}), nil})
	}
	comp := func(k string) M {
		return M{k: L{ref("#/components/schemas/s1"), obj(M{"b": M{"type": "integer"}, "d": str()}, "required", L{"d"}), M{"allOf": L{ref("#/components/schemas/s2"), obj(M{"e": str()})}}}, "type": "object", "properties": M{"own": str(), "b": M{"type": "boolean"}}}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		m := M{"payload": ref("#/components/schemas/c2")}
		chans, ops := M{"c": M{"address": "c", "messages": M{"m": m}}}, M{"o": M{"action": "send", "channel": ref("#/channels/c")}}
		if v == 2 {
			chans = M{"c": M{"subscribe": M{"message": m}}}
		}
		out = append(out, document{k, ofVersion(v, chans, M{"schemas": M{"c2": comp(k), "c1": docs.Copy(comp(k)), "s2": obj(M{"b": str(), "o": obj(M{"y": str(), "x": str()})}, "required", L{"b"}), "s1": obj(M{"a": str(), "b": M{"type": "number"}}), "s0": obj(M{"r": ref("#/components/schemas/c2"), "q": ref("#/components/schemas/s0")}, "additionalProperties", obj(M{"n": str(), "m": str()}))}}, ops), nil})
	}
	// custom imports
	imps := M{}
	for k, p := range map[string]string{"s2": "math/big", "s1": "container/list", "s0": "net/url"} {
		_, n, _ := strings.Cut(p, "/")
		imps[k] = obj(M{"p": str("x-go-type", n+".X", "x-go-type-import", M{"path": p}), "q": str("x-go-type", "al"+n+".X", "x-go-type-import", M{"path": "x/" + p, "name": "al" + n})})
	}
	out = append(out, document{"imports", ofVersion(v, M{}, M{"schemas": imps}, M{}), nil})
	// several files
	dep := func(n string) any {
		return ofVersion(v, M{}, M{"schemas": M{"z" + n: obj(M{"b": str(), "a": ref("#/components/schemas/y" + n)}), "y" + n: obj(M{"k": str(), "j": str()})}}, M{})
	}
	m := M{"payload": obj(M{"two": ref("two.json#/components/schemas/ztwo"), "one": ref("one.json#/components/schemas/zone")})}
	chans, ops := M{"c": M{"address": "c", "messages": M{"m": m}}}, M{"o": M{"action": "send", "channel": ref("#/channels/c")}}
	if v == 2 {
		chans = M{"c": M{"subscribe": M{"message": m}}}
	}
	out = append(out, document{"files", ofVersion(v, chans, M{"schemas": M{"l2": ref("one.json#/components/schemas/zone"), "l1": M{"allOf": L{ref("two.json#/components/schemas/ztwo"), ref("one.json#/components/schemas/zone")}}}}, ops), M{"one.json": dep("one"), "two.json": dep("two")}})
	return out
}

func rich(v int) document {
	if v == 2 {
		return document{"rich", docs.V2(), nil}
	}
	return document{"rich", docs.V3(), nil}
}

// deviations are the other offsets of a map of a number of entries.
func deviations(used uint64) uint64 {
	if used > 8 {
		return 16
	}
	return used
}

// orders compares the orders of map iterations with up to dev deviations.
func orders(e *enum.E, d document, o gen.Opts, dev int) {
	o.Raw = true
	want, rec := base(d, o)
	var rec2 func(from, dev int, at map[int]uint64, name string)
	rec2 = func(from, dev int, at map[int]uint64, name string) {
		for i := from; i < len(rec.used); i++ {
			for x := uint64(1); x < deviations(rec.used[i]); x++ {
				now := map[int]uint64{i: x}
				for k, v := range at {
					now[k] = v
				}
				n := fmt.Sprintf("%s %d+%d", name, i, x)
				e.Case(fmt.Sprintf("%s %s: iteration%s", d.name, opt(o), n), func() ([]string, bool) {
					r := under(&order{at: now}, func() gen.Result { return d.run(o) })
					return differs("with the iteration"+n, outcome(r), want), true
				})
				if dev > 1 {
					rec2(i+1, dev-1, now, n)
				}
			}
		}
	}
	rec2(0, dev, nil, "")
}

func opt(o gen.Opts) string {
	s := o.String()
	if o.Raw {
		s += " raw"
	}
	if s = strings.TrimSpace(s); s == "" {
		return "defaults"
	}
	return s
}

// base is the outcome in the default order, once what is cached is.
func base(d document, o gen.Opts) (string, *order) {
	var r gen.Result
	var rec *order
	for i := 0; i < 3; i++ {
		rec = &order{rec: true}
		r = under(rec, func() gen.Result { return d.run(o) })
	}
	return outcome(r), rec
}

// rotated compares the orders where every iteration has the same offset.
func rotated(e *enum.E, name string, d document, o gen.Opts) {
	e.Case(name, func() (fails []string, ok bool) {
		var want string
		for x := uint64(0); x < 8; x++ {
			r := under(&order{base: x}, func() gen.Result { return d.run(o) })
			if x == 0 {
				want = outcome(r)
				continue
			}
			if f := differs(fmt.Sprintf("with every iteration at %d", x), outcome(r), want); f != nil {
				return f, true
			}
		}
		return nil, true
	})
}

func optionSets() (out []gen.Opts) {
	for _, keys := range []string{"", "snake", "camel", "kebab"} {
		for _, naming := range []string{"", "camel"} {
			for _, ign := range []bool{false, true} {
				for _, ptr := range []bool{false, true} {
					out = append(out, gen.Opts{Keys: keys, Naming: naming, IgnoreFormat: ign, ForcePtr: ptr, Raw: true})
				}
			}
		}
	}
	for _, p := range []string{"u", "a", "t", "ua", "at", "ut"} {
		out = append(out, gen.Opts{Parts: p, Raw: true})
	}
	return append(out, gen.Opts{}, gen.Opts{Package: "other", Raw: true}, gen.Opts{Keys: "wrong", Raw: true}, gen.Opts{Naming: "wrong", Raw: true}, gen.Opts{Keys: "snake", Naming: "wrong", Raw: true})
}

type job struct {
	Version int
	Doc     int
	Opts    gen.Opts
}

func (j job) document() document {
	if j.Doc < 0 {
		return rich(j.Version)
	}
	return smalls(j.Version)[j.Doc]
}

var memo = map[string]string{}

// fresh is the hash of the outcome in another process.
func fresh(j job) string {
	b, _ := json.Marshal(j)
	if s, ok := memo[string(b)]; ok {
		return s
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_P23_CHILD="+string(b))
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprint("child: ", err))
	}
	memo[string(b)] = string(out)
	return string(out)
}

func hash(r gen.Result) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(outcome(r)))) }

func same(what string, r gen.Result, j job) []string {
	if hash(r) == fresh(j) {
		return nil
	}
	got := outcome(r)
	// show the difference, with an output of this process where nothing else is known
	cmd := exec.Command(os.Args[0])
	b, _ := json.Marshal(j)
	cmd.Env = append(os.Environ(), "VERIF_P23_CHILD="+string(b), "VERIF_P23_FULL=1")
	want, _ := cmd.Output()
	if f := differs(what, got, string(want)); f != nil {
		return f
	}
	return []string{what + ": another output than in another process"}
}

func child(s string) {
	defer gen.Clean()
	var j job
	if err := json.Unmarshal([]byte(s), &j); err != nil {
		panic(err)
	}
	r := j.document().run(j.Opts)
	if os.Getenv("VERIF_P23_FULL") != "" {
		fmt.Print(outcome(r))
		return
	}
	fmt.Print(hash(r))
}

// histories of generations in this process, before one which is compared with the
// same one in another process.
func histories(e *enum.E, depth int) {
	sets := optionSets()
	var jobs, before []job
	for _, v := range []int{2, 3} {
		for _, o := range sets {
			jobs = append(jobs, job{v, 0, o})
			before = append(before, job{v, 0, o})
		}
		for i := range smalls(v) {
			before = append(before, job{v, i, gen.Opts{Raw: true}})
			if i > 0 {
				jobs = append(jobs, job{v, i, gen.Opts{Raw: true}})
			}
		}
		before = append(before, job{v, -1, gen.Opts{Raw: true}}, job{v, -1, gen.Opts{Raw: true, Naming: "camel", Keys: "kebab", ForcePtr: true, IgnoreFormat: true}})
		jobs = append(jobs, job{v, -1, gen.Opts{Raw: true}}, job{v, -1, gen.Opts{}})
	}
	var rec func(depth int, h []job)
	rec = func(depth int, h []job) {
		for _, j := range jobs {
			j, h := j, h
			var names []string
			for _, x := range h {
				names = append(names, x.name())
			}
			e.Case(strings.Join(append(names, j.name()), " ; "), func() ([]string, bool) {
				for _, x := range h {
					x.document().run(x.Opts)
				}
				return same("after "+strings.Join(names, " ; "), j.document().run(j.Opts), j), true
			})
		}
		if depth > 0 {
			for _, j := range before {
				rec(depth-1, append(h[:len(h):len(h)], j))
			}
		}
	}
	rec(depth, nil)
}

func (j job) name() string {
	return fmt.Sprintf("v%d %s %s", j.Version, j.document().name, opt(j.Opts))
}

// again generates several times from what was read once.
func again(e *enum.E) {
	sets := optionSets()
	for _, v := range []int{2, 3} {
		for i := -1; i < len(smalls(v)); i++ {
			for _, a := range sets {
				for _, b := range sets {
					d := gen.Opts{Raw: true}
					if opt(a) != opt(b) && (i > 1 || opt(a) != opt(d) && opt(b) != opt(d)) && !e.Thorough {
						continue
					}
					ja, jb := job{v, i, a}, job{v, i, b}
					e.Case(ja.name()+" then "+opt(b), func() ([]string, bool) {
						d := ja.document()
						rs := gen.RunSame(d.doc, d.deps, a, b, a)
						var fails []string
						for k, j := range []job{ja, jb, ja} {
							fails = append(fails, differs(fmt.Sprintf("generation %d", k+1), outcome(rs[k]), outcome(j.document().run(j.Opts)))...)
						}
						return fails, true
					})
				}
			}
		}
	}
}

var edits = []any{docs.Deleted{}, M{}, str(), obj(M{"e2": str(), "e1": str()})}

func main() {
	runtime.VerifFixedSeed = true
	if s := os.Getenv("VERIF_P23_CHILD"); s != "" {
		child(s)
		return
	}
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		debug.SetGCPercent(400)
		for _, v := range []int{2, 3} {
			e.Section(fmt.Sprintf("map orders, small documents v%d", v))
			for _, d := range smalls(v) {
				dev := 1
				if e.Thorough {
					dev = 2
				}
				for i, o := range []gen.Opts{{}, {Keys: "snake", Naming: "camel", ForcePtr: true, IgnoreFormat: true}} {
					if i == 0 || e.Thorough {
						orders(e, d, o, dev)
					}
				}
				for _, o := range optionSets() {
					rotated(e, d.name+" "+opt(o)+" rotated", d, o)
				}
			}
			e.Section(fmt.Sprintf("map orders, rich document v%d", v))
			orders(e, rich(v), gen.Opts{}, 1)
			for _, o := range optionSets() {
				rotated(e, opt(o)+" rotated", rich(v), o)
			}
			e.Section(fmt.Sprintf("map orders, edited document v%d", v))
			d := rich(v)
			for _, n := range docs.Nodes(d.doc) {
				for i, to := range edits {
					if i%2 == 1 && !e.Thorough {
						continue
					}
					rotated(e, fmt.Sprint(n.Path, " edit ", i), document{"", docs.Set(d.doc, n.Path, to), nil}, gen.Opts{Raw: true})
				}
			}
		}
		e.Section("histories")
		if e.Thorough {
			histories(e, 2)
		} else {
			histories(e, 1)
		}
		e.Section("the same document again")
		again(e)
	})
}
