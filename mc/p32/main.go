// P32: the command generates exactly what its arguments ask for.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

var (
	ref = docs.Ref
	str = docs.Str
	obj = docs.Obj
)

// want is what the arguments of a command ask for.
type want struct {
	inputs []string
	opt    options.Options
	bad    string // why it has to be refused, if it has
	help   bool
}

// form is a way to give (or not to give) a flag.
type form struct {
	args []string
	set  func(w *want)
}

func defaults() want {
	return want{inputs: []string{"asyncapi.yaml"}, opt: options.Options{
		OutputPath: "asyncapi.gen.go", PackageName: "asyncapi", ConvertKeys: "none", NamingScheme: "none",
		Generate: options.GeneratorOptions{User: true, Application: true, Types: true}}}
}

// spellings are the ways to write a flag with a value.
func spellings(short, long, value string) (out [][]string) {
	out = append(out, []string{"--" + long + "=" + value}, []string{"--" + long, value})
	if short != "" && value != "" {
		out = append(out, []string{"-" + short, value}, []string{"-" + short + "=" + value})
		if value[0] != '=' {
			out = append(out, []string{"-" + short + value})
		}
	}
	return out
}

// valued are the forms of a flag with a value, in every spelling.
func valued(short, long string, values []string, set func(w *want, v string)) (out []form) {
	out = append(out, form{nil, func(*want) {}})
	for _, v := range values {
		v := v
		for _, s := range spellings(short, long, v) {
			out = append(out, form{s, func(w *want) { set(w, v) }})
		}
	}
	return out
}

func boolean(short, long string, set func(w *want, v bool)) (out []form) {
	out = append(out, form{nil, func(*want) {}})
	on := []string{"--" + long, "--" + long + "=true", "--" + long + "=1"}
	if short != "" {
		on = append(on, "-"+short, "-"+short+"=true")
	}
	for _, a := range on {
		out = append(out, form{[]string{a}, func(w *want) { set(w, true) }})
	}
	out = append(out, form{[]string{"--" + long + "=false"}, func(w *want) { set(w, false) }})
	out = append(out, form{[]string{"--" + long + "=perhaps"}, func(w *want) { w.bad = "not a boolean" }})
	return out
}

func oneOf(allowed ...string) func(string) bool {
	return func(v string) bool {
		for _, a := range allowed {
			if a == v {
				return true
			}
		}
		return false
	}
}

var parts = func() (out []string) {
	// every sequence of up to three parts, repeated or not
	all := []string{"user", "application", "types"}
	out = append(out, all...)
	for _, a := range all {
		for _, b := range all {
			out = append(out, a+","+b)
			for _, c := range all {
				out = append(out, a+","+b+","+c)
			}
		}
	}
	return append(out, "", "users", "type", "User", "user, types", " user", "user,", ",user", "user,,types", "none", "all", "user;types", "types,client", "client,types")
}()

func setParts(w *want, v string) {
	w.opt.Generate = options.GeneratorOptions{}
	if v == "" {
		return
	}
	for _, p := range strings.Split(v, ",") {
		switch p {
		case "user":
			w.opt.Generate.User = true
		case "application":
			w.opt.Generate.Application = true
		case "types":
			w.opt.Generate.Types = true
		default:
			w.bad = "unknown part " + p
		}
	}
}

// group of flags: the forms of each one.
type group struct {
	name  string
	forms []form
}

func inputs(v string) func(w *want) {
	return func(w *want) {
		w.inputs = strings.Split(v, ",")
		if v == "" {
			w.inputs, w.bad = nil, "no input"
		}
	}
}

func groups(v int) []group {
	var in []form
	in = append(in, form{nil, func(*want) {}})
	for _, x := range []string{"asyncapi.yaml", "./asyncapi.yaml", "other.json", "sub/nested.yml", "asyncapi.yaml,dep.json", "multi.json,dep.json", "multi.json,./dep.json", "multi.json,dep.json,dep2.yaml", "multi.json,dep2.yaml,dep.json", "multi.json,dep.json,dep.json", "multi.json", "dep.json,multi.json", "missing.yaml", "asyncapi.yaml,missing.yaml", "asyncapi.txt", "asyncapi.yaml,asyncapi.txt", "broken.json", "asyncapi.yaml,broken.json", "dangling.json", "sub", "versionless.json", "old.yaml", "future.json", ""} {
		for _, s := range spellings("i", "input", x) {
			in = append(in, form{s, inputs(x)})
		}
	}
	for _, x := range []string{"multi.json dep.json", "multi.json dep.json dep2.yaml", "multi.json dep2.yaml dep.json", "multi.json dep2.yaml,dep.json", "multi.json,dep2.yaml dep.json"} {
		var args []string
		for i, p := range strings.Split(x, " ") {
			args = append(args, []string{"-i", "--input", "-i"}[i], p)
		}
		in = append(in, form{args, inputs(strings.ReplaceAll(x, " ", ","))})
	}
	conv := func(w *want, v string) {
		w.opt.ConvertKeys = v
		if !oneOf("none", "snake", "camel", "kebab")(v) {
			w.bad = "unknown conversion"
		}
	}
	naming := func(w *want, v string) {
		w.opt.NamingScheme = v
		if !oneOf("none", "camel")(v) {
			w.bad = "unknown naming"
		}
	}
	return []group{
		{"input", in},
		{"output", valued("o", "output", []string{"out.go", "./out.go", "sub/out.go", "asyncapi.gen.go", "existing.go", "long.go", "noext", "missing/out.go", "sub", ""}, func(w *want, v string) {
			w.opt.OutputPath = v
			if v == "" || v == "sub" || strings.HasPrefix(v, "missing/") {
				w.bad = "no output"
			}
		})},
		{"package", valued("p", "package", []string{"main", "pkg", "asyncapi", "a1_b"}, func(w *want, v string) { w.opt.PackageName = v })},
		{"generate", valued("g", "generate", parts, setParts)},
		{"formatting", boolean("f", "disable-formatting", func(w *want, v bool) { w.opt.DisableFormatting = v })},
		{"keys", valued("c", "convert-keys", []string{"none", "snake", "camel", "kebab", "Snake", "", "pascal", "snake,camel"}, conv)},
		{"naming", valued("n", "naming-scheme", []string{"none", "camel", "snake", "", "Camel"}, naming)},
		{"dates", boolean("", "ignore-string-format", func(w *want, v bool) { w.opt.IgnoreStringFormat = v })},
		{"pointers", boolean("", "force-pointers", func(w *want, v bool) { w.opt.ForcePointers = v })},
	}
}

func document(v int, extra M) M {
	payload := obj(docs.With(M{"snake_case_key": str(), "when": str("format", "date-time"), "day": str("format", "date"), "HTTPServer": str(), "in": obj(M{"b_c": M{"type": "integer"}})}, "req", str()), "required", L{"req"})
	for k, x := range extra {
		payload["properties"].(M)[k] = x
	}
	m := M{"payload": payload, "headers": obj(M{"h_h": str(), "k": str()}, "required", L{"k"})}
	d := M{"info": M{"title": "T", "version": "1.0.0"}, "channels": M{"user_channel.one": M{"address": "user.one", "messages": M{"my_MSG": m}}},
		"asyncapi": "3.0.0", "operations": M{"get_it": M{"action": "receive", "channel": ref("#/channels/user_channel.one")}, "put-it": M{"action": "send", "channel": ref("#/channels/user_channel.one")}},
		"components": M{"schemas": M{"some_schema": obj(M{"x_y": str()})}}}
	if v == 2 {
		d["asyncapi"] = "2.6.0"
		delete(d, "operations")
		d["channels"] = M{"user_channel.one": M{"subscribe": M{"operationId": "get_it", "message": docs.With(m, "name", "my_MSG")}, "publish": M{"message": docs.Copy(m)}}}
	}
	return d
}

func files(v int) map[string]string {
	dep := M{"components": M{"schemas": M{"shared": obj(M{"d_1": str()})}}}
	dep2 := M{"asyncapi": document(v, nil)["asyncapi"], "info": M{"title": "D", "version": "1"}, "components": M{"schemas": M{"shared2": obj(M{"d_2": str("format", "date")})}}}
	old := document(v, nil)
	old["asyncapi"] = "1.2.0"
	future := document(v, nil)
	future["asyncapi"] = "4.0.0"
	versionless := document(v, nil)
	delete(versionless, "asyncapi")
	out := map[string]string{}
	for n, d := range map[string]any{
		"asyncapi.yaml": document(v, nil), "other.json": document(v, M{"only_other": str()}), "sub/nested.yml": document(5-v, M{"only_nested": str()}),
		"asyncapi.txt": document(v, nil), "dep.json": dep, "dep2.yaml": dep2, "old.yaml": old, "future.json": future, "versionless.json": versionless,
		"multi.json":    document(v, M{"s": ref("dep.json#/components/schemas/shared"), "s2": obj(M{"t": ref("./dep.json#/components/schemas/shared")})}),
		"dangling.json": document(v, M{"s": ref("#/components/schemas/nowhere")}),
	} {
		out[n] = docs.JSON(d)
	}
	out["broken.json"] = out["asyncapi.yaml"][:200]
	out["existing.go"] = "package existing\n"
	out["long.go"] = "package long\n" + strings.Repeat("// more\n", 40000)
	return out
}

// lib is what the library does of what the arguments ask for, in the current directory.
func lib(w want) (src string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	if w.bad != "" {
		return "", errors.New(w.bad)
	}
	cg, err := codegen.FromFile(w.inputs[0], w.inputs[1:]...)
	if err != nil {
		return "", err
	}
	o := w.opt
	o.OutputPath = filepath.Join(gen.Dir(), "expected.go")
	if err := cg.Generate(o); err != nil {
		return "", err
	}
	b, err := os.ReadFile(o.OutputPath)
	return string(b), err
}

// the line which tells who generated the code has the name of the program.
var by = regexp.MustCompile(`(?m)^// Code generated by .* DO NOT EDIT\.$`)

func normal(s string) string { return by.ReplaceAllString(s, "// Code generated DO NOT EDIT.") }

// place is a directory with the files of a version.
type place struct {
	dir   string
	files map[string]string
	cache map[string]result
}

type result struct {
	src string
	err error
}

func newPlace(v int) *place {
	p := &place{filepath.Join(gen.Dir(), fmt.Sprint("v", v)), files(v), map[string]result{}}
	if err := os.MkdirAll(filepath.Join(p.dir, "sub"), 0o755); err != nil {
		panic(err)
	}
	p.reset()
	return p
}

// reset gives the directory its files back, and those only.
func (p *place) reset() {
	filepath.Walk(p.dir, func(f string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			if r, _ := filepath.Rel(p.dir, f); p.files[r] == "" {
				os.Remove(f)
			}
		}
		return nil
	})
	for n, c := range p.files {
		f := filepath.Join(p.dir, n)
		if b, err := os.ReadFile(f); err == nil && string(b) == c {
			continue
		}
		if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
			panic(err)
		}
	}
}

// expected is what the library does, once per set of options.
func (p *place) expected(w want) result {
	o := w.opt
	o.OutputPath = ""
	b, _ := json.Marshal([]any{w.inputs, o, w.bad})
	if r, ok := p.cache[string(b)]; ok {
		return r
	}
	cwd, _ := os.Getwd()
	if err := os.Chdir(p.dir); err != nil {
		panic(err)
	}
	defer os.Chdir(cwd)
	src, err := lib(w)
	r := result{normal(src), err}
	p.cache[string(b)] = r
	return r
}

// snapshot is the content of every file.
func (p *place) snapshot() map[string]string {
	out := map[string]string{}
	filepath.Walk(p.dir, func(f string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(f)
			r, _ := filepath.Rel(p.dir, f)
			out[r] = string(b)
		} else if err == nil && i.IsDir() {
			if r, _ := filepath.Rel(p.dir, f); r != "." {
				out[r+"/"] = ""
			}
		}
		return nil
	})
	return out
}

// command runs the command in a directory; blocks limits the size of the files it writes.
func command(dir string, args []string, blocks int) (code int, stdout, stderr string) {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Getenv("VERIF_CODEGEN"), args...)
	if blocks >= 0 {
		c = exec.CommandContext(ctx, "sh", append([]string{"-c", `ulimit -f "$1"; shift; exec "$@"`, "sh", fmt.Sprint(blocks), os.Getenv("VERIF_CODEGEN")}, args...)...)
	}
	var out, errb bytes.Buffer
	c.Dir, c.Stdout, c.Stderr = dir, &out, &errb
	err := c.Run()
	if err == nil {
		return 0, out.String(), errb.String()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return ee.ExitCode(), out.String(), errb.String()
	}
	panic(err)
}

func crashed(stderr string) bool {
	return strings.Contains(stderr, "panic: ") || strings.Contains(stderr, "goroutine ") || strings.Contains(stderr, "fatal error: ")
}

func short(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// check runs the command and compares what it does with what its arguments ask for.
func (p *place) check(args []string, w want) (fails []string, nontrivial bool) {
	before := p.snapshot()
	x := p.expected(w)
	code, stdout, stderr := command(p.dir, args, -1)
	after := p.snapshot()
	defer p.reset()
	fail := func(f string, a ...any) { fails = append(fails, fmt.Sprintf(f, a...)) }
	if crashed(stderr) {
		fail("the command panics: %s", short(stderr))
	}
	target := ""
	switch {
	case w.help:
		if code != 0 {
			fail("the exit status is %d: %s", code, short(stderr))
		}
	case x.err != nil:
		if code == 0 {
			fail("the command succeeds, although: %v", x.err)
		}
		if strings.TrimSpace(stderr) == "" {
			fail("nothing is said on the standard error")
		}
	default:
		target = filepath.Clean(w.opt.OutputPath)
		if code != 0 {
			fail("the command fails (%d): %s", code, short(stderr))
			break
		}
		got, ok := after[target]
		if !ok {
			fail("there is no %s", target)
			break
		}
		if !by.MatchString(got) {
			fail("the code does not say that it is generated")
		}
		if stdout != "" || stderr != "" {
			fail("the command prints %q", short(stdout+stderr))
		}
		if g := normal(got); g != x.src {
			gl, wl := strings.Split(g, "\n"), strings.Split(x.src, "\n")
			for i := range gl {
				if i >= len(wl) || gl[i] != wl[i] {
					exp := "the end"
					if i < len(wl) {
						exp = wl[i]
					}
					fail("line %d of the output is %q, not %q", i+1, gl[i], exp)
					break
				}
			}
			if len(gl) < len(wl) && len(fails) == 0 {
				fail("the output ends at line %d of %d", len(gl), len(wl))
			}
		}
	}
	// nothing else changes
	var names []string
	for n := range before {
		names = append(names, n)
	}
	for n := range after {
		if _, ok := before[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if n == target {
			continue
		}
		b, was := before[n]
		a, is := after[n]
		switch {
		case !was:
			fail("%s appears", n)
		case !is:
			fail("%s disappears", n)
		case a != b:
			fail("%s changes", n)
		}
	}
	return fails, x.err == nil && !w.help
}

// run checks a choice of forms.
func run(e *enum.E, p *place, v int, chosen ...form) {
	var args []string
	w := defaults()
	for _, f := range chosen {
		args = append(args, f.args...)
		f.set(&w)
	}
	e.Case(fmt.Sprintf("v%d: %s", v, quote(args)), func() ([]string, bool) { return p.check(args, w) })
}

func quote(args []string) string {
	out := []string{"asyncapi-codegen"}
	for _, a := range args {
		if a == "" || strings.ContainsAny(a, " ;") {
			a = "'" + a + "'"
		}
		out = append(out, a)
	}
	return strings.Join(out, " ")
}

// good are the forms of a group which are not refused, one per value.
func good(g group) (out []form) {
	seen := map[string]bool{}
	for _, f := range g.forms {
		w := defaults()
		f.set(&w)
		b, _ := json.Marshal([]any{w.inputs, w.opt})
		if w.bad == "" && (!seen[string(b)] || f.args == nil) {
			seen[string(b)] = true
			out = append(out, f)
		}
	}
	return out
}

func main() {
	enum.Main(func(e *enum.E) {
		defer gen.Clean()
		for _, v := range []int{3, 2} {
			p, gs := newPlace(v), groups(v)
			e.Section(fmt.Sprintf("v%d: one flag", v))
			for _, g := range gs {
				for _, f := range g.forms {
					run(e, p, v, f)
				}
			}
			for _, a := range [][]string{{"--help"}, {"-h"}} {
				a := a
				e.Case(fmt.Sprintf("v%d: %s", v, quote(a)), func() ([]string, bool) {
					w := defaults()
					w.help = true
					fails, _ := p.check(a, w)
					_, stdout, _ := command(p.dir, a, -1)
					for _, n := range []string{"input", "output", "package", "generate", "disable-formatting", "convert-keys", "naming-scheme", "ignore-string-format", "force-pointers"} {
						if !strings.Contains(stdout, "--"+n) {
							fails = append(fails, "the help does not have --"+n)
						}
					}
					return fails, true
				})
			}
			for _, a := range [][]string{{"--unknown"}, {"-x"}, {"--inputs", "asyncapi.yaml"}, {"-o"}, {"--generate"}, {"-g", "types", "--package"}} {
				a := a
				e.Case(fmt.Sprintf("v%d: %s", v, quote(a)), func() ([]string, bool) {
					w := defaults()
					w.bad = "unknown flag or missing value"
					return p.check(a, w)
				})
			}
			e.Section(fmt.Sprintf("v%d: two flags", v))
			for i, g := range gs {
				for j, h := range gs {
					if i == j {
						continue // the order matters too
					}
					for _, f := range values(g) {
						for _, k := range values(h) {
							if !e.Thorough && i > j && (len(f.args)+len(k.args))%2 == 0 && i > 1 && j > 1 {
								continue
							}
							run(e, p, v, f, k)
						}
					}
				}
			}
			e.Section(fmt.Sprintf("v%d: all options", v))
			sel := [][]form{{gs[3].forms[0]}, good(gs[4]), good(gs[5]), good(gs[6]), good(gs[7]), good(gs[8])}
			for _, s := range []string{"user", "types,application", "application,user", "types"} {
				s := s
				sel[0] = append(sel[0], form{[]string{"-g", s}, func(w *want) { setParts(w, s) }})
			}
			if e.Thorough {
				sel = append(sel, good(gs[0]), good(gs[1])[:3], good(gs[2])[:2])
			}
			product(sel, nil, func(fs []form) { run(e, p, v, fs...) })
			e.Section(fmt.Sprintf("v%d: the output does not fit", v))
			for _, o := range []string{"out.go", "existing.go", "long.go"} {
				for _, raw := range []bool{false, true} {
					w := defaults()
					w.opt.OutputPath, w.opt.DisableFormatting = o, raw
					args := []string{"-o", o}
					if raw {
						args = append(args, "-f")
					}
					size := len(p.expected(w).src)
					for n := 0; n*512 < size; n++ {
						n := n
						e.Case(fmt.Sprintf("v%d: %s: files of at most %d blocks", v, quote(args), n), func() ([]string, bool) {
							defer p.reset()
							code, _, stderr := command(p.dir, args, n)
							if code == 0 {
								return []string{"the command succeeds, although the output does not fit"}, true
							}
							if strings.TrimSpace(stderr) == "" && code != -1 {
								return []string{"nothing is said on the standard error"}, true
							}
							for f, c := range p.files {
								if b, _ := os.ReadFile(filepath.Join(p.dir, f)); f != o && string(b) != c {
									return []string{f + " changes"}, true
								}
							}
							return nil, true
						})
					}
				}
			}
		}
	})
}

// values are the forms of a group, one per value, refused ones included.
func values(g group) (out []form) {
	seen := map[string]bool{}
	for _, f := range g.forms {
		w := defaults()
		f.set(&w)
		b, _ := json.Marshal([]any{w.inputs, w.opt, w.bad, len(f.args) == 0})
		if !seen[string(b)] && f.args != nil {
			seen[string(b)] = true
			out = append(out, f)
		}
	}
	return out
}

func product(sel [][]form, at []form, f func([]form)) {
	if len(at) == len(sel) {
		f(append([]form{}, at...))
		return
	}
	for _, x := range sel[len(at)] {
		product(sel, append(at, x), f)
	}
}
