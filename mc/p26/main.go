// P26: documents are recognised, versions respected, and bad input gives an error.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	v2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
	v3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"

	"verifmc/docs"
	"verifmc/enum"
	"verifmc/gen"
)

type (
	M = gen.M
	L = gen.L
)

func pathString(p []any) string {
	var s strings.Builder
	for _, x := range p {
		fmt.Fprintf(&s, "/%v", x)
	}
	return s.String()
}

// what a node is replaced with
func replacements() []any {
	return []any{docs.Deleted{}, nil, true, 1, -1.5, "", "x", "#/x", L{}, M{}, L{M{}}, L{nil}, M{"k": nil}, M{"k": M{}}, M{"$ref": "#/x"}, M{"$ref": ""}, M{"$ref": 1}}
}

func show(v any) string {
	if _, ok := v.(docs.Deleted); ok {
		return "removed"
	}
	return docs.JSON(v)
}

// process parses, processes and generates; a panic anywhere is the caller's.
func process(doc any) error {
	r := gen.Run(doc, gen.Opts{Raw: true})
	if r.Panic != "" {
		panic(r.Panic)
	}
	return r.Err
}

// fits tells whether encoding/json accepts a value of this kind in the type.
func fits(t reflect.Type, v any) bool {
	switch v.(type) {
	case nil, docs.Deleted:
		return true
	}
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Struct, reflect.Map:
		if _, ok := v.(bool); ok && docs.Decodes(t) {
			return true // such as a schema that is a boolean
		}
		_, ok := v.(M)
		return ok
	case reflect.Slice:
		_, ok := v.(L)
		return ok
	case reflect.String:
		_, ok := v.(string)
		return ok
	case reflect.Bool:
		_, ok := v.(bool)
		return ok
	case reflect.Float64:
		switch v.(type) {
		case int, float64:
			return true
		}
		return false
	case reflect.Uint:
		i, ok := v.(int)
		return ok && i >= 0
	}
	return true
}

func versions(e *enum.E) {
	e.Section("versions")
	supported := map[string]int{"2.0.0": 2, "2.1.0": 2, "2.2.0": 2, "2.3.0": 2, "2.4.0": 2, "2.5.0": 2, "2.6.0": 2, "3.0.0": 3}
	var strs []string
	for _, a := range []string{"", "0", "1", "2", "3", "4", "02", "20", "v2", "v3", " 3", "３"} {
		for _, b := range []string{"", ".", ".0", ".1", ".2", ".3", ".4", ".5", ".6", ".7", ".10", ".00", ".x", ". 0"} {
			for _, c := range []string{"", ".", ".0", ".1", ".0.0", ".x", ".0 ", ".0-rc1", ".0\n", ".00"} {
				strs = append(strs, a+b+c)
			}
		}
	}
	vals := []any{docs.Deleted{}, nil, 2, 3, 2.6, true, L{}, L{"2.6.0"}, M{}, M{"2.6.0": true}}
	for _, s := range strs {
		vals = append(vals, s)
	}
	for _, v := range vals {
		v := v
		for _, key := range []string{"asyncapi", "Asyncapi", "version", "openapi"} {
			key := key
			for _, yaml := range []bool{false, true} {
				yaml := yaml
				e.Case(fmt.Sprintf("%s %s yaml=%v", key, show(v), yaml), func() (fails []string, nt bool) {
					d := M{"info": M{"title": "t", "version": "1"}, "channels": M{}}
					if _, del := v.(docs.Deleted); !del {
						d[key] = v
					}
					var spec asyncapi.Specification
					var err error
					if yaml {
						spec, err = parser.FromYAML(parser.FromYAMLParams{Data: []byte(YAML(d, 0))})
					} else {
						spec, err = parser.FromJSON(parser.FromJSONParams{Data: []byte(docs.JSON(d))})
					}
					want := 0
					if s, ok := v.(string); ok && key == "asyncapi" {
						want = supported[s]
					}
					switch {
					case want == 0 && err == nil:
						fails = append(fails, "accepted")
					case want != 0 && err != nil:
						fails = append(fails, "refused: "+err.Error())
					case want != 0 && spec.MajorVersion() != want:
						fails = append(fails, fmt.Sprintf("parsed as version %d", spec.MajorVersion()))
					}
					if want != 0 && err == nil {
						_, e2 := v2.FromUnknownVersion(spec)
						_, e3 := v3.FromUnknownVersion(spec)
						if (e2 == nil) != (want == 2) || (e3 == nil) != (want == 3) {
							fails = append(fails, "wrong kind of document")
						}
					}
					return fails, want != 0
				})
			}
		}
	}
}

func formats(e *enum.E) {
	e.Section("file formats")
	for i, base := range []M{docs.V3(), docs.V2()} {
		base := base
		ref := gen.Run(base, gen.Opts{})
		for _, ext := range []string{"json", "yaml", "yml", "JSON", "Yaml", "txt", "toml", "xml", "jsonx", "yaml.bak", "yam", "js"} {
			ext := ext
			for style := 0; style < 4; style++ {
				style := style
				e.Case(fmt.Sprintf("document %d .%s style %d", i, ext, style), func() (fails []string, nt bool) {
					var data []byte
					switch style {
					case 0:
						data = []byte(docs.JSON(base))
					case 1:
						data, _ = json.MarshalIndent(base, "\t", "  ")
					case 2:
						data = []byte(YAML(base, 0))
					case 3:
						data = []byte("# comment\n---\n" + YAML(base, 1))
					}
					r := gen.Run(data, gen.Opts{Ext: ext})
					if r.Panic != "" {
						return []string{r.Failed()}, true
					}
					ok := ext == "json" && style < 2 || ext == "yaml" && style != 1 || ext == "yml" && style != 1 // tabs are not YAML
					if style == 1 && (ext == "yaml" || ext == "yml") {
						return nil, false
					}
					switch {
					case ok && r.Err != nil:
						fails = append(fails, r.Failed())
					case ok && r.Src != ref.Src:
						fails = append(fails, "the generated code differs from the one of the JSON document")
					case !ok && r.Err == nil:
						fails = append(fails, "accepted")
					}
					return fails, ok
				})
			}
		}
	}
	e.Section("given version")
	for _, given := range []int{-1, 0, 1, 2, 3, 4, 20} {
		for _, v := range []any{docs.Deleted{}, "2.0.0", "2.6.0", "3.0.0", "1.0.0", "x"} {
			for _, ext := range []string{"json", "yaml", "yml", "txt"} {
				given, v, ext := given, v, ext
				e.Case(fmt.Sprintf("%d given, %s declared, .%s", given, show(v), ext), func() (fails []string, nt bool) {
					d := M{"info": M{"title": "t", "version": "1"}, "components": M{"schemas": M{"a": M{"type": "string"}}}}
					want := given
					if s, ok := v.(string); ok {
						d["asyncapi"] = s
					}
					if given == 0 { // as declared
						want = map[any]int{"2.0.0": 2, "2.6.0": 2, "3.0.0": 3}[d["asyncapi"]]
					}
					data := docs.JSON(d)
					if ext != "json" {
						data = YAML(d, 0)
					}
					p := filepath.Join(gen.Dir(), "given."+ext)
					if err := os.WriteFile(p, []byte(data), 0o600); err != nil {
						panic(err)
					}
					var specs []asyncapi.Specification
					var errs []error
					add := func(s asyncapi.Specification, err error) { specs, errs = append(specs, s), append(errs, err) }
					add(parser.FromFile(parser.FromFileParams{Path: p, MajorVersion: given}))
					switch ext {
					case "json":
						add(parser.FromJSON(parser.FromJSONParams{Data: []byte(data), MajorVersion: given}))
					case "txt":
						want = 0
					default:
						add(parser.FromYAML(parser.FromYAMLParams{Data: []byte(data), MajorVersion: given}))
					}
					for i, err := range errs {
						switch {
						case (want == 2 || want == 3) && err != nil:
							fails = append(fails, "refused: "+err.Error())
						case want != 2 && want != 3 && err == nil:
							fails = append(fails, "accepted")
						case err == nil && specs[i].MajorVersion() != want:
							fails = append(fails, fmt.Sprintf("parsed as version %d", specs[i].MajorVersion()))
						}
					}
					return fails, want > 0
				})
			}
		}
	}
	e.Section("JSON and YAML")
	for i, base := range []M{docs.V3(), docs.V2()} {
		for _, n := range docs.Nodes(base) {
			for _, to := range []any{"", "y", "no", "on", "~", "null", "true", "1", "1.0", "0x1", "1_0", "2024-01-01", "1:30", "a: b", "#x", "'", "\"", "a\nb\n", " x ", "é", "\\", "-", "*a", "&a", "!x", "%d", "@", "`", "{}", "[", 1.5, 100000, true, false} {
				n, to := n, to
				if reflect.TypeOf(n.V) != reflect.TypeOf(to) {
					continue
				}
				e.Case(fmt.Sprintf("document %d: %s is %s", i, pathString(n.Path), show(to)), func() (fails []string, nt bool) {
					d := docs.Set(base, n.Path, to)
					return same(d)
				})
			}
			if m, ok := n.V.(M); ok {
				for _, k := range []string{"y", "no", "null", "1", "1.5", "true", "a b", "a: b", "#", "é", "'", "\"", "~", "-", "0x1", "2024-01-01"} {
					n, k := n, k
					if len(m) == 0 || typeOfDoc(i, n.Path) == nil || typeOfDoc(i, n.Path).Kind() != reflect.Map {
						continue
					}
					e.Case(fmt.Sprintf("document %d: %s has %q", i, pathString(n.Path), k), func() (fails []string, nt bool) {
						d := docs.Set(base, n.Path, docs.With(docs.Copy(m).(M), k, m[docs.Keys(m)[0]]))
						return same(d)
					})
				}
			}
		}
	}
}

func typeOfDoc(i int, path []any) reflect.Type {
	if i == 0 {
		return docs.TypeAt(reflect.TypeOf(v3.Specification{}), path)
	}
	return docs.TypeAt(reflect.TypeOf(v2.Specification{}), path)
}

// same compares what is parsed from JSON and from YAML.
func same(d any) (fails []string, nt bool) {
	a, err1 := parser.FromJSON(parser.FromJSONParams{Data: []byte(docs.JSON(d))})
	for style := 0; style < 2; style++ {
		b, err2 := parser.FromYAML(parser.FromYAMLParams{Data: []byte(YAML(d, style))})
		if (err1 == nil) != (err2 == nil) {
			fails = append(fails, fmt.Sprintf("JSON: %v, YAML: %v", err1, err2))
		} else if err1 == nil && !reflect.DeepEqual(a, b) {
			fails = append(fails, "JSON and YAML documents are parsed differently")
		}
	}
	return fails, err1 == nil
}

func mutated(e *enum.E) {
	for i, base := range []M{docs.V3(), docs.V2()} {
		name := []string{"v3", "v2"}[i]
		e.Section(name + " one element replaced")
		if err := process(base); err != nil {
			e.Fail("base document", "%v", err)
			return
		}
		nodes := docs.Nodes(base)
		for _, n := range nodes {
			for _, to := range replacements() {
				i, n, to := i, n, to
				e.Case(fmt.Sprintf("%s %s", pathString(n.Path), show(to)), func() (fails []string, nt bool) {
					err := process(docs.Set(base, n.Path, to))
					if t := typeOfDoc(i, n.Path); t != nil && !fits(t, to) && err == nil {
						fails = append(fails, fmt.Sprintf("no error for a %T in place of %v", to, t))
					}
					return fails, true
				})
			}
		}
		e.Section(name + " one element added")
		for _, n := range nodes {
			m, ok := n.V.(M)
			t := typeOfDoc(i, n.Path)
			if !ok || t == nil {
				continue
			}
			var keys []string
			if t.Kind() == reflect.Struct {
				keys = fields(t)
			} else {
				keys = []string{"zz"}
			}
			for _, k := range keys {
				if _, has := m[k]; has {
					continue
				}
				for _, to := range replacements()[1:] {
					n, k, to := n, k, to
					e.Case(fmt.Sprintf("%s/%s %s", pathString(n.Path), k, show(to)), func() (fails []string, nt bool) {
						err := process(docs.Set(base, append(append([]any{}, n.Path...), k), to))
						if t := docs.TypeAt(t, []any{k}); t != nil && !fits(t, to) && err == nil {
							fails = append(fails, fmt.Sprintf("no error for a %T in place of %v", to, t))
						}
						return fails, true
					})
				}
			}
		}
		e.Section(name + " truncated")
		for k, data := range [][]byte{[]byte(docs.JSON(base)), []byte(YAML(base, 0)), []byte(YAML(base, 1))} {
			for cut := 0; cut < len(data); cut++ {
				k, cut, data := k, cut, data
				e.Case(fmt.Sprintf("form %d cut at %d", k, cut), func() (fails []string, nt bool) {
					ext := "json"
					if k > 0 {
						ext = "yaml"
					}
					r := gen.Run(data[:cut], gen.Opts{Raw: true, Ext: ext})
					if r.Panic != "" {
						return []string{r.Failed()}, true
					}
					if k == 0 && r.Err == nil {
						fails = append(fails, "accepted")
					}
					return fails, true
				})
			}
		}
		if !e.Thorough {
			continue
		}
		e.Section(name + " two elements replaced")
		for a := range nodes {
			for b := a + 1; b < len(nodes); b++ {
				if strings.HasPrefix(pathString(nodes[b].Path)+"/", pathString(nodes[a].Path)+"/") {
					continue
				}
				for _, to := range []any{docs.Deleted{}, nil, M{}} {
					for _, to2 := range []any{docs.Deleted{}, nil, M{}} {
						na, nb, to, to2 := nodes[a], nodes[b], to, to2
						e.Case(fmt.Sprintf("%s %s, %s %s", pathString(na.Path), show(to), pathString(nb.Path), show(to2)), func() (fails []string, nt bool) {
							process(docs.Set(docs.Set(base, nb.Path, to2), na.Path, to))
							return nil, true
						})
					}
				}
			}
		}
	}
}

func fields(t reflect.Type) []string {
	var out []string
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Anonymous {
			out = append(out, fields(f.Type)...)
			continue
		}
		if tag := strings.Split(f.Tag.Get("json"), ",")[0]; tag != "" && tag != "-" && f.IsExported() {
			out = append(out, tag)
		}
	}
	return out
}

func main() {
	defer gen.Clean()
	enum.Main(func(e *enum.E) {
		versions(e)
		formats(e)
		mutated(e)
		if os.Getenv("P26_DEBUG") != "" {
			fmt.Println(YAML(docs.V2(), 1))
		}
	})
}
