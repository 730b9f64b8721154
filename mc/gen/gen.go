// Package gen runs the generator of the repository in process on documents given
// as Go values, and type-checks what it generates.
package gen

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"
)

// M is a JSON object, L a JSON array.
type M = map[string]any
type L = []any

// Opts are the options of a generation.
type Opts struct {
	Keys, Naming string
	IgnoreFormat bool
	ForcePtr     bool
	Parts        string // of "uat": user, application, types; empty is all
	Raw          bool   // without formatting
	Package      string
	KeepImports  bool
	Deps         map[string]any
	Ext          string // file extension, json by default
}

func (o Opts) String() string {
	s := []string{}
	if o.Keys != "" {
		s = append(s, "keys="+o.Keys)
	}
	if o.Naming != "" {
		s = append(s, "naming="+o.Naming)
	}
	if o.IgnoreFormat {
		s = append(s, "ignore-string-format")
	}
	if o.ForcePtr {
		s = append(s, "force-pointers")
	}
	if o.Parts != "" {
		s = append(s, "parts="+o.Parts)
	}
	return strings.Join(s, " ")
}

// Result of a generation.
type Result struct {
	Src   string
	Err   error
	Panic string
}

// Failed tells what went wrong, if anything.
func (r Result) Failed() string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Err != nil {
		return "error: " + r.Err.Error()
	}
	return ""
}

var dir string

// Dir is a scratch directory of the process.
func Dir() string {
	if dir == "" {
		base := "."
		if d := os.Getenv("VERIF_SCRATCH"); d != "" {
			base = d
		}
		d, err := os.MkdirTemp(base, "gen")
		if err != nil {
			panic(err)
		}
		if dir, err = filepath.Abs(d); err != nil {
			panic(err)
		}
	}
	return dir
}

// Clean removes the scratch directory.
func Clean() {
	if dir != "" {
		os.RemoveAll(dir)
		dir = ""
	}
}

func (o Opts) options(out string) options.Options {
	def := func(s string) string {
		if s == "" {
			return "none"
		}
		return s
	}
	p := o.Parts
	if p == "" {
		p = "uat"
	}
	pkg := o.Package
	if pkg == "" {
		pkg = "generated"
	}
	return options.Options{OutputPath: out, PackageName: pkg, DisableFormatting: o.Raw, ConvertKeys: def(o.Keys), NamingScheme: def(o.Naming),
		IgnoreStringFormat: o.IgnoreFormat, ForcePointers: o.ForcePtr,
		Generate: options.GeneratorOptions{User: strings.Contains(p, "u"), Application: strings.Contains(p, "a"), Types: strings.Contains(p, "t")}}
}

// Run generates code from a document.
func Run(doc any, o Opts) Result {
	data, ok := doc.([]byte)
	if !ok {
		var err error
		if data, err = json.Marshal(doc); err != nil {
			panic(err)
		}
	}
	ext := o.Ext
	if ext == "" {
		ext = "json"
	}
	in := filepath.Join(Dir(), "doc."+ext)
	if err := os.WriteFile(in, data, 0o600); err != nil {
		panic(err)
	}
	var deps []string
	for name := range o.Deps {
		deps = append(deps, name)
	}
	sort.Strings(deps)
	cwd, _ := os.Getwd()
	if len(deps) > 0 {
		for _, n := range deps {
			b, ok := o.Deps[n].([]byte)
			if !ok {
				b, _ = json.Marshal(o.Deps[n])
			}
			if err := os.WriteFile(filepath.Join(Dir(), n), b, 0o600); err != nil {
				panic(err)
			}
		}
		// dependencies are known by the path given, so be where they are
		if err := os.Chdir(Dir()); err != nil {
			panic(err)
		}
		defer os.Chdir(cwd)
	}
	out := filepath.Join(Dir(), "out.go")
	os.Remove(out)
	var r Result
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Panic = fmt.Sprint(p) + " at " + where(string(debug.Stack()))
			}
		}()
		cg, err := codegen.FromFile(in, deps...)
		if err == nil {
			err = cg.Generate(o.options(out))
		}
		r.Err = err
	}()
	if r.Err == nil && r.Panic == "" {
		b, err := os.ReadFile(out)
		if err != nil {
			r.Err = fmt.Errorf("no output: %w", err)
		}
		r.Src = string(b)
	}
	return r
}

func where(stack string) string {
	var at []string
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 && strings.HasPrefix(l, "/") {
			l = l[i+len("/repo/"):]
			if j := strings.Index(l, " "); j >= 0 {
				l = l[:j]
			}
			at = append(at, l)
		}
	}
	if len(at) > 4 {
		at = at[:4]
	}
	return strings.Join(at, " < ")
}

// ---- type checking

var (
	fset    = token.NewFileSet()
	imp     types.Importer
	exports map[string]string
)

func importerOnce() types.Importer {
	if imp != nil {
		return imp
	}
	f := os.Getenv("VERIF_EXPORTS")
	b, err := os.ReadFile(f)
	if err != nil {
		panic(fmt.Sprintf("VERIF_EXPORTS: %v", err))
	}
	exports = map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if p, e, ok := strings.Cut(l, "="); ok && e != "" {
			exports[p] = e
		}
	}
	imp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("package %s is not known to the harness", path)
		}
		return os.Open(e)
	})
	return imp
}

// Checked is a type-checked generated package.
type Checked struct {
	Pkg  *types.Package
	File *ast.File
	Info *types.Info
	// PlainSlices makes pointers to slices have the shape of slices
	PlainSlices bool
}

// Check parses and type-checks generated code; unused imports are errors, unless the code is raw.
func Check(src string, raw bool) (*Checked, []string) { return CheckAll(raw, src) }

// CheckAll type-checks the generated files of a package together.
func CheckAll(raw bool, srcs ...string) (*Checked, []string) {
	fs := token.NewFileSet()
	var files []*ast.File
	text := map[string]string{}
	for i, src := range srcs {
		name := fmt.Sprintf("out%d.go", i)
		file, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil {
			at := ""
			if l, ok := err.(scanner.ErrorList); ok && len(l) > 0 {
				at = " (" + line(src, l[0].Pos.Line) + ")"
			}
			return nil, []string{err.Error() + at}
		}
		files = append(files, file)
		text[name] = src
	}
	var errs []string
	conf := types.Config{Importer: importerOnce(), Error: func(err error) {
		e := err.(types.Error)
		if raw && strings.Contains(e.Msg, "imported ") && strings.HasSuffix(e.Msg, "and not used") {
			return
		}
		if len(errs) < 20 {
			p := fs.Position(e.Pos)
			errs = append(errs, fmt.Sprintf("%s (line %d: %s)", e.Msg, p.Line, line(text[p.Filename], p.Line)))
		}
	}}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	pkg, _ := conf.Check("generated", fs, files, info)
	var first *ast.File
	if len(files) > 0 {
		first = files[0]
	}
	return &Checked{pkg, first, info, false}, errs
}

// Without gives generated code without the declarations that some other code has.
func Without(src, other string) string {
	has := map[string]bool{}
	ds, err := Decls(other)
	if err != nil {
		return src
	}
	for _, d := range ds {
		has[d] = true
	}
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, "out.go", src, parser.SkipObjectResolution)
	if err != nil {
		return src
	}
	var kept []ast.Decl
	for _, d := range file.Decls {
		one := &ast.File{Name: file.Name, Decls: []ast.Decl{d}}
		var b strings.Builder
		if err := printer.Fprint(&b, fs, one); err != nil {
			return src
		}
		names, err := Decls(b.String())
		if err != nil {
			return src
		}
		drop := false
		for _, n := range names {
			drop = drop || has[n]
		}
		if !drop {
			kept = append(kept, d)
		}
	}
	file.Decls, file.Comments = kept, nil
	var b strings.Builder
	if err := printer.Fprint(&b, fs, file); err != nil {
		return src
	}
	return b.String()
}

// Decls are the top-level declarations of generated code, methods as "T.m".
func Decls(src string) ([]string, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "out.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range file.Decls {
		switch u := d.(type) {
		case *ast.FuncDecl:
			name := u.Name.Name
			if u.Recv != nil && len(u.Recv.List) == 1 {
				t := u.Recv.List[0].Type
				if p, ok := t.(*ast.StarExpr); ok {
					t = p.X
				}
				if id, ok := t.(*ast.Ident); ok {
					name = id.Name + "." + name
				}
			}
			out = append(out, name)
		case *ast.GenDecl:
			for _, sp := range u.Specs {
				switch v := sp.(type) {
				case *ast.TypeSpec:
					out = append(out, v.Name.Name)
				case *ast.ValueSpec:
					for _, n := range v.Names {
						out = append(out, n.Name)
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

func line(src string, n int) string {
	ls := strings.Split(src, "\n")
	if n < 1 || n > len(ls) {
		return ""
	}
	return strings.TrimSpace(ls[n-1])
}

// Type gives a type of the generated package by name.
func (c *Checked) Type(name string) types.Type {
	o := c.Pkg.Scope().Lookup(name)
	if t, ok := o.(*types.TypeName); ok {
		return t.Type()
	}
	return nil
}

// Names of the package scope.
func (c *Checked) Names() []string { return c.Pkg.Scope().Names() }

// Shape writes a type with the types of the generated package expanded, so that it
// does not depend on their names; field tags are kept.
func (c *Checked) Shape(t types.Type) string {
	return c.shape(t, nil)
}

func (c *Checked) shape(t types.Type, stack []types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		if u.Obj().Pkg() != c.Pkg {
			if st, ok := u.Underlying().(*types.Struct); ok && opaque(st) && len(stack) < 20 {
				return types.TypeString(st, nil) // as types defined from it
			}
			return types.TypeString(u, nil)
		}
		for i := len(stack) - 1; i >= 0; i-- {
			if types.Identical(stack[i], u) {
				return fmt.Sprintf("^%d", len(stack)-i)
			}
		}
		return c.shape(u.Underlying(), append(append([]types.Type{}, stack...), u))
	case *types.Pointer:
		if e := c.shape(u.Elem(), stack); !c.PlainSlices || !strings.HasPrefix(e, "[]") {
			return "*" + e
		} else {
			return e
		}
	case *types.Slice:
		return "[]" + c.shape(u.Elem(), stack)
	case *types.Map:
		return "map[" + c.shape(u.Key(), stack) + "]" + c.shape(u.Elem(), stack)
	case *types.Interface:
		if u.NumMethods() > 0 {
			var ms []string
			for i := 0; i < u.NumMethods(); i++ {
				ms = append(ms, u.Method(i).Name()+c.shape(u.Method(i).Type(), stack))
			}
			sort.Strings(ms)
			return "interface{" + strings.Join(ms, "; ") + "}"
		}
	case *types.Signature:
		return c.tuple(u.Params(), stack) + c.tuple(u.Results(), stack)
	case *types.Chan:
		return "chan " + c.shape(u.Elem(), stack)
	case *types.Struct:
		if opaque(u) {
			return types.TypeString(u, nil)
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, fmt.Sprintf("%s %s %q", u.Field(i).Name(), c.shape(u.Field(i).Type(), stack), u.Tag(i)))
		}
		sort.Strings(fs)
		return "struct{" + strings.Join(fs, "; ") + "}"
	}
	return types.TypeString(t, nil)
}

// opaque structs have no exported field.
func opaque(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return false
		}
	}
	return s.NumFields() > 0
}

func (c *Checked) tuple(t *types.Tuple, stack []types.Type) string {
	var s []string
	for i := 0; i < t.Len(); i++ {
		s = append(s, c.shape(t.At(i).Type(), stack))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// API gives the shape of every type by its name, and of every exported method of
// the controllers and subscribers by theirs.
func (c *Checked) API() (shapes, methods map[string]string) {
	shapes, methods = map[string]string{}, map[string]string{}
	for _, n := range c.Names() {
		o, ok := c.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		shapes[n] = c.Shape(o.Type())
		named, ok := o.Type().(*types.Named)
		if !ok {
			continue
		}
		if i, ok := named.Underlying().(*types.Interface); ok {
			shapes[n] = "interface"
			for k := 0; k < i.NumMethods(); k++ {
				methods[n+"."+i.Method(k).Name()] = c.Shape(i.Method(k).Type())
			}
		}
		for k := 0; k < named.NumMethods(); k++ {
			if strings.HasSuffix(n, "Controller") {
				methods[n+"."+named.Method(k).Name()] = c.Shape(named.Method(k).Type())
			}
		}
	}
	return shapes, methods
}

// Code is generated code without its comments.
func Code(src string) string {
	var out []string
	for _, l := range strings.Split(src, "\n") {
		if t := strings.TrimSpace(l); t != "" && !strings.HasPrefix(t, "//") {
			out = append(out, t)
		}
	}
	return strings.Join(out, "\n")
}

// RunSame reads a document once, and generates code from it several times.
func RunSame(doc any, deps map[string]any, opts ...Opts) []Result {
	data, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	in := filepath.Join(Dir(), "doc.json")
	if err := os.WriteFile(in, data, 0o600); err != nil {
		panic(err)
	}
	var names []string
	for n, d := range deps {
		b, _ := json.Marshal(d)
		if err := os.WriteFile(filepath.Join(Dir(), n), b, 0o600); err != nil {
			panic(err)
		}
		names = append(names, n)
	}
	sort.Strings(names)
	cwd, _ := os.Getwd()
	if err := os.Chdir(Dir()); err != nil {
		panic(err)
	}
	defer os.Chdir(cwd)
	out := filepath.Join(Dir(), "out.go")
	rs := make([]Result, len(opts))
	cg, err := codegen.FromFile(in, names...)
	for i, o := range opts {
		os.Remove(out)
		r := &rs[i]
		if r.Err = err; err != nil {
			continue
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Panic = fmt.Sprint(p) + " at " + where(string(debug.Stack()))
				}
			}()
			r.Err = cg.Generate(o.options(out))
		}()
		if r.Err == nil && r.Panic == "" {
			b, err := os.ReadFile(out)
			r.Src, r.Err = string(b), err
		}
	}
	return rs
}
