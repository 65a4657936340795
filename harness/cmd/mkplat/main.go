// Command mkplat prepares builds of notify for other platforms that run here: for each platform
// it copies the source files go build would select there, without build constraints, with the
// system call package replaced by a simulation and C.x by c_x of a simulated C library, and
// writes an overlay which puts them and the files of harness/platsrc/<platform> in the virtual
// packages vh/plat/<platform>.
//
//	mkplat <repo> <harness> <out> <overlay.json> [extra from=to overlay entries]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type platform struct {
	name, goos string
	cgo        bool
	syscall    string   // replaces "syscall"
	must       []string // files of platsrc that are needed
}

var platforms = []platform{
	{name: "fsevents", goos: "darwin", cgo: true},
	{name: "readdcw", goos: "windows", syscall: "vh/fake/winsys"},
	{name: "kqueue", goos: "freebsd", syscall: "vh/fake/bsdsys"},
	{name: "fen", goos: "solaris", cgo: true, syscall: "vh/fake/sunsys"},
	{name: "plan9", goos: "plan9"},
}

func main() {
	if len(os.Args) < 5 {
		fatal(fmt.Errorf("usage: mkplat repo harness out overlay.json [from=to...]"))
	}
	repo, harness, out := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	for _, a := range os.Args[5:] {
		i := strings.IndexByte(a, '=')
		repl[a[:i]] = a[i+1:]
	}
	for _, p := range platforms {
		dir := filepath.Join(harness, "plat", p.name) // virtual
		dst := filepath.Join(out, p.name)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			fatal(err)
		}
		ctx := build.Default
		ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled, ctx.BuildTags = p.goos, "amd64", p.cgo, nil
		names, err := filepath.Glob(filepath.Join(repo, "*.go"))
		if err != nil {
			fatal(err)
		}
		n := 0
		for _, f := range names {
			base := filepath.Base(f)
			if strings.HasSuffix(base, "_test.go") {
				continue
			}
			ok, err := ctx.MatchFile(repo, base)
			if err != nil {
				fatal(err)
			}
			if !ok {
				continue
			}
			b, err := convert(f, p)
			if err != nil {
				fatal(err)
			}
			// a name without a platform suffix
			base = fmt.Sprintf("f%02d_%s_src.go", n, strings.TrimSuffix(base, ".go"))
			n++
			if err := os.WriteFile(filepath.Join(dst, base), b, 0o644); err != nil {
				fatal(err)
			}
			repl[filepath.Join(dir, base)] = filepath.Join(dst, base)
		}
		extra, err := filepath.Glob(filepath.Join(harness, "platsrc", p.name, "*.go.txt"))
		if err != nil {
			fatal(err)
		}
		for _, f := range extra {
			repl[filepath.Join(dir, "zz_"+strings.TrimSuffix(filepath.Base(f), ".txt"))] = f
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(os.Args[4], b, 0o644); err != nil {
		fatal(err)
	}
}

func convert(name string, p platform) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	var decls []ast.Decl
	usesC := false
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			switch {
			case path == "C":
				usesC = true
				continue
			case path == "syscall" && p.syscall != "":
				if is.Name == nil {
					is.Name = ast.NewIdent("syscall")
				}
				is.Path.Value = strconv.Quote(p.syscall)
			}
			specs = append(specs, s)
		}
		if len(specs) > 0 {
			g.Specs = specs
			decls = append(decls, g)
		}
	}
	f.Decls = decls
	if usesC {
		ast.Inspect(f, func(n ast.Node) bool { rewriteC(n); return true })
	}
	f.Comments = nil // the build constraints, and the C preamble, are comments
	strip(f)
	var b strings.Builder
	fmt.Fprintf(&b, "// made from %s\n\n", filepath.Base(name))
	if err := format.Node(&b, fset, f); err != nil {
		return nil, err
	}
	return []byte(b.String()), nil
}

// strip removes the comments that hang on nodes.
func strip(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

// rewriteC turns the selector C.x into c_x: it keeps the node and drops its operand by making
// the whole an identifier through a parenthesis-free trick: go/ast has no parent links, so the
// fields that can hold an expression are visited instead.
func rewriteC(n ast.Node) {
	fix := func(e *ast.Expr) {
		if s, ok := (*e).(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "C" {
				*e = &ast.Ident{NamePos: x.NamePos, Name: "c_" + s.Sel.Name}
			}
		}
	}
	list := func(es []ast.Expr) {
		for i := range es {
			fix(&es[i])
		}
	}
	switch n := n.(type) {
	case *ast.ArrayType:
		if n.Len != nil {
			fix(&n.Len)
		}
		fix(&n.Elt)
	case *ast.AssignStmt:
		list(n.Lhs)
		list(n.Rhs)
	case *ast.BinaryExpr:
		fix(&n.X)
		fix(&n.Y)
	case *ast.CallExpr:
		fix(&n.Fun)
		list(n.Args)
	case *ast.CaseClause:
		list(n.List)
	case *ast.ChanType:
		fix(&n.Value)
	case *ast.CompositeLit:
		if n.Type != nil {
			fix(&n.Type)
		}
		list(n.Elts)
	case *ast.Ellipsis:
		if n.Elt != nil {
			fix(&n.Elt)
		}
	case *ast.ExprStmt:
		fix(&n.X)
	case *ast.Field:
		fix(&n.Type)
	case *ast.IncDecStmt:
		fix(&n.X)
	case *ast.IndexExpr:
		fix(&n.X)
		fix(&n.Index)
	case *ast.KeyValueExpr:
		fix(&n.Key)
		fix(&n.Value)
	case *ast.MapType:
		fix(&n.Key)
		fix(&n.Value)
	case *ast.ParenExpr:
		fix(&n.X)
	case *ast.RangeStmt:
		fix(&n.X)
	case *ast.ReturnStmt:
		list(n.Results)
	case *ast.SelectorExpr:
		fix(&n.X)
	case *ast.SendStmt:
		fix(&n.Chan)
		fix(&n.Value)
	case *ast.SliceExpr:
		fix(&n.X)
	case *ast.StarExpr:
		fix(&n.X)
	case *ast.SwitchStmt:
		if n.Tag != nil {
			fix(&n.Tag)
		}
	case *ast.TypeAssertExpr:
		fix(&n.X)
		if n.Type != nil {
			fix(&n.Type)
		}
	case *ast.TypeSpec:
		fix(&n.Type)
	case *ast.UnaryExpr:
		fix(&n.X)
	case *ast.ValueSpec:
		if n.Type != nil {
			fix(&n.Type)
		}
		list(n.Values)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mkplat:", err)
	os.Exit(2)
}
