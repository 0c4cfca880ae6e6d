// glue generates the file that registers a generated package in the harness.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	for _, dir := range os.Args[1:] {
		if err := run(dir); err != nil {
			fmt.Fprintln(os.Stderr, dir, err)
			os.Exit(2)
		}
	}
}

func run(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	fset := token.NewFileSet()
	var b, reg, subs bytes.Buffer
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "verif_glue.go") {
			continue
		}
		file, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return err
		}
		pkg = file.Name.Name
		for _, d := range file.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && ast.IsExported(x.Name.Name) {
					fmt.Fprintf(&reg, "\tp.Funcs[%q] = %s\n", x.Name.Name, x.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.ValueSpec:
						for _, n := range y.Names {
							if ast.IsExported(n.Name) {
								fmt.Fprintf(&reg, "\tp.Values[%q] = %s\n", n.Name, n.Name)
							}
						}
					case *ast.TypeSpec:
						n := y.Name.Name
						if !ast.IsExported(n) || y.TypeParams != nil {
							continue
						}
						fmt.Fprintf(&reg, "\tp.Types[%q] = reflect.TypeOf((*%s)(nil)).Elem()\n", n, n)
						it, ok := y.Type.(*ast.InterfaceType)
						if !ok || (n != "AppSubscriber" && n != "UserSubscriber") {
							continue
						}
						fmt.Fprintf(&subs, "type verif%s struct{ f core.SubFn }\n", n)
						for _, m := range it.Methods.List {
							ft := m.Type.(*ast.FuncType)
							var tb bytes.Buffer
							last := ft.Params.List[len(ft.Params.List)-1]
							_ = printer.Fprint(&tb, fset, last.Type)
							fmt.Fprintf(&subs, "func (s verif%s) %s(ctx context.Context, msg %s) error { return s.f(%q, ctx, msg) }\n",
								n, m.Names[0].Name, tb.String(), m.Names[0].Name)
						}
						fmt.Fprintf(&reg, "\tp.Subscribers[%q] = func(f core.SubFn) any { return %s(verif%s{f}) }\n",
							strings.TrimSuffix(n, "Subscriber"), n, n)
					}
				}
			}
		}
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"context\"\n\t\"reflect\"\n\n\t\"verifharness/core\"\n)\n\nvar _ context.Context\n\n", pkg)
	b.Write(subs.Bytes())
	fmt.Fprintf(&b, "func init() {\n\tp := &core.Pkg{Name: %q, Funcs: map[string]any{}, Types: map[string]reflect.Type{}, Subscribers: map[string]func(core.SubFn) any{}, Values: map[string]any{}}\n", filepath.Base(dir))
	b.Write(reg.Bytes())
	b.WriteString("\tcore.Register(p)\n}\n")
	return os.WriteFile(filepath.Join(dir, "verif_glue.go"), b.Bytes(), 0o644)
}
