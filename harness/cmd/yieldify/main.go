// yieldify instruments go files: it inserts a call to verifYield before each
// statement, so that a harness can shake the schedule of concurrent code. It
// writes the files and an overlay for the go command.
//
// yieldify OUTDIR OVERLAY.json FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	out, overlay := os.Args[1], os.Args[2]
	repl := map[string]string{}
	dirs := map[string]string{}
	for i, f := range os.Args[3:] {
		src, err := os.ReadFile(f)
		must(err)
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		must(err)
		var offs []int
		ast.Inspect(af, func(n ast.Node) bool {
			var l []ast.Stmt
			switch x := n.(type) {
			case *ast.BlockStmt:
				l = x.List
			case *ast.CaseClause:
				l = x.Body
			case *ast.CommClause:
				l = x.Body
			}
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					offs = append(offs, fset.Position(s.Pos()).Offset)
				}
			}
			return true
		})
		sort.Sort(sort.Reverse(sort.IntSlice(offs)))
		for _, o := range offs {
			src = append(src[:o], append([]byte("verifYield(); "), src[o:]...)...)
		}
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", i, filepath.Base(f)))
		must(os.WriteFile(dst, src, 0o644))
		repl[f] = dst
		dirs[filepath.Dir(f)] = af.Name.Name
	}
	for d, pkg := range dirs {
		dst := filepath.Join(out, "yield_"+pkg+".go")
		must(os.WriteFile(dst, []byte("package "+pkg+"\n\n// VerifYield is called before each statement.\nvar VerifYield func()\n\n"+
			"func verifYield() {\n\tif VerifYield != nil {\n\t\tVerifYield()\n\t}\n}\n"), 0o644))
		repl[filepath.Join(d, "zz_verif_yield.go")] = dst
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	must(err)
	must(os.WriteFile(overlay, b, 0o644))
}
