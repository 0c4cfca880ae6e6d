// surface describes Go files: for each path read, a line of JSON with the package, whether the file is formatted, and its declarations
// (names and tokens, without comments nor layout).
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"strconv"
	"strings"
)

// hidden is a text that is the same as any other hidden one
var hidden string

type surface struct {
	Error     string            `json:"error,omitempty"`
	Package   string            `json:"package"`
	Formatted bool              `json:"formatted"`
	Decls     map[string]string `json:"decls"`
	Texts     map[string]string `json:"texts"` // values of the constants that are texts
}

func tokens(src []byte) string {
	var b strings.Builder
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", fset.Base(), len(src)), src, nil, 0)
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			lit = ""
		}
		if t == token.STRING {
			v, _ := strconv.Unquote(lit)
			if lit = strconv.Quote(v); hidden != "" && v == hidden {
				lit = "hidden"
			}
		}
		b.WriteString(t.String() + " " + lit + "\n")
	}
	h := sha256.Sum256([]byte(b.String()))
	return hex.EncodeToString(h[:6])
}

func recv(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return recv(x.X)
	case *ast.Ident:
		return x.Name
	}
	return "?"
}

func describe(path string) (s surface) {
	s.Decls, s.Texts = map[string]string{}, map[string]string{}
	src, err := os.ReadFile(path)
	if err != nil {
		s.Error = err.Error()
		return s
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		s.Error = err.Error()
		return s
	}
	s.Package = f.Name.Name
	out, err := format.Source(src)
	s.Formatted = err == nil && bytes.Equal(out, src)
	part := func(n ast.Node) string {
		return tokens(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
	}
	add := func(name string, n ast.Node) {
		if _, ok := s.Decls[name]; ok {
			name += " again"
		}
		s.Decls[name] = part(n)
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv != nil {
				add(recv(x.Recv.List[0].Type)+"."+x.Name.Name, x)
			} else {
				add(x.Name.Name, x)
			}
		case *ast.GenDecl:
			for _, sp := range x.Specs {
				switch y := sp.(type) {
				case *ast.TypeSpec:
					add(y.Name.Name, y)
				case *ast.ValueSpec:
					for i, n := range y.Names {
						add(n.Name, y)
						if i < len(y.Values) {
							if l, ok := y.Values[i].(*ast.BasicLit); ok && x.Tok == token.CONST && l.Kind == token.STRING {
								s.Texts[n.Name], _ = strconv.Unquote(l.Value)
							}
						}
					}
				}
			}
		}
	}
	return s
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		path, text, _ := strings.Cut(in.Text(), "\t")
		hidden = ""
		if text != "" {
			_ = json.Unmarshal([]byte(text), &hidden)
		}
		_ = out.Encode(describe(path))
	}
}
