package main

import (
	"go/ast"
	"go/types"
)

func basicOf(t types.Type) (*types.Basic, bool) {
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func declDoc(d ast.Decl) (string, string) {
	fd, ok := d.(*ast.FuncDecl)
	if !ok || fd.Doc == nil {
		return "", ""
	}
	s := ""
	for _, c := range fd.Doc.List {
		s += c.Text + "\n"
	}
	return fd.Name.Name, s
}
