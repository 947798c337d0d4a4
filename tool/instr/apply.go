package main

import (
	"go/ast"
	"go/token"
	"reflect"
)

var (
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
	objType  = reflect.TypeOf((*ast.Object)(nil))
	scopeTyp = reflect.TypeOf((*ast.Scope)(nil))
)

// apply rewrites the tree bottom-up: f gets every node after its children.
func apply(n ast.Node, f func(ast.Node) ast.Node) ast.Node {
	v := reflect.ValueOf(n)
	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
		return n
	}
	if v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
		s := v.Elem()
		for i := 0; i < s.NumField(); i++ {
			fld := s.Field(i)
			if fld.Type() == objType || fld.Type() == scopeTyp {
				continue
			}
			applyField(fld, f)
		}
	}
	return f(n)
}

func applyField(fld reflect.Value, f func(ast.Node) ast.Node) {
	switch fld.Kind() {
	case reflect.Interface, reflect.Ptr:
		if fld.IsNil() || !fld.Type().Implements(nodeType) {
			return
		}
		if _, ok := fld.Interface().(*ast.CommentGroup); ok {
			return
		}
		nn := apply(fld.Interface().(ast.Node), f)
		fld.Set(reflect.ValueOf(nn))
	case reflect.Slice:
		if !fld.Type().Elem().Implements(nodeType) {
			return
		}
		for i := 0; i < fld.Len(); i++ {
			applyField(fld.Index(i), f)
		}
	}
}

var _ = token.NoPos
