package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
)

// mean writes the meaning of a tree as the specification has it (M in
// EtxOut): no positions, comments, empty lines, no parentheses around a
// literal, one way to write a quote, numbers by their value, and no operator
// nodes without an operator.
func mean(v reflect.Value) (text string, literal bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "", false
		}
		if f, ok := v.Interface().(*big.Float); ok {
			return f.Text('p', 0), false
		}
		switch v.Elem().Kind() {
		case reflect.Bool:
			return fmt.Sprint(v.Elem().Bool()), false
		case reflect.String:
			return fmt.Sprintf("%q", v.Elem().String()), false
		}
		return mean(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			s, _ := mean(v.Index(i))
			text += s
		}
		return text, false
	case reflect.String:
		if v.Len() == 0 {
			return "", false
		}
		return fmt.Sprintf("%q", v.String()), false
	case reflect.Bool:
		if !v.Bool() {
			return "", false
		}
		return "true", false
	case reflect.Struct:
	default:
		return fmt.Sprint(v.Interface()), false
	}
	name := v.Type().Name()
	var parts []string
	kept := 0
	var only reflect.Value
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Type == nodeType || !f.IsExported() || f.Name == "Source" {
			continue
		}
		s, l := mean(v.Field(i))
		if s == "" {
			continue
		}
		if (f.Name == "EmptyLine" || f.Name == "Comment") && s != "" {
			continue
		}
		if name == "ExprPrimary" && f.Name == "SubExpression" && l {
			return s, true
		}
		if name == "ExprPrimary" && f.Name == "Value" {
			literal = true
		}
		if name == "StringFragment" && f.Name == "Text" && s == `"\""` {
			f.Name, s = "Escaped", `"\\\""`
		}
		kept++
		only = v.Field(i)
		parts = append(parts, f.Name+"="+s)
		if strings.HasPrefix(name, "Expr") && only.Kind() != reflect.Slice && name != "ExprPrimary" {
			literal = l
		}
	}
	if kept == 0 {
		return "", false
	}
	if kept == 1 && strings.HasPrefix(name, "Expr") && name != "ExprPrimary" && only.Kind() != reflect.Slice {
		return parts[0][strings.Index(parts[0], "=")+1:], literal
	}
	return name + "(" + strings.Join(parts, ",") + ")", literal && name == "ExprPrimary"
}
