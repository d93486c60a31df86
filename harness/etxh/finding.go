package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// tripFails: the formatted text has another form when formatted again, or
// does not parse.
func tripFails(text string) bool {
	ast, err := etx.ParseString(text)
	if err != nil {
		return false
	}
	s := ast.FormattedString()
	again, err := etx.ParseString(s)
	return err != nil || again.FormattedString() != s
}

// findings are recorded defects; true means that it is still there.
var findings = map[string]func() bool{
	"heredoc-delimiter-after-interpolation": func() bool {
		ast, err := etx.ParseString("x = <<EOF\n${x}EOF\ny\nEOF\n")
		return err != nil || len(ast.Items) != 1 // one attribute
	},
	"huge-exponent": func() bool {
		ast, err := etx.ParseString("val x = 1e999999999")
		if err != nil {
			return true
		}
		e := ast.Items[0].Decl.Value
		n := e.Left.Condition.Left.Left.Left.Left.Left.Left.Left.Left.Left.Left.Right.Value.Value.Number
		return n.Value.IsInf()
	},
	"nesting-1000000": func() bool {
		etx.ParseString("val x = " + strings.Repeat("(", 1000000)) // does not return
		return false
	},
	"json-nesting-1000": func() bool {
		ast, err := etx.ParseString("val x = " + strings.Repeat("(", 1000) + "1" + strings.Repeat(")", 1000))
		if err != nil {
			return false
		}
		_, err = json.Marshal(ast)
		return err != nil
	},
	"line-end-in-string-in-function": func() bool { return tripFails("def f() {\n\"a\nb\"\n}\n") },
	"number-member":                  func() bool { return tripFails("val x = a . 5\n") },
	"multi-line-comment-in-function": func() bool { return tripFails("def f() {\n/* a\nb */\nval x = 1\n}\n") },
}

// finding tells whether a recorded defect is still there.
func finding(args []string) {
	f, ok := findings[args[0]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown finding", args[0])
		os.Exit(3)
	}
	if f() {
		fmt.Println("present")
	} else {
		fmt.Println("absent")
	}
	os.Exit(0)
}
