package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/alecthomas/participle/v2"
	"verif.local/harness/sup"
)

// where checks that the error of a text that is no document tells where that
// is: at a token from its first bad item to the furthest token a reader of the
// grammar looks at.  The error of a number literal may tell the literal instead.
func where(res *sup.Result, d *document, err error, text string) {
	var pe participle.Error
	if !errors.As(err, &pe) {
		res.Add("where", "the error tells no place: %v on %q", err, text)
		return
	}
	p := pe.Position()
	if p.Line == 0 {
		for _, b := range d.Bad {
			if strings.Contains(err.Error(), b[0]) || strings.Contains(err.Error(), b[1]) {
				res.Count("told by its literal", 1)
				return
			}
		}
		res.Add("where", "the error tells no place: %v on %q", err, text)
		return
	}
	res.Count("told by its place", 1)
	for k, at := range d.At {
		if p.Offset != at[0] {
			continue
		}
		if p.Line != at[1] || p.Column != at[2] {
			res.Add("where", "offset %d is line %d column %d, the error tells %d:%d on %q", at[0], at[1], at[2], p.Line, p.Column, text)
		} else if k+1 < d.From || k+1 > d.To {
			res.Add("where", "not from token %d to %d but token %d: %v on %q", d.From, d.To, k+1, err, text)
		} else if !strings.Contains(err.Error(), place(p.Line, p.Column)) {
			res.Add("where", "the message does not tell %s: %v on %q", place(p.Line, p.Column), err, text)
		}
		return
	}
	res.Add("where", "no token starts there: %v on %q", err, text)
}

func place(line, column int) string { return fmt.Sprintf("%d:%d:", line, column) }
