package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
	"verif.local/harness/sup"
)

// history is a document and what is done with its tree.
type history struct {
	document
	Steps []step
	Tapes [][]string
}

type step struct {
	Op   string
	Tree int
	Path []int
	At   int
	Arg  struct {
		Tree int
		Path []int
		At   int
		Text string
	}
	Made, Made2 *node
}

// edited are the numbers written by changes.
var edited = []*number{{lit: "77", base: 10, int: "77"}, {lit: "123456789012345678901234567890", base: 10, int: "123456789012345678901234567890"}}

// replay holds the trees, real and expected.
type replay struct {
	res   *sup.Result
	c     *comparison
	exps  []*node
	reals []reflect.Value
	fresh []bool // no parent links yet
}

// level is the struct that carries the contents of e, at v or below it.
func level(e *node, v reflect.Value) reflect.Value {
	for v.Type().Name() != e.N {
		v = target(v.FieldByName(chain[v.Type().Name()]))
	}
	return v
}

// slot is the place of capture k of e: a field, or an element of a slice.
func slot(e *node, v reflect.Value, k int) reflect.Value {
	v = level(e, v)
	f := v.FieldByName(e.C[k-1].F)
	if f.Kind() == reflect.Slice {
		return f.Index(occurrence(e, k))
	}
	return f
}

func occurrence(e *node, k int) (n int) {
	for _, x := range e.C[:k-1] {
		if x.F == e.C[k-1].F {
			n++
		}
	}
	return
}

// at walks down a path.
func at(e *node, v reflect.Value, path []int) (*node, reflect.Value) {
	for _, k := range path {
		v = target(slot(e, v, k))
		e = e.C[k-1].D
	}
	return e, v
}

func edits(args []string) sup.Handler {
	return func(n int, b []byte) (res sup.Result) {
		var h history
		if err := json.Unmarshal(b, &h); err != nil {
			res.Error = err.Error()
			return
		}
		for _, t := range edited {
			h.Nums = append(h.Nums, *t)
		}
		ast, c := read(&res, &h.document)
		if ast == nil {
			return
		}
		r := &replay{res: &res, c: c, exps: []*node{h.Tree}, reals: []reflect.Value{reflect.ValueOf(ast).Elem()}, fresh: []bool{false}}
		for i := range h.Steps {
			s := &h.Steps[i]
			what := fmt.Sprintf("step %d, %s in tree %d", i+1, s.Op, s.Tree)
			if !r.do(s, what) || !r.compare(what) {
				return
			}
		}
		for i := range r.reals {
			if !r.finish(i, textOf(h.Tapes[i]), s0(len(h.Steps))) {
				return
			}
		}
		res.Count("histories", 1)
		return
	}
}

func s0(n int) string { return fmt.Sprintf("after %d steps", n) }

func (r *replay) do(s *step, what string) bool {
	res, c := r.res, r.c
	t := s.Tree - 1
	e, v := at(r.exps[t], r.reals[t], s.Path)
	add := func(made reflect.Value) {
		r.reals = append(r.reals, made)
		r.exps = append(r.exps, s.Made)
		r.fresh = append(r.fresh, true)
	}
	clone := func(e *node, v reflect.Value) (reflect.Value, bool) {
		cl, msg := cloneOf(v)
		if msg != "" {
			res.Add("clone", "%s: %s of %s in %q", what, msg, v.Type().Name(), c.text)
			return v, false
		}
		if d := differ(v, cl, root(v.Type().Name())); d != "" {
			res.Add("clone", "%s: the clone differs: %s in %q", what, d, c.text)
			return v, false
		}
		x, e1 := json.Marshal(v.Addr().Interface())
		y, e2 := json.Marshal(cl.Addr().Interface())
		if e1 != nil || e2 != nil || string(x) != string(y) {
			res.Add("clone", "%s: the clone has other JSON: %s and %s %v %v in %q", what, x, y, e1, e2, c.text)
			return v, false
		}
		return cl, true
	}
	res.Count(s.Op, 1)
	switch s.Op {
	case "clone":
		if len(s.Path)%2 == 1 {
			v = level(e, v)
		}
		cl, ok := clone(e, v)
		if !ok {
			return false
		}
		add(cl)
		return true
	case "set":
		setText(e, slot(e, v, s.At), s)
	case "delete":
		f := level(e, v).FieldByName(e.C[s.At-1].F)
		k := occurrence(e, s.At)
		f.Set(reflect.AppendSlice(f.Slice(0, k), f.Slice(k+1, f.Len())))
	case "insert":
		f := level(e, v).FieldByName(e.C[s.At-1].F)
		k := occurrence(e, s.At)
		cl, ok := clone(e.C[s.At-1].D, f.Index(k).Elem())
		if !ok {
			return false
		}
		n := f.Len()
		f.Set(reflect.Append(f, cl.Addr())) // where there is room, in place
		reflect.Copy(f.Slice(k+1, n+1), f.Slice(k, n))
		f.Index(k).Set(cl.Addr())
	case "swap":
		a, b := slot(e, v, s.At), slot(e, v, s.Arg.At)
		x := a.Interface()
		a.Set(b)
		b.Set(reflect.ValueOf(x))
	case "move":
		k := s.Arg.Tree - 1
		to, tv := at(r.exps[k], r.reals[k], s.Arg.Path)
		a, b := slot(e, v, s.At), slot(to, tv, s.Arg.At)
		x := a.Interface()
		a.Set(b)
		b.Set(reflect.ValueOf(x))
		r.exps[k] = s.Made2
		r.fresh[t], r.fresh[k] = false, false // parents are as they were
	case "graft":
		from, fv := at(r.exps[s.Arg.Tree-1], r.reals[s.Arg.Tree-1], s.Arg.Path)
		src := slot(from, fv, s.Arg.At)
		cl, ok := clone(from.C[s.Arg.At-1].D, target(src))
		if !ok {
			return false
		}
		dst := slot(e, v, s.At)
		if dst.Kind() == reflect.Pointer {
			dst.Set(cl.Addr())
		} else {
			dst.Set(cl)
		}
	case "refs":
		r.reals[t].Addr().Interface().(*etx.AST).UpdateParentRefs()
		r.fresh[t] = false
		if !r.same(t, what) {
			return false
		}
		n := len(res.Mismatches)
		navigate(res, c, true)
		return len(res.Mismatches) == n
	case "lambda":
		f := level(e, v).Addr().Interface().(*etx.Func)
		body := f.Body[occurrence(e, s.At)]
		l := &etx.Lambda{ASTNode: f.ASTNode.Clone()}
		l.Expr = *body.Expr.Clone()
		for _, p := range f.Parameters {
			q := p.Clone()
			l.Parameters = append(l.Parameters, &etx.LambdaParameter{ASTNode: q.ASTNode, Label: q.Label, Type: q.Type})
		}
		for _, x := range f.Body {
			if x.Comment != nil {
				l.Comment = x.Comment.Clone()
				break
			}
		}
		cl, ok := clone(s.Made, reflect.ValueOf(l).Elem())
		if !ok {
			return false
		}
		l.Parameters = append(l.Parameters[:0], nil) // the clone has its own
		add(cl)
		return true
	default:
		res.Error = "unknown step " + s.Op
		return false
	}
	r.exps[t] = s.Made
	return true
}

// setText changes a text, in place where it can be.
func setText(e *node, f reflect.Value, s *step) {
	switch x := f.Interface().(type) {
	case *etx.ValueNumber:
		n, _, err := big.ParseFloat(s.Arg.Text, 10, 512, big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		x.Value.SetPrec(512).Set(n)
		x.Source = s.Arg.Text
	default:
		text := symbols(s.Arg.Text)
		if !isElement(e, s.At) { // a field may be captured in parts
			text = ""
			made := s.Made
			for _, k := range s.Path {
				made = made.C[k-1].D
			}
			for _, x := range made.field(e.C[s.At-1].F) {
				text += x.S
			}
		}
		f.SetString(text)
	}
}

// isElement: the capture is an element of a list of texts.
func isElement(e *node, k int) bool {
	switch e.C[k-1].F {
	case "Parts", "Labels", "SingleLine":
		return true
	}
	return false
}

// same compares one tree with what is expected of it.
func (r *replay) same(t int, what string) bool {
	c := r.c
	c.pairs, c.broken, c.inText = nil, false, 0
	n := len(r.res.Mismatches)
	c.node(r.exps[t], r.reals[t])
	if len(r.res.Mismatches) > n {
		for i := n; i < len(r.res.Mismatches); i++ {
			m := &r.res.Mismatches[i]
			m.Area, m.Msg = "edit", fmt.Sprintf("%s: tree %d: %s", what, t+1, m.Msg)
		}
		return false
	}
	return true
}

// compare all trees: the others are as they were.
func (r *replay) compare(what string) bool {
	for t := range r.reals {
		if !r.same(t, what) {
			return false
		}
		if r.fresh[t] {
			for _, p := range r.c.pairs {
				if f := p.real.FieldByName("Parent"); f.IsValid() && !f.IsNil() {
					r.res.Add("clone", "%s: %s of tree %d has a parent in %q", what, p.real.Type().Name(), t+1, r.c.text)
					return false
				}
			}
		}
	}
	return true
}

// finish navigates and formats a tree.
func (r *replay) finish(t int, tape, what string) bool {
	if !r.same(t, what) {
		return false
	}
	n := len(r.res.Mismatches)
	navigate(r.res, r.c, false)
	if len(r.res.Mismatches) > n {
		return false
	}
	if k := r.exps[t].N; k == "MapItem" || k == "ListItem" {
		return true // how it ends is up to the map or list it is in
	}
	s, msg := formattedNode(r.reals[t])
	if msg != "" {
		r.res.Add("format", "%s: %s when formatting tree %d of %q", what, msg, t+1, r.c.text)
		return false
	}
	if got, want := blanks.Replace(s), blanks.Replace(tape); got != want {
		r.res.Add("format", "%s: tree %d of %q is formatted as %q, without blanks %q, should be %q", what, t+1, r.c.text, s, got, want)
		return false
	}
	return true
}

func formattedNode(v reflect.Value) (s, msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	f, ok := v.Addr().Interface().(interface{ FormattedString() string })
	if !ok {
		return "", "no FormattedString method"
	}
	return f.FormattedString(), ""
}
