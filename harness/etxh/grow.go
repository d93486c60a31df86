package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// A pumped text is  before open^n mid close^n after.  What the specification
// says about n = 2, 3, 4 has the same form, so it tells about every n: a part
// that is there once more with every n, and maybe another one behind the
// middle.  The prediction for 4 from 2 and 3 has to be what is specified.

// repeat finds the parts of a (n = 2), b (n = 3) and c (n = 4) that repeat.
func repeat[T comparable](a, b, c []T) (func(n int) []T, error) {
	d := len(b) - len(a)
	if d < 0 || len(c) != len(b)+d {
		return nil, fmt.Errorf("the lengths %d, %d, %d", len(a), len(b), len(c))
	}
	lcp, lcs := 0, 0
	for lcp < len(a) && a[lcp] == b[lcp] {
		lcp++
	}
	for lcs < len(a) && a[len(a)-1-lcs] == b[len(b)-1-lcs] {
		lcs++
	}
	same := func(x, y []T) bool {
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return len(x) == len(y)
	}
	try := func(i, j, k int) func(n int) []T {
		// b = a[:i] b[i:i+k] a[i:j] b[j+k:j+d] a[j:]
		if !same(a[i:j], b[i+k:j+k]) {
			return nil
		}
		p, q := b[i:i+k], b[j+k:j+d]
		f := func(n int) (out []T) {
			out = append(out, a[:i]...)
			for x := 2; x < n; x++ {
				out = append(out, p...)
			}
			out = append(out, a[i:j]...)
			for x := 2; x < n; x++ {
				out = append(out, q...)
			}
			return append(out, a[j:]...)
		}
		if !same(f(3), b) || !same(f(4), c) {
			return nil
		}
		return f
	}
	for i := lcp; i >= 0; i-- {
		for j := max(i, len(a)-lcs); j <= len(a); j++ {
			for k := d; k >= 0; k-- {
				if f := try(i, j, k); f != nil {
					return f, nil
				}
			}
		}
	}
	return nil, fmt.Errorf("no part repeats")
}

// growTexts: the lists grow, or the texts in them.
func growTexts(a, b, c []string) (func(n int) []string, error) {
	if len(a) != len(b) {
		return repeat(a, b, c)
	}
	if len(c) != len(b) {
		return nil, fmt.Errorf("the lengths %d, %d, %d", len(a), len(b), len(c))
	}
	fs := make([]func(int) []byte, len(a))
	for i := range a {
		if a[i] == b[i] && b[i] == c[i] {
			continue
		}
		f, err := repeat([]byte(a[i]), []byte(b[i]), []byte(c[i]))
		if err != nil {
			return nil, fmt.Errorf("%q: %w", a[i], err)
		}
		fs[i] = f
	}
	return func(n int) []string {
		out := append([]string(nil), a...)
		for i, f := range fs {
			if f != nil {
				out[i] = string(f(n))
			}
		}
		return out
	}, nil
}

// growInts: the list grows, or the numbers in it, evenly.
func growInts(a, b, c []int) (func(n int) []int, error) {
	if len(a) != len(b) {
		return repeat(a, b, c)
	}
	for i := range a {
		if len(c) != len(b) || c[i]-b[i] != b[i]-a[i] {
			return nil, fmt.Errorf("%d, %d, %d", a, b, c)
		}
	}
	return func(n int) []int {
		out := append([]int(nil), a...)
		for i := range out {
			out[i] += (n - 2) * (b[i] - a[i])
		}
		return out
	}, nil
}

// flat writes a tree as a list of its content and one of the distances from
// node to node; unflat reads them.
func flat(e *node, last *int, out []string, dist []int) ([]string, []int) {
	out, dist = append(out, "("+e.N), append(dist, e.P-*last)
	*last = e.P
	for _, c := range e.C {
		out = append(out, c.F+"\x00"+c.K+"\x00"+c.T)
		if c.K == "n" {
			out, dist = flat(c.D, last, out, dist)
		} else {
			out = append(out, c.S)
		}
	}
	return append(out, ")"), dist
}

func unflat(in []string, dist []int, last *int) (*node, []string, []int) {
	if in[0][0] != '(' {
		panic(fmt.Sprint("no node: ", in[:min(len(in), 5)]))
	}
	*last += dist[0]
	e := &node{N: in[0][1:], P: *last}
	dist = dist[1:]
	for in = in[1:]; in[0] != ")"; {
		p := strings.Split(in[0], "\x00")
		c := capture{F: p[0], K: p[1], T: p[2]}
		if in = in[1:]; c.K == "n" {
			c.D, in, dist = unflat(in, dist, last)
		} else {
			c.S, in = in[0], in[1:]
		}
		e.C = append(e.C, c)
	}
	return e, in[1:], dist
}

// flatJSON and unflatJSON do the same with any other value.
func flatJSON(v any, out []string) []string {
	switch x := v.(type) {
	case []any:
		out = append(out, "[")
		for _, y := range x {
			out = flatJSON(y, out)
		}
		return append(out, "]")
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out = append(out, "{")
		for _, k := range ks {
			out = flatJSON(x[k], append(out, k))
		}
		return append(out, "}")
	case string:
		return append(out, "s"+x)
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return append(out, "v"+string(b))
}

func unflatJSON(in []string) (any, []string) {
	t := in[0]
	in = in[1:]
	switch t[0] {
	case '[':
		l := []any{}
		for in[0] != "]" {
			var y any
			y, in = unflatJSON(in)
			l = append(l, y)
		}
		return l, in[1:]
	case '{':
		m := map[string]any{}
		for in[0] != "}" {
			k := in[0]
			m[k], in = unflatJSON(in[1:])
		}
		return m, in[1:]
	case 's':
		return t[1:], in
	}
	var v any
	if err := json.Unmarshal([]byte(t[1:]), &v); err != nil {
		panic(err)
	}
	return v, in
}

// places are the line and column (in characters) of every offset of a text
// that a character starts at.
func places(text string) map[int][2]int {
	m := map[int][2]int{}
	line, col := 1, 1
	for i := 0; i < len(text); {
		m[i] = [2]int{line, col}
		_, w := decode(text[i:])
		if text[i] == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
		i += w
	}
	m[len(text)] = [2]int{line, col}
	return m
}

func atOf(offsets []int, text string) (out [][3]int) {
	m := places(text)
	last := 0
	for _, o := range offsets {
		last += o
		out = append(out, [3]int{last, m[last][0], m[last][1]})
	}
	return
}

func (p *pumped) offsets(d *document) (out []int) {
	last := 0
	for _, a := range d.At {
		out = append(out, a[0]-last)
		last = a[0]
	}
	return
}

// grower gives the document for every n from those for 2, 3 and 4.
func (p *pumped) grower() (func(n int) *document, error) {
	a, b, c := p.Docs[0], p.Docs[1], p.Docs[2]
	offs, err := growInts(p.offsets(a), p.offsets(b), p.offsets(c))
	if err != nil {
		return nil, fmt.Errorf("tokens: %w", err)
	}
	tell, err := growInts([]int{a.From, a.To}, []int{b.From, b.To}, []int{c.From, c.To})
	if err != nil {
		return nil, fmt.Errorf("place: %w", err)
	}
	var tree, js, tape func(int) []string
	var dist func(int) []int
	var nums []func(int) []string
	if p.OK {
		var ts [3][]string
		var ds [3][]int
		for i, d := range p.Docs {
			last := 0
			ts[i], ds[i] = flat(d.Tree, &last, nil, nil)
		}
		if tree, err = growTexts(ts[0], ts[1], ts[2]); err != nil {
			return nil, fmt.Errorf("tree: %w", err)
		}
		if dist, err = growInts(ds[0], ds[1], ds[2]); err != nil {
			return nil, fmt.Errorf("distances: %w", err)
		}
		if js, err = growTexts(flatJSON(a.JSON, nil), flatJSON(b.JSON, nil), flatJSON(c.JSON, nil)); err != nil {
			return nil, fmt.Errorf("JSON: %w", err)
		}
		if tape, err = growTexts(a.Tape, b.Tape, c.Tape); err != nil {
			return nil, fmt.Errorf("tape: %w", err)
		}
		for _, d := range p.Docs {
			sort.Slice(d.Nums, func(i, j int) bool { return d.Nums[i].lit < d.Nums[j].lit })
		}
		for i := range a.Nums {
			of := func(x number) []string { return []string{x.lit, x.int, x.frac, x.exp_} }
			f, err := growTexts(of(a.Nums[i]), of(b.Nums[i]), of(c.Nums[i]))
			if err != nil {
				return nil, fmt.Errorf("number: %w", err)
			}
			nums = append(nums, f)
		}
	}
	f := func(n int) *document {
		text := p.text(n)
		t := tell(n)
		d := &document{Text: symbolsOf(text), OK: p.OK, Mid: a.Mid, Lexed: a.Lexed, Bad: a.Bad, From: t[0], To: t[1],
			At: atOf(offs(n), text)}
		if p.OK {
			last := 0
			d.Tree, _, _ = unflat(tree(n), dist(n), &last)
			d.JSON, _ = unflatJSON(js(n))
			d.Tape = tape(n)
			for i, f := range nums {
				x := f(n)
				d.Nums = append(d.Nums, number{lit: x[0], base: a.Nums[i].base, int: x[1], frac: x[2], exp_: x[3]})
			}
		}
		return d
	}
	for i, d := range p.Docs { // what is told about places fits
		if g := f(i + 2); fmt.Sprint(g.At) != fmt.Sprint(d.At) {
			return nil, fmt.Errorf("places %v and %v", g.At, d.At)
		}
	}
	return f, nil
}
