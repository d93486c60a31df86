package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/hexbee-net/etxe/pkg/etx"
	"verif.local/harness/sup"
)

// pumped is a text that may grow.
type pumped struct {
	Name string
	OK   bool
	Grow int
	Seq  bool        // the tree gets no deeper
	Trip bool        // formatted, it has the same meaning
	Docs []*document // n = 2, 3, 4
	Pump struct{ Before, Open, Mid, Close, After string }
}

func (p *pumped) text(n int) string {
	return symbols(p.Pump.Before + strings.Repeat(p.Pump.Open, n) + p.Pump.Mid + strings.Repeat(p.Pump.Close, n) + p.Pump.After)
}

// size counts the nodes and texts of a tree.
func size(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().String() == "*big.Float" {
			return 0
		}
		return size(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += size(v.Index(i))
		}
		return
	case reflect.Struct:
		n = 1
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type != nodeType {
				n += size(v.Field(i))
			}
		}
		return
	case reflect.String:
		return v.Len()
	}
	return 0
}

// orphan removes all links to parents.
func orphan(ast *etx.AST) *etx.AST {
	var walk func(reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				switch f := v.Type().Field(i); {
				case f.Name == "Parent":
					v.Field(i).SetZero()
				case f.IsExported():
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(ast))
	return ast
}

// pumps parses the texts with the given numbers of repetitions.
func pumps(args []string) sup.Handler {
	var counts []int
	long := 0 // bytes of the longest sequence
	do := map[string]bool{}
	for _, a := range args {
		if a == "nav" || a == "clone" || a == "json" || a == "format" || a == "trip" {
			do[a] = true
			continue
		}
		if strings.HasPrefix(a, "long=") {
			long, _ = strconv.Atoi(a[5:])
			continue
		}
		n, err := strconv.Atoi(a)
		if err != nil {
			panic(err)
		}
		counts = append(counts, n)
	}
	return func(_ int, b []byte) (res sup.Result) {
		var p pumped
		if err := json.Unmarshal(b, &p); err != nil {
			res.Error = err.Error()
			return
		}
		var grow func(n int) *document
		if long == 0 {
			var err error
			if grow, err = p.grower(); err != nil {
				res.Error = p.Name + ": " + err.Error()
				return
			}
		}
		sizes := map[int]int{}
		reals := map[int]*etx.AST{}
		ns := append([]int{1, 2, 3}, counts...)
		if long > 0 && !p.Seq {
			return
		}
		if long > 0 {
			ns = append([]int{1, 2, 3}, 4090/len(p.Pump.Open), long/len(p.Pump.Open))
		}
		var last time.Duration
		for i := 0; i < 3*len(ns); i++ {
			n, entry := ns[i/3], entryNames[i%3]
			if i%3 != 0 && long == 0 {
				continue
			}
			text := p.text(n)
			t := time.Now()
			ast, err, msg := parseBy(entry, text)
			last = time.Since(t)
			if i == 3*len(ns)-1 && long > 0 && last < 200*time.Millisecond && len(text) < 3<<20 {
				ns = append(ns, 4*n) // longer where that is fast
			}
			if os.Getenv("PUMP_TIMES") != "" {
				fmt.Fprintln(os.Stderr, p.Name, n, entry, time.Since(t))
			}
			short := func() string {
				if long > 0 {
					return fmt.Sprintf("%q...(%q %d times), parsed from a %s", text[:min(100, len(text))], p.Pump.Open, n, entry)
				}
				if len(text) > 300 {
					return fmt.Sprintf("%q...(%q %d times)", text[:200], p.Pump.Open, n)
				}
				return fmt.Sprintf("%q", text)
			}
			switch {
			case msg != "":
				res.Add("panic", "%s on %s", msg, short())
			case (err == nil) == (ast == nil):
				res.Add("partial", "tree and error are %v and %v on %s", ast != nil, err, short())
			case p.OK && err != nil:
				res.Add("reject", "%.300v on %s", err, short())
			case !p.OK && err == nil:
				res.Add("accept", "no error on %s", short())
			case err != nil && long == 0:
				res.Count("grown non-documents", 1)
				if d := grow(n); len(d.At) > 0 && n > 1 {
					where(&res, d, err, text)
				}
			case err == nil:
				sizes[n] = size(reflect.ValueOf(ast))
				if w := sizes[1] + (n-1)*(sizes[2]-sizes[1]); n > 2 && sizes[n] != w {
					res.Add("partial", "the tree has the size %d, should have %d on %s", sizes[n], w, short())
				}
				res.Count("grown documents", 1)
				if long == 0 && n > 1 {
					d := grow(n)
					c := &comparison{res: &res, at: d.At, text: text, nums: map[string]*number{}}
					for i := range d.Nums {
						c.nums[d.Nums[i].lit] = &d.Nums[i]
					}
					c.node(d.Tree, reflect.ValueOf(ast).Elem())
					if do["trip"] && p.Trip {
						trip(&res, text, ast)
					}
					if c.broken {
						return
					}
					res.Count("nodes", len(c.pairs))
					if do["json"] {
						marshal(&res, d, text, ast)
					}
					if do["format"] {
						format(&res, d, c, ast)
					}
				}
				grown(&res, &p, n, ast, do, short())
				if long > 0 {
					if old := reals[n]; old != nil {
						if d := differ(reflect.ValueOf(old), reflect.ValueOf(orphan(ast)), root("AST")); d != "" {
							res.Add("entry", "another tree: %s on %s", d, short())
						}
					} else {
						reals[n] = ast
					}
				}
			default:
				res.Count("grown non-documents", 1)
			}
			if len(res.Mismatches) > 0 {
				if long > 0 {
					rename(&res)
				}
				return
			}
		}
		return
	}
}

// grown checks what the tree of a pumped text gives.
func grown(res *sup.Result, p *pumped, n int, ast *etx.AST, do map[string]bool, text string) {
	v := reflect.ValueOf(ast).Elem()
	if do["nav"] {
		if msg := allVisited(ast, v); msg != "" {
			area := "children"
			if strings.Contains(msg, "parent") {
				area = "parents"
			}
			res.Add(area, "%s in %s", msg, text)
		}
	}
	if do["clone"] {
		if cl, msg := cloneOf(v); msg != "" {
			res.Add("clone", "%s of %s", msg, text)
		} else if d := differ(v, cl, root("AST")); d != "" {
			res.Add("clone", "the clone differs: %s of %s", d, text)
		} else if d := shared(v, cl); d != "" {
			res.Add("clone", "the clone shares %s of %s", d, text)
		}
	}
}

// allVisited: a walk over the children visits every node once, parents fit.
func allVisited(ast *etx.AST, root reflect.Value) string {
	seen := map[string]int{}
	name := func(v reflect.Value) string { return fmt.Sprintf("%s at %x", v.Type(), v.Addr().Pointer()) }
	msg := ""
	var walk func(me etx.Node, cs []etx.Node)
	walk = func(me etx.Node, cs []etx.Node) {
		for _, c := range cs {
			if c == nil || reflect.ValueOf(c).IsNil() {
				msg = fmt.Sprintf("nil among the children of %T", me)
				return
			}
			if par := c.Node().Parent; par != me && msg == "" {
				msg = fmt.Sprintf("the parent of %T is %s, not the %T that has it", c, who(par), me)
			}
			v := reflect.ValueOf(c).Elem()
			if seen[name(v)]++; seen[name(v)] > 1 {
				msg = fmt.Sprintf("%T is visited again", c)
				return
			}
			if k, ok := c.(childrener); ok {
				walk(c, k.Children())
			}
		}
	}
	walk(nil, ast.Children())
	if msg != "" {
		return msg
	}
	var all func(v reflect.Value)
	all = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && v.Type().String() != "*big.Float" {
				all(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				all(v.Index(i))
			}
		case reflect.Struct:
			if v.Type() == nodeType {
				return
			}
			if v.CanAddr() && v != root && msg == "" {
				if _, ok := v.Addr().Interface().(etx.Node); ok && seen[name(v)] == 0 && !onlyParent(v) {
					msg = fmt.Sprintf("%s is not visited", v.Type())
				}
			}
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && f.Name != "Parent" {
					all(v.Field(i))
				}
			}
		}
	}
	all(root)
	return msg
}
