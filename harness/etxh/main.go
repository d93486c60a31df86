// Command etxh runs the documents of the specification on pkg/etx.
package main

import (
	"encoding/json"
	"fmt"
	"hash/crc32"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/hexbee-net/etxe/pkg/etx"
	"verif.local/harness/sup"
)

func main() {
	sup.Main(map[string]func([]string) sup.Handler{
		"doc":   docs,
		"entry": entries,
		"edit":  edits,
		"pump":  pumps,
	}, map[string]func([]string){
		"finding": finding,
	})
}

// entryNames are the three ways in; which one gives the tree that is then used
// depends on the text.
var entryNames = []string{"string", "bytes", "reader"}

var readerPieces = [][]int{{1 << 16}, {1}, {7, 0, 512}, {0, 3}, {64}}

// parse runs the real parser; a panic is reported in msg.
func parse(text string) (ast *etx.AST, err error, msg string) {
	return parseBy("string", text)
}

func parseBy(entry, text string) (ast *etx.AST, err error, msg string) {
	h := hash(text)
	ends := []string{"eof", "with"}
	a := call(text, entryCall{Entry: entry, Reads: readerPieces[h%len(readerPieces)], End: ends[h/8%2], Spoil: true})
	return a.ast, a.err, a.msg
}

func hash(text string) int { return int(crc32.ChecksumIEEE([]byte(text)) >> 1) }

// read parses the text of a document by one of the entries, some texts by all
// of them, and compares the trees.
func read(res *sup.Result, d *document) (ast *etx.AST, c *comparison) {
	text := textOf(d.Text)
	n := len(res.Mismatches)
	first := hash(text) % 3
	for i := range entryNames {
		if i > 0 && hash(text)/32%6 != 0 {
			break
		}
		entry := entryNames[(first+i)%3]
		a, x := readBy(res, d, entry, text)
		if i == 0 {
			ast, c = a, x
		}
		if len(res.Mismatches) > n {
			for k := n; k < len(res.Mismatches); k++ {
				res.Mismatches[k].Msg += " (parsed from a " + entry + ")"
			}
			return
		}
	}
	return
}

func readBy(res *sup.Result, d *document, entry, text string) (*etx.AST, *comparison) {
	ast, err, msg := parseBy(entry, text)
	if msg != "" {
		area := "entry"
		if strings.HasPrefix(msg, "panic") {
			area = "panic"
		}
		res.Add(area, "%s on %q", msg, text)
		return nil, nil
	}
	if d.Mid {
		res.Count("skipped: heredoc delimiter in the middle of a line", 1)
		return nil, nil
	}
	if err != nil && ast != nil {
		res.Add("partial", "an error and a tree on %q", text)
		return nil, nil
	}
	if err == nil && ast == nil {
		res.Add("partial", "no error and no tree on %q", text)
		return nil, nil
	}
	if d.OK && err != nil {
		res.Add("reject", "%v on %q", err, text)
		return nil, nil
	}
	if !d.OK {
		res.Count("invalid", 1)
		if err == nil {
			res.Add("accept", "no error on %q", text)
		} else if len(d.At) > 0 {
			where(res, d, err, text)
		}
		return nil, nil
	}
	res.Count("valid", 1)
	c := &comparison{res: res, at: d.At, text: text, nums: map[string]*number{}}
	for i := range d.Nums {
		c.nums[d.Nums[i].lit] = &d.Nums[i]
	}
	c.node(d.Tree, reflect.ValueOf(ast).Elem())
	if c.broken {
		c.ast = ast
		return nil, c
	}
	res.Count("nodes", len(c.pairs))
	return ast, c
}

func docs(args []string) sup.Handler {
	do := map[string]bool{}
	for _, a := range args {
		do[a] = true
	}
	return func(n int, b []byte) (res sup.Result) {
		var d document
		if err := json.Unmarshal(b, &d); err != nil {
			res.Error = err.Error()
			return
		}
		ast, c := read(&res, &d)
		if ast == nil {
			// another tree than specified may be formatted wrongly as well
			if c != nil && do["trip"] {
				trip(&res, c.text, c.ast)
			}
			return
		}
		if do["nav"] {
			navigate(&res, c, true)
		}
		if do["clone"] {
			cloneAll(&res, c)
		}
		if do["json"] {
			marshal(&res, &d, c.text, ast)
		}
		if do["format"] {
			format(&res, &d, c, ast)
		}
		if do["trip"] {
			trip(&res, c.text, ast)
		}
		return
	}
}

// ---------------------------------------------------------------------------
// C14

func asNode(v reflect.Value) etx.Node {
	n, _ := v.Addr().Interface().(etx.Node)
	return n
}

type childrener interface{ Children() []etx.Node }

// expected lists the children that the content of a node asks for.
func expected(p pair) (out []reflect.Value) {
	kind := p.real.Type().Name()
	if kind != p.exp.N {
		return []reflect.Value{target(p.real.FieldByName(chain[kind]))}
	}
	next := map[string]int{}
	for _, x := range p.exp.C {
		f := p.real.FieldByName(x.F)
		if x.K == "s" {
			if x.F == "Bool" || x.F == "Number" {
				out = append(out, f.Elem())
			}
			continue
		}
		if f.Kind() == reflect.Slice {
			out = append(out, f.Index(next[x.F]).Elem())
			next[x.F]++
			continue
		}
		out = append(out, target(f))
	}
	return
}

func target(f reflect.Value) reflect.Value {
	if f.Kind() == reflect.Pointer {
		return f.Elem()
	}
	return f
}

// navigate checks children and parents of every node.
func navigate(res *sup.Result, c *comparison, parents bool) {
	for _, p := range c.pairs {
		kind := p.real.Type().Name()
		me, ok := p.real.Addr().Interface().(childrener)
		if !ok {
			res.Add("children", "%s has no children method", kind)
			continue
		}
		var self etx.Node
		if kind != "AST" {
			self = asNode(p.real)
		}
		checkChildren(res, c.text, kind, me.Children(), expected(p), p.real, self, parents)
	}
	res.Count("nodes navigated", len(c.pairs))
}

func checkChildren(res *sup.Result, text, kind string, got []etx.Node, want []reflect.Value, v reflect.Value, self etx.Node, parents bool) {
	k := 0
	for _, g := range got {
		if g == nil || reflect.ValueOf(g).IsNil() {
			res.Add("children", "%s has a nil child in %q", kind, text)
			return
		}
		p := reflect.ValueOf(g).Pointer()
		if k < len(want) && p == want[k].Addr().Pointer() && reflect.TypeOf(g).Elem() == want[k].Type() {
			k++
		} else if emptyPart(v, g) {
			// a part of the node that the text leaves empty
		} else {
			res.Add("children", "%s: child %d (%T) should be %s in %q", kind, k, g, wanted(want, k), text)
			return
		}
		if par := g.Node().Parent; parents && (self == nil && par != nil || self != nil && par != self) {
			res.Add("parents", "the parent of %T in %s is %s in %q", g, kind, who(par), text)
			return
		}
	}
	if k < len(want) {
		res.Add("children", "%s has no child %s in %q", kind, wanted(want, k), text)
	}
}

func who(n etx.Node) string {
	if n == nil {
		return "nothing"
	}
	return fmt.Sprintf("a %T", n)
}

func wanted(w []reflect.Value, k int) string {
	if k >= len(w) {
		return "nothing"
	}
	return w[k].Type().Name()
}

// emptyPart: g is an embedded, empty part of v.
func emptyPart(v reflect.Value, g etx.Node) bool {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Struct && f.Type() != nodeType && f.Addr().Pointer() == reflect.ValueOf(g).Pointer() &&
			f.Type() == reflect.TypeOf(g).Elem() {
			return onlyParent(f)
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C15

func cloneOf(v reflect.Value) (out reflect.Value, msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	m := v.Addr().MethodByName("Clone")
	if !m.IsValid() {
		return reflect.Value{}, "no Clone method"
	}
	r := m.Call(nil)[0]
	if r.Kind() != reflect.Pointer || r.Type() != v.Addr().Type() {
		return reflect.Value{}, "Clone gives a " + r.Type().String()
	}
	if r.IsNil() {
		return reflect.Value{}, "Clone gives nil"
	}
	return r.Elem(), ""
}

func cloneAll(res *sup.Result, c *comparison) {
	for i, p := range c.pairs {
		if p.real.Type().Name() != p.exp.N && i%5 != 0 {
			continue // levels with one operand only are clones of each other
		}
		kind := p.real.Type().Name()
		cl, msg := cloneOf(p.real)
		if msg != "" {
			res.Add("clone", "%s of %s in %q", msg, kind, c.text)
			continue
		}
		if d := differ(p.real, cl, root(kind)); d != "" {
			res.Add("clone", "the clone of a %s differs: %s in %q", kind, d, c.text)
			continue
		}
		if d := shared(p.real, cl); d != "" {
			res.Add("clone", "the clone of a %s shares %s in %q", kind, d, c.text)
		}
		res.Count("clones", 1)
	}
}

// differ compares two trees: content and positions; b has no parents.
func differ(a, b reflect.Value, path *path) string {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s is nil in one of them", path)
		}
		if a.IsNil() {
			return ""
		}
		if a.Type().String() == "*big.Float" {
			x, y := a.MethodByName("Text"), b.MethodByName("Text")
			args := []reflect.Value{reflect.ValueOf(byte('p')), reflect.ValueOf(0)}
			if s, t := x.Call(args)[0].String(), y.Call(args)[0].String(); s != t {
				return fmt.Sprintf("%s is %s and %s", path, s, t)
			}
			return ""
		}
		return differ(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(a.Index(i), b.Index(i), path.at(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.Type == nodeType {
				x, y := a.Field(i).Interface().(etx.ASTNode), b.Field(i).Interface().(etx.ASTNode)
				if x.Pos != y.Pos {
					return fmt.Sprintf("%s is at %v and %v", path, x.Pos, y.Pos)
				}
				if y.Parent != nil {
					return fmt.Sprintf("%s has a parent", path)
				}
				continue
			}
			if d := differ(a.Field(i), b.Field(i), path.dot(f.Name)); d != "" {
				return d
			}
		}
		return ""
	default:
		if x, y := fmt.Sprint(a), fmt.Sprint(b); x != y {
			return fmt.Sprintf("%s is %q and %q", path, x, y)
		}
		return ""
	}
}

type span struct {
	lo, hi uintptr
	what   *path
}

// memory lists the memory that belongs to a tree.
func memory(v reflect.Value, path *path, out *[]span) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Type().Size() > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + e.Type().Size(), path})
		}
		memory(e, path, out)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		*out = append(*out, span{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), path})
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), path.at(i), out)
		}
	case reflect.Map:
		if !v.IsNil() {
			*out = append(*out, span{v.Pointer(), v.Pointer() + 1, path})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Name != "Parent" {
				memory(v.Field(i), path.dot(f.Name), out)
			}
		}
	}
}

// shared names a part of memory that belongs to both trees.
func shared(a, b reflect.Value) string {
	var x, y []span
	memory(a.Addr(), root(a.Type().Name()), &x)
	memory(b.Addr(), root(b.Type().Name()), &y)
	sort.Slice(x, func(i, j int) bool { return x[i].lo < x[j].lo })
	for _, s := range y {
		k := sort.Search(len(x), func(i int) bool { return x[i].lo >= s.hi })
		for i := k - 1; i >= 0 && i > k-40; i-- {
			if x[i].hi > s.lo {
				return s.what.String()
			}
		}
	}
	return ""
}

// dump is everything there is in a tree.
func dump(v reflect.Value, sb *strings.Builder) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil ")
			return
		}
		if v.Type().String() == "*big.Float" {
			sb.WriteString(v.MethodByName("Text").Call([]reflect.Value{reflect.ValueOf(byte('p')), reflect.ValueOf(0)})[0].String())
			return
		}
		dump(v.Elem(), sb)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), sb)
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "Parent" {
				p := v.Field(i)
				if p.IsNil() {
					sb.WriteString("- ")
				} else {
					fmt.Fprintf(sb, "%x ", p.Elem().Pointer())
				}
				continue
			}
			dump(v.Field(i), sb)
		}
		sb.WriteString("}")
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	default:
		fmt.Fprint(sb, v)
	}
	sb.WriteString(" ")
}

func dumpOf(a *etx.AST) string {
	var sb strings.Builder
	dump(reflect.ValueOf(a), &sb)
	return sb.String()
}

var _ = unsafe.Pointer(nil)

// ---------------------------------------------------------------------------
// C16, C17

func formatted(ast *etx.AST) (s, msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	return ast.FormattedString(), ""
}

var blanks = strings.NewReplacer(" ", "", "\t", "", "\n", "", "\r", "")

func format(res *sup.Result, d *document, c *comparison, ast *etx.AST) {
	before := dumpOf(ast)
	s, msg := formatted(ast)
	if msg != "" {
		res.Add("format", "%s when formatting %q", msg, c.text)
		return
	}
	if dumpOf(ast) != before {
		res.Add("format", "formatting changed the tree of %q", c.text)
		return
	}
	if s2, _ := formatted(ast); s2 != s {
		res.Add("format", "formatting twice gives %q and %q", s, s2)
		return
	}
	want := blanks.Replace(textOf(d.Tape))
	if got := blanks.Replace(s); got != want {
		res.Add("format", "formatting %q gives %q, without blanks %q, should be %q", c.text, s, got, want)
		return
	}
	pieces := make([]string, len(d.Tape))
	for i, p := range d.Tape {
		pieces[i] = symbols(p)
		if strings.HasPrefix(pieces[i], "<<") { // the line end behind a delimiter is no text
			pieces[i] = strings.TrimRight(pieces[i], "\n")
		}
	}
	if msg := altered(pieces, s); msg != "" {
		res.Add("format", "formatting %q gives %q: %s", c.text, s, msg)
		return
	}
	res.Count("formatted", 1)
}

var lines = regexp.MustCompile(`\n\n+`)

// trip formats, parses and formats again, and records the texts for the
// specification to compare.
func trip(res *sup.Result, text string, ast *etx.AST) {
	s, msg := formatted(ast)
	if msg != "" {
		res.Add("trip", "%s when formatting %q", msg, text)
		return
	}
	again, err, msg := parse(s)
	if msg != "" || err != nil {
		res.Add("trip", "%.2000q is formatted as %.2000q, which does not parse: %v%s", text, s, err, msg)
		return
	}
	s2, msg := formatted(again)
	if msg != "" {
		res.Add("trip", "%s when formatting %q", msg, s)
		return
	}
	// the empty lines between items grow: known, not part of the property
	if len(ast.Items) > 1 {
		s, s2 = lines.ReplaceAllString(s, "\n"), lines.ReplaceAllString(s2, "\n")
	}
	if s2 != s {
		res.Add("trip", "%.2000q is formatted as %.2000q and that as %.2000q", text, s, s2)
		return
	}
	if a, _ := mean(reflect.ValueOf(ast)); true {
		if b, _ := mean(reflect.ValueOf(again)); a != b {
			res.Add("trip", "%.300q is formatted as %.300q, which means something else: %.900s, not %.900s", text, s, b, a)
			return
		}
	}
	b, _ := json.Marshal(map[string]any{"a": symbolsOf(text), "b": symbolsOf(s)})
	res.Record(string(b))
	res.Count("round trips", 1)
}

// ---------------------------------------------------------------------------
// C20

func marshal(res *sup.Result, d *document, text string, ast *etx.AST) {
	b, err := json.Marshal(ast)
	if err != nil && strings.Contains(err.Error(), "max depth") && depth(d.JSON) > 5000 {
		res.Count("deeper than encoding/json allows", 1) // the finding json-nesting-1000
		return
	}
	if err != nil {
		res.Add("json", "%v on %q", err, text)
		return
	}
	var got any
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if err := dec.Decode(&got); err != nil {
		res.Add("json", "%v on %q", err, text)
		return
	}
	if msg := sameJSON(d.JSON, got, root("$")); msg != "" {
		res.Add("json", "%s in the JSON of %q", msg, text)
		return
	}
	if len(d.Text2) > 0 {
		t2 := textOf(d.Text2)
		other, err, msg := parse(t2)
		if err != nil || msg != "" {
			res.Add("json", "%q does not parse: %v%s", t2, err, msg)
			return
		}
		b2, err := json.Marshal(other)
		if err != nil || string(b2) != string(b) {
			res.Add("json", "%q and %q have different JSON", text, t2)
			return
		}
		res.Count("layouts", 1)
	}
	res.Count("marshalled", 1)
}

func depth(v any) (n int) {
	switch x := v.(type) {
	case map[string]any:
		for _, y := range x {
			n = max(n, depth(y))
		}
	case []any:
		for _, y := range x {
			n = max(n, depth(y))
		}
	}
	return n + 1
}

func zeroJSON(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case string:
		return x == ""
	case json.Number:
		return false
	case []any:
		return len(x) == 0
	case map[string]any:
		for _, e := range x {
			if !zeroJSON(e) {
				return false
			}
		}
		return true
	}
	return false
}

func sameJSON(want, got any, path *path) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is %v, should be an object", path, got)
		}
		if lit, ok := w["#number"].(string); ok {
			return jsonNumber(lit, g, path)
		}
		if h, ok := w["#heredoc"].(string); ok {
			word := strings.TrimSuffix(strings.TrimPrefix(h, "<<"), "\n")
			w = map[string]any{"leading_tabs": strings.HasPrefix(word, "-"), "delimiter": strings.TrimPrefix(word, "-")}
		}
		for k, e := range w {
			x, ok := g[k]
			if !ok && !zeroJSON(e) {
				return fmt.Sprintf("%s has no %s", path, k)
			}
			if !ok {
				continue
			}
			if msg := sameJSON(e, x, path.dot(k)); msg != "" {
				return msg
			}
		}
		for k, x := range g {
			if _, ok := w[k]; !ok && !zeroJSON(x) {
				return fmt.Sprintf("%s has %s: %v", path, k, x)
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok && len(w) == 0 && zeroJSON(got) {
			return ""
		}
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %v, should have %d elements", path, got, len(w))
		}
		for i := range w {
			if msg := sameJSON(w[i], g[i], path.at(i)); msg != "" {
				return msg
			}
		}
		return ""
	case string:
		// encoding/json replaces bytes that are no text
		if g, ok := got.(string); !ok || strings.ToValidUTF8(symbols(w), "\uFFFD") != g && symbols(w) != g {
			return fmt.Sprintf("%s is %v, should be %q", path, got, symbols(w))
		}
		return ""
	default:
		if !reflect.DeepEqual(want, got) {
			return fmt.Sprintf("%s is %v, should be %v", path, got, want)
		}
		return ""
	}
}

func jsonNumber(lit string, g map[string]any, path *path) string {
	n := 0
	for k, x := range g {
		s, ok := x.(string)
		if num, isNum := x.(json.Number); isNum {
			s, ok = string(num), true
		}
		if !ok || s == "" {
			if zeroJSON(x) {
				continue
			}
			return fmt.Sprintf("%s.%s is %v", path, k, x)
		}
		n++
		if !literal.MatchString(s) {
			return fmt.Sprintf("%s.%s is %q, should be the number %s", path, k, s, lit)
		}
		a, ai := exact(lit)
		b, bi := exact(s)
		if a == nil || b == nil {
			continue
		}
		if a.Cmp(b) != 0 && (ai && bi || !near(a, b)) {
			return fmt.Sprintf("%s.%s is %q, should be the number %s", path, k, s, lit)
		}
	}
	if n == 0 {
		return fmt.Sprintf("%s is %v, should be the number %s", path, g, lit)
	}
	return ""
}
