package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
	"verif.local/harness/sup"
)

// node is a node of the tree the specification expects.
type node struct {
	N string
	P int
	C []capture
}

type capture struct {
	F, K, T string
	S       string
	D       *node
}

func (c *capture) UnmarshalJSON(b []byte) error {
	var raw struct {
		F, K, T string
		V       json.RawMessage
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	c.F, c.K, c.T = raw.F, raw.K, raw.T
	if raw.K == "n" {
		c.D = &node{}
		return json.Unmarshal(raw.V, c.D)
	}
	var s string
	if err := json.Unmarshal(raw.V, &s); err != nil {
		return err
	}
	c.S = symbols(s)
	return nil
}

// document is one line of the specification.
type document struct {
	Text  []string
	Text2 []string
	OK    bool
	Mid   bool
	At    [][3]int
	Tree  *node
	JSON  any `json:"json"`
	Tape  []string
	Nums  []number
	// of a text that is no document
	Lexed    bool
	From, To int
	Bad      [][2]string
}

// number is a literal and what it denotes.
type number struct {
	lit             string
	base            int
	int, frac, exp_ string
}

func (n *number) UnmarshalJSON(b []byte) error {
	var m struct {
		Base           int
		Int, Frac, Exp string
	}
	if err := json.Unmarshal(b, &[]any{&n.lit, &m}); err != nil {
		return err
	}
	n.base, n.int, n.frac, n.exp_ = m.Base, m.Int, m.Frac, m.Exp
	return nil
}

// value is what the number denotes, unless its exponent is huge.
func (n *number) value() (r *big.Rat, isInt bool) {
	plain := func(s string) string { return strings.ReplaceAll(s, "_", "") }
	frac, exp := plain(n.frac), 0
	isInt = frac == "" && n.exp_ == "" && !strings.Contains(n.lit, ".")
	if e := plain(n.exp_); e != "" {
		var err error
		if exp, err = strconv.Atoi(e); err != nil {
			return nil, false
		}
	}
	if exp > 5000 || exp < -5000 {
		return nil, false
	}
	i, ok := new(big.Int).SetString("0"+plain(n.int)+frac, n.base)
	if !ok {
		panic("not a number: " + n.lit)
	}
	exp -= len(frac)
	r = new(big.Rat).SetInt(i)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil))
	if exp < 0 {
		return r.Quo(r, p), isInt
	}
	return r.Mul(r, p), isInt
}

var symbol = regexp.MustCompile(`<([UX])\+([0-9A-F]+)>`)

// symbols turns the symbols of the specification into text.
func symbols(s string) string {
	if !strings.Contains(s, "+") {
		return s
	}
	return symbol.ReplaceAllStringFunc(s, func(m string) string {
		g := symbol.FindStringSubmatch(m)
		n, err := strconv.ParseUint(g[2], 16, 32)
		if err != nil {
			panic(err)
		}
		if g[1] == "X" {
			return string([]byte{byte(n)})
		}
		return string(rune(n))
	})
}

func textOf(s []string) string {
	var sb strings.Builder
	for _, c := range s {
		sb.WriteString(symbols(c))
	}
	return sb.String()
}

// symbolsOf is the inverse of textOf.
func symbolsOf(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		r, w := decode(s[i:])
		switch {
		case r < 0:
			out = append(out, fmt.Sprintf("<X+%02X>", s[i]))
		case r < 0x80 && r != 0:
			out = append(out, s[i:i+1])
		default:
			out = append(out, fmt.Sprintf("<U+%04X>", r))
		}
		i += w
	}
	return out
}

func decode(s string) (rune, int) {
	for _, r := range s {
		if r == 0xFFFD && !strings.HasPrefix(s, "\uFFFD") {
			return -1, 1
		}
		return r, len(string(r))
	}
	return -1, 1
}

// chain maps the kinds that stand aside to the field that takes their place.
var chain = map[string]string{
	"Expr": "Left", "ExprConditional": "Condition", "ExprLogicalOr": "Left", "ExprLogicalAnd": "Left",
	"ExprBitwiseOr": "Left", "ExprBitwiseXor": "Left", "ExprBitwiseAnd": "Left", "ExprEquality": "Left",
	"ExprRelational": "Left", "ExprShift": "Left", "ExprAdditive": "Left", "ExprMultiplicative": "Left",
	"ExprUnary": "Right", "ExprPostfix": "Value",
}

var nodeType = reflect.TypeOf(etx.ASTNode{})

// comparison of the expected and the real tree.
type comparison struct {
	res    *sup.Result
	nums   map[string]*number
	at     [][3]int
	text   string
	broken bool // the structure differs
	ast    *etx.AST
	inText int // depth of strings and heredocs
	pairs  []pair
}

// pair is a node of the specification and the real one.
type pair struct {
	exp  *node
	real reflect.Value // addressable struct
}

func kindArea(kind, field string) string {
	switch {
	case field == "EmptyLine" || kind == "Comment" || field == "Comment":
		return "comment"
	case field == "Number":
		return "number"
	case kind == "ValueString" || kind == "StringFragment" || kind == "Heredoc" || kind == "HeredocFragment":
		return "string"
	case strings.HasPrefix(kind, "Expr"):
		return "expr"
	}
	return "doc"
}

func (c *comparison) bad(kind, field, format string, a ...any) {
	area := kindArea(kind, field)
	if area != "number" {
		c.broken = true
	}
	msg := fmt.Sprintf("%s.%s: ", kind, field) + fmt.Sprintf(format, a...) + " in " + strconv.Quote(c.text)
	c.res.Add(area, "%s", msg)
	if c.inText > 0 && area != "string" {
		c.res.Add("string", "%s", msg)
	}
}

func (c *comparison) pos(e *node, v reflect.Value) {
	f := v.FieldByName("Pos")
	if !f.IsValid() {
		return
	}
	p := f.Interface().(etx.Position)
	w := c.at[e.P-1]
	if p.Offset != w[0] || p.Line != w[1] || p.Column != w[2] {
		c.res.Add("pos", "%s at offset %d line %d column %d, should be %d, %d, %d in %q",
			v.Type().Name(), p.Offset, p.Line, p.Column, w[0], w[1], w[2], c.text)
	}
}

// itemArea tells what an item of a list is about.
func itemField(kind string, e *node) string {
	if e != nil && len(e.C) == 1 && (e.C[0].F == "EmptyLine" || e.C[0].F == "Comment") {
		return e.C[0].F
	}
	return "Items"
}

func realItemField(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "Items"
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return "Items"
	}
	if f := v.FieldByName("EmptyLine"); f.IsValid() && f.String() != "" {
		return "EmptyLine"
	}
	if f := v.FieldByName("Comment"); f.IsValid() && !f.IsNil() {
		return "Comment"
	}
	return "Items"
}

// node compares the struct v with e.
func (c *comparison) node(e *node, v reflect.Value) {
	kind := v.Type().Name()
	if kind != e.N {
		f, ok := chain[kind]
		if !ok {
			c.bad(kind, "", "a %s is expected", e.N)
			return
		}
		c.pos(e, v)
		c.pairs = append(c.pairs, pair{e, v})
		for i := 0; i < v.NumField(); i++ {
			t := v.Type().Field(i)
			if t.Name != f && t.Type != nodeType && !v.Field(i).IsZero() {
				c.bad(kind, t.Name, "should not be set: %s is expected", describe(e))
				return
			}
		}
		n := v.FieldByName(f)
		if n.Kind() == reflect.Pointer {
			if n.IsNil() {
				c.bad(kind, f, "should be %s", describe(e))
				return
			}
			n = n.Elem()
		}
		c.node(e, n)
		return
	}
	c.pos(e, v)
	c.pairs = append(c.pairs, pair{e, v})
	if kindArea(kind, "") == "string" {
		c.inText++
		defer func() { c.inText-- }()
	}
	used := 0
	for i := 0; i < v.NumField(); i++ {
		t := v.Type().Field(i)
		if t.Type == nodeType {
			continue
		}
		caps := e.field(t.Name)
		used += len(caps)
		c.field(kind, t.Name, caps, v.Field(i))
	}
	if used != len(e.C) {
		c.bad(kind, "", "holds %d of %d parts of %s", used, len(e.C), describe(e))
	}
}

func (e *node) field(name string) (out []capture) {
	for _, x := range e.C {
		if x.F == name {
			out = append(out, x)
		}
	}
	return out
}

func describe(e *node) string {
	b, _ := json.Marshal(e)
	s := string(b)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (c *comparison) field(kind, name string, caps []capture, v reflect.Value) {
	texts := func() (out []string) {
		for _, x := range caps {
			out = append(out, x.S)
		}
		return out
	}
	switch x := v.Interface().(type) {
	case string:
		if w := strings.Join(texts(), ""); w != x {
			c.bad(kind, name, "is %q, should be %q", x, w)
		}
		return
	case bool:
		if x != (len(caps) > 0) {
			c.bad(kind, name, "is %v, should be %v", x, len(caps) > 0)
		}
		return
	case []string:
		if w := texts(); strings.Join(w, "\x01") != strings.Join(x, "\x01") || len(w) != len(x) {
			c.bad(kind, name, "is %q, should be %q", x, w)
		}
		return
	case *etx.ValueBool:
		if (x != nil) != (len(caps) > 0) || x != nil && x.Value != (caps[0].S == "true") {
			c.bad(kind, name, "is %v, should be %v", x, texts())
		}
		return
	case *etx.ValueNumber:
		if (x != nil) != (len(caps) > 0) {
			c.bad(kind, name, "is %v, should be %v", x, texts())
			return
		}
		if x != nil {
			if msg := checkNumber(c.nums[caps[0].S], x); msg != "" {
				c.bad(kind, name, "%s", msg)
			}
		}
		return
	case etx.HeredocDelimiter:
		w := caps[0].S // << maybe - word line end
		word := strings.TrimSuffix(strings.TrimPrefix(w, "<<"), "\n")
		dash := strings.HasPrefix(word, "-")
		if x.Delimiter != strings.TrimPrefix(word, "-") || x.LeadingTabs != dash {
			c.bad(kind, name, "is %+v, should be %q", x, w)
		}
		return
	}
	switch v.Kind() {
	case reflect.Slice:
		n := v.Len()
		for i := 0; i < n || i < len(caps); i++ {
			if i >= n {
				c.bad(kind, itemField(kind, caps[i].D), "%s has %d elements, should have %d: %s is missing", name, n, len(caps), describe(caps[i].D))
				return
			}
			if i >= len(caps) {
				c.bad(kind, realItemField(v.Index(i)), "%s has %d elements, should have %d", name, n, len(caps))
				return
			}
			w, r := itemField(kind, caps[i].D), realItemField(v.Index(i))
			if w != r {
				if w == "Items" {
					w = r
				}
				c.bad(kind, w, "element %d of %s should be %s", i, name, describe(caps[i].D))
				return
			}
			if v.Index(i).IsNil() {
				c.bad(kind, name, "element %d is nil", i)
				return
			}
			c.node(caps[i].D, v.Index(i).Elem())
		}
	case reflect.Pointer:
		switch {
		case len(caps) == 0:
			if !v.IsNil() {
				c.bad(kind, name, "should not be set")
			}
		case v.IsNil():
			c.bad(kind, name, "should be %s", describe(caps[0].D))
		default:
			c.node(caps[0].D, v.Elem())
		}
	case reflect.Struct:
		if len(caps) == 0 {
			if !v.IsZero() && !onlyParent(v) {
				c.bad(kind, name, "should not be set")
			}
			return
		}
		c.node(caps[0].D, v)
	default:
		c.bad(kind, name, "unknown field type %s", v.Type())
	}
}

// onlyParent tells whether nothing but the parent link is set.
func onlyParent(v reflect.Value) bool {
	w := reflect.New(v.Type()).Elem()
	w.Set(v)
	if f := w.FieldByName("Parent"); f.IsValid() {
		f.SetZero()
	}
	return w.IsZero()
}

// exact is the value a literal denotes, by the rules of the specification:
// digits of its base, separated by _.
func exact(lit string) (*big.Rat, bool) {
	s := strings.ReplaceAll(strings.ToLower(lit), "_", "")
	base, digits := 10, s
	switch {
	case strings.HasPrefix(s, "0x"):
		base, digits = 16, s[2:]
	case strings.HasPrefix(s, "0b"):
		base, digits = 2, s[2:]
	case strings.HasPrefix(s, "0o"):
		base, digits = 8, s[2:]
	case len(s) > 1 && s[0] == '0' && !strings.ContainsAny(s, ".e"):
		base, digits = 8, s[1:]
	}
	isInt := base != 10 || !strings.ContainsAny(s, ".e")
	if isInt {
		i, ok := new(big.Int).SetString(digits, base)
		if !ok {
			panic("not a number: " + lit)
		}
		return new(big.Rat).SetInt(i), true
	}
	exp := 0
	if k := strings.IndexByte(digits, 'e'); k >= 0 {
		var err error
		if exp, err = strconv.Atoi(digits[k+1:]); err != nil {
			panic("not a number: " + lit)
		}
		digits = digits[:k]
	}
	if k := strings.IndexByte(digits, '.'); k >= 0 {
		exp -= len(digits) - k - 1
		digits = digits[:k] + digits[k+1:]
	}
	m, ok := new(big.Int).SetString(digits, 10)
	if !ok {
		panic("not a number: " + lit)
	}
	r := new(big.Rat).SetInt(m)
	if exp > 5000 || exp < -5000 {
		return nil, false
	}
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil))
	if exp < 0 {
		r.Quo(r, p)
	} else {
		r.Mul(r, p)
	}
	return r, false
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// equals tells whether f is the value of n, exactly for integer literals
// and to 52 bits for the others.
func equals(n *number, f *big.Float) string {
	r, isInt := n.value()
	if f == nil {
		return fmt.Sprintf("literal %s has no value", n.lit)
	}
	if r == nil {
		return ""
	}
	if f.IsInf() {
		return fmt.Sprintf("literal %s is infinite", n.lit)
	}
	g, _ := f.Rat(nil)
	d := new(big.Rat).Sub(g, r)
	d.Abs(d)
	if isInt || r.Sign() == 0 {
		if d.Sign() != 0 {
			return fmt.Sprintf("literal %s has the value %s", n.lit, f.Text('g', -1))
		}
		return ""
	}
	d.Quo(d, new(big.Rat).Abs(r))
	if d.Cmp(new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 52))) > 0 {
		return fmt.Sprintf("literal %s has the value %s", n.lit, f.Text('g', -1))
	}
	return ""
}

// literal matches what exact can read.
var literal = regexp.MustCompile(`^(0[xX][0-9a-fA-F_]*[0-9a-fA-F]|0[bB][01_]*[01]|0[oO][0-7_]*[0-7]|[0-9_]*\.?[0-9_]*[0-9]([eE][-+]?[0-9_]*[0-9])?)$`)

func checkNumber(n *number, v *etx.ValueNumber) string {
	if msg := equals(n, v.Value); msg != "" {
		return msg
	}
	// The literal is kept, so that it prints as an equal number.
	a, ai := n.value()
	for _, s := range []string{v.Source, v.FormattedString()} {
		if !literal.MatchString(s) {
			return fmt.Sprintf("literal %s is kept or printed as %q", n.lit, s)
		}
		b, bi := exact(s)
		if (a == nil) != (b == nil) || a != nil && (ai != bi || a.Cmp(b) != 0) {
			return fmt.Sprintf("literal %s is kept or printed as %q", n.lit, s)
		}
	}
	return ""
}
