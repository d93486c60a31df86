// Command dagh drives the real graph of pkg/dag (public API only).
//
//	dagh replay FILE     replay behaviours generated by TLC from DagImpl
//	dagh record SEED N OPS IDS   record random histories as a JSON trace
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif.local/harness/sup"

	"github.com/hexbee-net/etxe/pkg/dag"
)

var errByName = map[string]error{
	"ErrVertexIDEmpty":             dag.ErrVertexIDEmpty,
	"ErrVertexDuplicate":           dag.ErrVertexDuplicate,
	"ErrVertexNotFound":            dag.ErrVertexNotFound,
	"ErrEdgeSourceIDEmpty":         dag.ErrEdgeSourceIDEmpty,
	"ErrEdgeTargetIDEmpty":         dag.ErrEdgeTargetIDEmpty,
	"ErrEdgeSourceIDNotFound":      dag.ErrEdgeSourceIDNotFound,
	"ErrEdgeTargetIDNotFound":      dag.ErrEdgeTargetIDNotFound,
	"ErrEdgeSourceTargetIdentical": dag.ErrEdgeSourceTargetIdentical,
	"ErrEdgeDuplicate":             dag.ErrEdgeDuplicate,
	"ErrEdgeNotFound":              dag.ErrEdgeNotFound,
	"ErrEdgeLoop":                  dag.ErrEdgeLoop,
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	for n, e := range errByName {
		if errors.Is(err, e) {
			return n
		}
	}
	return "other: " + err.Error()
}

type op struct {
	Op   string   `json:"op"`
	A    int      `json:"a"`
	B    int      `json:"b"`
	Errs []string `json:"errs"`
	Set  []int    `json:"set"`
}

type obs struct {
	Verts []int     `json:"verts"`
	Vals  []int     `json:"vals"`
	Edges [][2]int  `json:"edges"`
	Anc   [][]int   `json:"anc"`
	Desc  [][]int   `json:"desc"`
	Up    [][][]int `json:"up"`
	Down  [][][]int `json:"down"`
}

type behaviour struct {
	H   []op `json:"h"`
	Obs obs  `json:"obs"`
}

// Areas: mutation closure views snapshot ordered panic reduce.
type mismatch = sup.Mismatch

// ids maps model ids to keys of one key type; id 0 is the zero value.
type ids[K comparable] struct {
	kind string
	of   func(int) K
	back map[K]int
}

func mkIDs[K comparable](kind string, n int, of func(int) K) ids[K] {
	x := ids[K]{kind: kind, of: of, back: map[K]int{}}
	for i := 0; i <= n; i++ {
		x.back[of(i)] = i
	}
	return x
}

// values maps the values of the model to those of one value type.
type values[T any] struct {
	kind string
	of   func(int) T
	same func(T, int) bool // is it the value of the model
	junk T
}

func plain[T comparable](kind string, junk T, of func(int) T) values[T] {
	return values[T]{kind, of, func(v T, i int) bool { return v == of(i) }, junk}
}

var ints = plain("int", 987654, func(i int) int { return i })

type skey struct {
	A int
	B string
}

func keysOf[K comparable, V any](x ids[K], m map[K]V) []int {
	out := []int{}
	for k := range m {
		i, ok := x.back[k]
		if !ok {
			i = -1
		}
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func sorted(s []int) []int {
	o := append([]int{}, s...)
	sort.Ints(o)
	return o
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func errOK(err error, want []string) bool {
	if err == nil {
		return len(want) == 0
	}
	for _, w := range want {
		if errors.Is(err, errByName[w]) {
			return true
		}
	}
	return false
}

// step performs one operation and returns its error and resulting set.
func step[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], y values[T], o op) (error, []int, map[int]T) {
	setOf := func(m map[K]T, err error) (error, []int, map[int]T) {
		vals := map[int]T{}
		for k, v := range m {
			if i, ok := x.back[k]; ok {
				vals[i] = v
			}
		}
		return err, keysOf(x, m), vals
	}
	switch o.Op {
	case "AddVertex":
		return g.AddVertex(x.of(o.A), y.of(o.B)), nil, nil
	case "DeleteVertex":
		return g.DeleteVertex(x.of(o.A)), nil, nil
	case "AddEdge":
		return g.AddEdge(x.of(o.A), x.of(o.B)), nil, nil
	case "DeleteEdge":
		return g.DeleteEdge(x.of(o.A), x.of(o.B)), nil, nil
	case "IsEdge":
		ok, err := g.IsEdge(x.of(o.A), x.of(o.B))
		if ok {
			return err, []int{o.B}, nil
		}
		return err, nil, nil
	case "GetAncestors":
		m, err := g.GetAncestors(x.of(o.A))
		return setOf(m, err)
	case "GetDescendants":
		m, err := g.GetDescendants(x.of(o.A))
		return setOf(m, err)
	case "ReduceTransitively":
		g.ReduceTransitively()
		return nil, nil, nil
	}
	panic("unknown op " + o.Op)
}

func has(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func hasEdge(es [][2]int, s, t int) bool {
	for _, e := range es {
		if e[0] == s && e[1] == t {
			return true
		}
	}
	return false
}

// checkState compares every view of the graph with the specification.
func checkState[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], y values[T], want *obs, n int, rep func(area, f string, a ...any)) {
	val := func(i int) int { return want.Vals[i-1] }
	checkMap := func(area, what string, m map[K]T, ids []int) {
		if got := keysOf(x, m); !eq(got, sorted(ids)) {
			rep(area, "%s = %v, want %v", what, got, sorted(ids))
			return
		}
		for k, v := range m {
			if i := x.back[k]; !y.same(v, val(i)) {
				rep(area, "%s: value of %d is %v, want %v", what, i, v, y.of(val(i)))
			}
		}
	}
	if got := g.GetOrder(); got != len(want.Verts) {
		rep("views", "GetOrder = %d, want %d", got, len(want.Verts))
	}
	if got := g.GetSize(); got != len(want.Edges) {
		rep("views", "GetSize = %d, want %d", got, len(want.Edges))
	}
	checkMap("views", "GetVertices", g.GetVertices(), want.Verts)
	roots, leaves := []int{}, []int{}
	for _, v := range want.Verts {
		p, c := []int{}, []int{}
		for _, e := range want.Edges {
			if e[1] == v {
				p = append(p, e[0])
			}
			if e[0] == v {
				c = append(c, e[1])
			}
		}
		if len(p) == 0 {
			roots = append(roots, v)
		}
		if len(c) == 0 {
			leaves = append(leaves, v)
		}
		m, err := g.GetParents(x.of(v))
		if err != nil {
			rep("views", "GetParents(%d): %v", v, err)
		}
		checkMap("views", fmt.Sprintf("GetParents(%d)", v), m, p)
		m, err = g.GetChildren(x.of(v))
		if err != nil {
			rep("views", "GetChildren(%d): %v", v, err)
		}
		checkMap("views", fmt.Sprintf("GetChildren(%d)", v), m, c)
	}
	checkMap("views", "GetRoots", g.GetRoots(), roots)
	checkMap("views", "GetLeaves", g.GetLeaves(), leaves)
	for v := 0; v <= n; v++ {
		var e string
		switch {
		case v == 0:
			e = "ErrVertexIDEmpty"
		case !has(want.Verts, v):
			e = "ErrVertexNotFound"
		}
		got, err := g.GetVertex(x.of(v))
		if errName(err) != e {
			rep("views", "GetVertex(%d): error %q, want %q", v, errName(err), e)
		} else if e == "" {
			t, ok := got.(T)
			if !ok && got != nil || !y.same(t, val(v)) { // a nil of an interface type is no T
				rep("views", "GetVertex(%d) = %v, want %v", v, got, y.of(val(v)))
			}
		} else if got != nil {
			rep("views", "GetVertex(%d) = %v with error %q", v, got, e)
		}
		if e == "" {
			continue
		}
		chk := func(area, what string, err error, empty bool) {
			if errName(err) != e || !empty {
				rep(area, "%s(%d): error %q (empty result %v), want error %q", what, v, errName(err), empty, e)
			}
		}
		m, err := g.GetParents(x.of(v))
		chk("views", "GetParents", err, len(m) == 0)
		m, err = g.GetChildren(x.of(v))
		chk("views", "GetChildren", err, len(m) == 0)
		m, err = g.GetAncestors(x.of(v))
		chk("closure", "GetAncestors", err, len(m) == 0)
		m, err = g.GetDescendants(x.of(v))
		chk("closure", "GetDescendants", err, len(m) == 0)
		l, err := g.GetOrderedAncestors(x.of(v))
		chk("ordered", "GetOrderedAncestors", err, len(l) == 0)
		l, err = g.GetOrderedDescendants(x.of(v))
		chk("ordered", "GetOrderedDescendants", err, len(l) == 0)
		c1, c2, err := g.AncestorsWalker(x.of(v))
		chk("ordered", "AncestorsWalker", err, c1 == nil && c2 == nil)
		c1, c2, err = g.DescendantsWalker(x.of(v))
		chk("ordered", "DescendantsWalker", err, c1 == nil && c2 == nil)
	}
	for s := 1; s <= n; s++ {
		for t := 1; t <= n; t++ {
			ok, err := g.IsEdge(x.of(s), x.of(t))
			w := hasEdge(want.Edges, s, t)
			valid := s != t && has(want.Verts, s) && has(want.Verts, t)
			if ok != w || (err == nil) != valid {
				rep("views", "IsEdge(%d,%d) = %v, %v, want %v", s, t, ok, err, w)
			}
		}
	}
	checkString(g, x, want, rep)
}

// checkString: the dump names every vertex and every edge exactly once.
func checkString[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], want *obs, rep func(area, f string, a ...any)) {
	s := g.String()
	got := map[string]int{}
	for _, l := range strings.Split(s, "\n") {
		got[strings.TrimSpace(l)]++
	}
	lines := 0
	for _, v := range want.Verts {
		k := fmt.Sprintf("%v", x.of(v))
		if got[k] != 1 {
			rep("views", "String does not list vertex %d once:\n%s", v, s)
			return
		}
		lines++
	}
	for _, e := range want.Edges {
		k := fmt.Sprintf("%v -> %v", x.of(e[0]), x.of(e[1]))
		if got[k] != 1 {
			rep("views", "String does not list edge %v once:\n%s", e, s)
			return
		}
		lines++
	}
	total := 0
	for k, c := range got {
		if k != "" && !strings.HasSuffix(k, ":") && !dumpHead.MatchString(k) {
			total += c
		}
	}
	if total != lines {
		rep("views", "String has %d lines of vertices and edges, want %d:\n%s", total, lines, s)
	}
	for k := range got {
		if m := dumpHead.FindStringSubmatch(k); m != nil && (m[1] != strconv.Itoa(len(want.Verts)) || m[2] != strconv.Itoa(len(want.Edges))) {
			rep("views", "String counts %s vertices and %s edges, want %d and %d", m[1], m[2], len(want.Verts), len(want.Edges))
		}
	}
}

var dumpHead = regexp.MustCompile(`Vertices: *(\d+).*Edges: *(\d+)`)

func checkClosures[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], y values[T], want *obs, order []int, rep func(area, f string, a ...any)) {
	chk := func(what string, v int, m map[K]T, err error, ids []int) {
		if err != nil {
			rep("closure", "%s(%d): %v", what, v, err)
			return
		}
		if got := keysOf(x, m); !eq(got, sorted(ids)) {
			rep("closure", "%s(%d) = %v, want %v", what, v, got, sorted(ids))
			return
		}
		for k, val := range m {
			if i := x.back[k]; !y.same(val, want.Vals[i-1]) {
				rep("closure", "%s(%d): value of %d is %v, want %v", what, v, i, val, y.of(want.Vals[i-1]))
			}
		}
	}
	for _, v := range order {
		if !has(want.Verts, v) {
			continue
		}
		m, err := g.GetAncestors(x.of(v))
		chk("GetAncestors", v, m, err, want.Anc[v-1])
		m, err = g.GetDescendants(x.of(v))
		chk("GetDescendants", v, m, err, want.Desc[v-1])
	}
}

func layersOK(seq []int, layers [][]int) bool {
	i := 0
	for _, l := range layers {
		if len(seq) < i+len(l) || !eq(sorted(seq[i:i+len(l)]), sorted(l)) {
			return false
		}
		i += len(l)
	}
	return i == len(seq)
}

func checkOrdered[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], want *obs, rep func(area, f string, a ...any)) {
	toInts := func(ks []K) []int {
		out := []int{}
		for _, k := range ks {
			i, ok := x.back[k]
			if !ok {
				i = -1
			}
			out = append(out, i)
		}
		return out
	}
	drain := func(c chan K, _ chan bool, err error) ([]K, error) {
		var out []K
		if err != nil {
			return nil, err
		}
		for k := range c {
			out = append(out, k)
			if len(out) > 1000 {
				break
			}
		}
		return out, nil
	}
	for _, v := range want.Verts {
		id := x.of(v)
		type f struct {
			name   string
			run    func() ([]K, error)
			layers [][]int
		}
		for _, c := range []f{
			{"GetOrderedAncestors", func() ([]K, error) { return g.GetOrderedAncestors(id) }, want.Up[v-1]},
			{"GetOrderedDescendants", func() ([]K, error) { return g.GetOrderedDescendants(id) }, want.Down[v-1]},
			{"AncestorsWalker", func() ([]K, error) { return drain(g.AncestorsWalker(id)) }, want.Up[v-1]},
			{"DescendantsWalker", func() ([]K, error) { return drain(g.DescendantsWalker(id)) }, want.Down[v-1]},
		} {
			l, err := c.run()
			if err != nil {
				rep("ordered", "%s(%d): %v", c.name, v, err)
			} else if !layersOK(toInts(l), c.layers) {
				rep("ordered", "%s(%d) = %v, want breadth-first layers %v", c.name, v, toInts(l), c.layers)
			}
		}
	}
}

// vandalise modifies every map the graph hands out.
func vandalise[K comparable, T any](g *dag.AcyclicGraph[K, T], x ids[K], y values[T], n int) {
	spoil := func(m map[K]T) {
		if m == nil {
			return
		}
		for k := range m {
			delete(m, k)
		}
		for i := 0; i <= n; i++ {
			m[x.of(i)] = y.junk
		}
	}
	spoil(g.GetVertices())
	spoil(g.GetRoots())
	spoil(g.GetLeaves())
	for i := 0; i <= n; i++ {
		m, _ := g.GetParents(x.of(i))
		spoil(m)
		m, _ = g.GetChildren(x.of(i))
		spoil(m)
		m, _ = g.GetAncestors(x.of(i))
		spoil(m)
		m, _ = g.GetDescendants(x.of(i))
		spoil(m)
		l, _ := g.GetOrderedAncestors(x.of(i))
		for j := range l {
			l[j] = x.of(0)
		}
		l, _ = g.GetOrderedDescendants(x.of(i))
		for j := range l {
			l[j] = x.of(0)
		}
	}
}

func replayWith[K comparable, T any](b *behaviour, x ids[K], y values[T], n int, salt int) (res []mismatch) {
	rep := func(area, f string, a ...any) {
		if len(res) < 8 {
			res = append(res, mismatch{Area: area, Msg: "[" + x.kind + " " + y.kind + "] " + fmt.Sprintf(f, a...)})
		}
	}
	defer func() {
		if r := recover(); r != nil {
			rep("panic", "panic: %v", r)
		}
	}()
	g := dag.NewAcyclicGraph[K, T]()
	vals := map[int]int{}
	for i, o := range b.H {
		err, set, m := step(g, x, y, o)
		area := "mutation"
		if strings.HasPrefix(o.Op, "Get") {
			area = "closure"
		} else if o.Op == "IsEdge" {
			area = "views"
		}
		if !errOK(err, o.Errs) {
			rep(area, "step %d %s(%d,%d): error %q, want one of %v", i, o.Op, o.A, o.B, errName(err), o.Errs)
			return
		}
		if o.Op == "AddVertex" && err == nil {
			vals[o.A] = o.B
		}
		if !eq(sorted(set), sorted(o.Set)) {
			rep(area, "step %d %s(%d,%d) = %v, want %v", i, o.Op, o.A, o.B, sorted(set), sorted(o.Set))
			return
		}
		for k, v := range m {
			if !y.same(v, vals[k]) {
				rep(area, "step %d %s(%d): value of %d is %v, want %v", i, o.Op, o.A, k, v, y.of(vals[k]))
			}
		}
	}
	checkState(g, x, y, &b.Obs, n, rep)
	order := rand.New(rand.NewSource(int64(salt))).Perm(n)
	for i := range order {
		order[i]++
	}
	checkClosures(g, x, y, &b.Obs, order, rep)
	checkOrdered(g, x, &b.Obs, rep)
	if len(res) > 0 {
		return
	}
	vandalise(g, x, y, n)
	snap := func(_, f string, a ...any) {
		rep("snapshot", "after the caller modified returned collections: "+f, a...)
	}
	checkState(g, x, y, &b.Obs, n, snap)
	checkClosures(g, x, y, &b.Obs, order, snap)
	checkOrdered(g, x, &b.Obs, snap)
	return
}

func replay(b *behaviour, line int) []mismatch {
	n := len(b.Obs.Vals)
	res := replayWith(b, mkIDs("string", n, func(i int) string {
		if i == 0 {
			return ""
		}
		return "v" + strconv.Itoa(i)
	}), ints, n, line)
	if len(res) > 0 {
		return res
	}
	switch line % 5 {
	case 0: // values equal to each other and to the zero value
		return replayWith(b, mkIDs("int", n, func(i int) int { return i }), plain("few", 7, func(i int) int { return i % 2 }), n, line)
	case 1: // values that cannot be compared, some of them nil
		return replayWith(b, mkIDs("struct", n, func(i int) skey {
			if i == 0 {
				return skey{}
			}
			return skey{i - 1, string(rune('a' + i))}
		}), values[[]int]{"slice", func(i int) []int {
			if i%3 == 0 {
				return nil
			}
			return []int{i}
		}, func(v []int, i int) bool {
			if i%3 == 0 {
				return v == nil
			}
			return len(v) == 1 && v[0] == i
		}, []int{1, 2}}, n, line)
	case 2: // values by reference, some of them nil
		at := map[int]*int{}
		return replayWith(b, mkIDs("array", n, func(i int) [2]byte { return [2]byte{byte(i & 1), byte(i >> 1)} }), plain("pointer", new(int), func(i int) *int {
			if i%2 == 0 {
				return nil
			}
			if at[i] == nil {
				at[i] = new(int)
			}
			return at[i]
		}), n, line)
	case 3: // ids by reference
		at := make([]*int, n+1)
		for i := 1; i <= n; i++ {
			at[i] = new(int)
		}
		return replayWith(b, mkIDs("pointer", n, func(i int) *int { return at[i] }), plain("string", "junk", func(i int) string {
			return strings.Repeat("x", i%3)
		}), n, line)
	default: // ids and values of several types
		return replayWith(b, mkIDs("any", n, func(i int) any {
			switch {
			case i == 0:
				return nil
			case i%2 == 0:
				return i
			}
			return strconv.Itoa(i)
		}), plain[any]("any", "junk", func(i int) any {
			switch i % 3 {
			case 0:
				return nil
			case 1:
				return i
			}
			return strconv.Itoa(i)
		}), n, line)
	}
}

func handle(n int, text []byte) (r sup.Result) {
	var b behaviour
	if err := json.Unmarshal(text, &b); err != nil {
		r.Error = "bad behaviour: " + err.Error()
		return
	}
	r.Mismatches = replay(&b, n)
	r.Count("steps", len(b.H))
	reduced := false
	for _, o := range b.H {
		k := "op " + o.Op
		if len(o.Errs) > 0 {
			k += " refused"
		}
		r.Count(k, 1)
		reduced = reduced || o.Op == "ReduceTransitively"
	}
	if len(r.Mismatches) > 0 && reduced {
		r.Add("reduce", "the history contains a transitive reduction")
	}
	return
}

// ---------------------------------------------------------------------------

type event map[string]any

func cmdRecord(seed int64, n, ops, nids int) {
	r := rand.New(rand.NewSource(seed))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	enc := json.NewEncoder(w)
	x := mkIDs("string", nids, func(i int) string {
		if i == 0 {
			return ""
		}
		return "v" + strconv.Itoa(i)
	})
	emit := func(e event) { enc.Encode(e) }
	nz := func(s []int) []int {
		if s == nil {
			return []int{}
		}
		return s
	}
	for h := 0; h < n; h++ {
		emit(event{"op": "New"})
		g := dag.NewAcyclicGraph[string, int]()
		if r.Intn(2) == 0 {
			for i := 1; i <= nids; i++ {
				err := g.AddVertex(x.of(i), i)
				emit(event{"op": "AddVertex", "a": i, "b": i, "err": errName(err), "set": []int{}})
			}
		}
		rank := r.Perm(nids + 1) // most edges follow one order, so graphs get dense
		for i := 0; i < ops; i++ {
			v, u := r.Intn(nids+1), r.Intn(nids+1)
			if r.Intn(4) > 0 && v != u && rank[v] > rank[u] {
				v, u = u, v
			}
			var o op
			switch k := r.Intn(24); {
			case k < 3:
				o = op{Op: "AddVertex", A: v, B: 10*i + 1}
			case k < 4:
				o = op{Op: "DeleteVertex", A: v}
			case k < 12:
				o = op{Op: "AddEdge", A: v, B: u}
			case k < 14:
				o = op{Op: "DeleteEdge", A: v, B: u}
			case k < 16:
				o = op{Op: "GetAncestors", A: v}
			case k < 18:
				o = op{Op: "GetDescendants", A: v}
			case k < 19:
				o = op{Op: "IsEdge", A: v, B: u}
			case k < 20:
				if r.Intn(4) > 0 {
					continue
				}
				o = op{Op: "ReduceTransitively"}
			case k < 22:
				name, f := "GetOrderedAncestors", g.GetOrderedAncestors
				if r.Intn(2) == 0 {
					name, f = "GetOrderedDescendants", g.GetOrderedDescendants
				}
				l, err := f(x.of(v))
				s := []int{}
				for _, k := range l {
					i, ok := x.back[k]
					if !ok {
						i = 99
					}
					s = append(s, i)
				}
				emit(event{"op": name, "a": v, "b": 0, "err": errName(err), "set": s})
				continue
			default:
				emit(views(g, x, nids))
				continue
			}
			err, set, _ := step(g, x, ints, o)
			emit(event{"op": o.Op, "a": o.A, "b": o.B, "err": errName(err), "set": nz(set)})
		}
		emit(views(g, x, nids))
	}
}

func views(g *dag.AcyclicGraph[string, int], x ids[string], n int) event {
	vs := [][2]int{}
	for k, v := range g.GetVertices() {
		vs = append(vs, [2]int{x.back[k], v})
	}
	isedge, ch, pa := [][2]int{}, [][2]int{}, [][2]int{}
	for s := 1; s <= n; s++ {
		for t := 1; t <= n; t++ {
			if ok, _ := g.IsEdge(x.of(s), x.of(t)); ok {
				isedge = append(isedge, [2]int{s, t})
			}
		}
		m, _ := g.GetChildren(x.of(s))
		for _, c := range keysOf(x, m) {
			ch = append(ch, [2]int{s, c})
		}
		m, _ = g.GetParents(x.of(s))
		for _, c := range keysOf(x, m) {
			pa = append(pa, [2]int{s, c})
		}
	}
	return event{"op": "Views", "order": g.GetOrder(), "size": g.GetSize(), "vertices": vs,
		"isedge": isedge, "children": ch, "parents": pa,
		"roots": keysOf(x, g.GetRoots()), "leaves": keysOf(x, g.GetLeaves())}
}

func main() {
	sup.Main(map[string]func([]string) sup.Handler{
		"replay": func([]string) sup.Handler { return handle },
	}, map[string]func([]string){
		"record": func(args []string) {
			a := make([]int, 4)
			for i := range a {
				a[i], _ = strconv.Atoi(args[i])
			}
			cmdRecord(int64(a[0]), a[1], a[2], a[3])
		},
	})
}
