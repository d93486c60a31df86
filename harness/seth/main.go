// Command seth replays behaviours of SetAlg.tla on dag.Set.
package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"verif.local/harness/sup"

	"github.com/hexbee-net/etxe/pkg/dag"
)

type op struct {
	Op  string  `json:"op"`
	T   int     `json:"t"`
	A   int     `json:"a"`
	B   int     `json:"b"`
	X   []int   `json:"x"`
	Res []int   `json:"res"`
	Val [][]int `json:"val"`
}

func sorted(s []int) []int {
	o := append([]int{}, s...)
	sort.Ints(o)
	return o
}

func eq(a, b []int) bool { return fmt.Sprint(sorted(a)) == fmt.Sprint(sorted(b)) }

func isNil(s []int) bool { return len(s) == 1 && s[0] == 0 }

func replay[K comparable](kind string, h []op, of func(int) K, r *sup.Result) {
	back := map[K]int{}
	for i := 0; i < 100; i++ {
		back[of(i)] = i
	}
	ints := func(ks []K) []int {
		out := []int{}
		for _, k := range ks {
			i, ok := back[k]
			if !ok {
				i = -1
			}
			out = append(out, i)
		}
		return out
	}
	if len(h) == 0 {
		return
	}
	s := make([]dag.Set[K], len(h[0].Val))
	most := 10
	for _, o := range h {
		for _, e := range o.X {
			most = max(most, e+2)
		}
	}
	bad := func(i int, f string, a ...any) {
		r.Add("set", "[%s] step %d %s: %s", kind, i, h[i].Op, fmt.Sprintf(f, a...))
	}
	for i, o := range h {
		t, a, b := o.T-1, o.A-1, o.B-1
		x := of(0)
		if len(o.X) > 0 {
			x = of(o.X[0])
		}
		switch o.Op {
		case "New":
			s[t] = make(dag.Set[K])
		case "Fill":
			s[t] = make(dag.Set[K])
			for _, e := range o.X {
				s[t].Add(of(e))
			}
		case "Nil":
			s[t] = nil
		case "Add":
			s[t].Add(x)
		case "Delete":
			s[t].Delete(x)
		case "Intersection":
			s[t] = s[a].Intersection(s[b])
		case "Difference":
			s[t] = s[a].Difference(s[b])
		case "Filter":
			s[t] = s[a].Filter(func(k K) bool {
				for _, p := range o.X {
					if of(p) == k {
						return true
					}
				}
				return false
			})
		case "Copy":
			s[t] = s[a].Copy()
		case "List":
			l := s[a].List()
			if !eq(ints(l), o.Res) {
				bad(i, "List = %v, want %v", ints(l), o.Res)
			}
			for j := range l {
				l[j] = of(99)
			}
		case "Includes":
			if got := s[a].Includes(x); got != (len(o.Res) == 1) {
				bad(i, "Includes(%v) = %v", x, got)
			}
		}
		for j, want := range o.Val {
			if isNil(want) {
				want = nil
				if s[j] != nil {
					bad(i, "handle %d is not nil", j+1)
				}
			} else if s[j] == nil {
				bad(i, "handle %d is nil", j+1)
			}
			if len(s[j]) != len(want) {
				bad(i, "handle %d has %d elements, want %v", j+1, len(s[j]), want)
			}
			for k := 0; k < most; k++ {
				in := false
				for _, w := range want {
					in = in || w == k
				}
				if s[j].Includes(of(k)) != in {
					bad(i, "handle %d: Includes(%d) = %v", j+1, k, !in)
				}
			}
			if l := s[j].List(); !eq(ints(l), want) {
				bad(i, "handle %d: List = %v, want %v", j+1, ints(l), want)
			}
		}
		if len(r.Mismatches) > 0 {
			return
		}
	}
}

type key struct {
	A string
	B int
}

func handle(n int, text []byte) (r sup.Result) {
	var b struct {
		H []op `json:"h"`
	}
	if err := json.Unmarshal(text, &b); err != nil {
		r.Error = err.Error()
		return
	}
	replay("int", b.H, func(i int) int { return i }, &r)
	switch n % 3 {
	case 0:
		replay("string", b.H, func(i int) string { return string(rune('a'+i-1)) + "" }, &r)
	case 1:
		replay("struct", b.H, func(i int) key { return key{"k", i} }, &r)
	case 2:
		replay("any", b.H, func(i int) any {
			if i%2 == 0 {
				return i
			}
			return fmt.Sprint(i)
		}, &r)
	}
	for _, o := range b.H {
		r.Count("op "+o.Op, 1)
	}
	return
}

func main() {
	sup.Main(map[string]func([]string) sup.Handler{"replay": func([]string) sup.Handler { return handle }}, nil)
}
