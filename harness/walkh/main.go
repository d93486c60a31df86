// Command walkh runs scripts generated by TLC from Walker.tla against the real
// walkers, inside a synctest bubble: a goroutine that never ends, a blocked
// stop request and a panic of the walking goroutine all end the child process
// and are reported for the script that caused them. What the caller observed
// is recorded for validation against WalkerTrace.tla.
package main

import (
	"encoding/json"
	"os"
	"runtime"
	"sort"
	"strconv"
	"testing"
	"testing/synctest"

	"verif.local/harness/sup"

	"github.com/hexbee-net/etxe/pkg/dag"
)

type behaviour struct {
	Shape  []int    `json:"shape"`
	Script []string `json:"script"`
}

type event struct {
	Op string `json:"op"`
	V  int    `json:"v"`
}

type record struct {
	Shape  []int   `json:"shape"`
	Events []event `json:"events"`
}

// graph builds a graph whose breadth-first layers from vertex 0 have the given
// sizes, with every edge between consecutive layers. up reverses the edges.
func graph(shape []int, up bool) (*dag.AcyclicGraph[string, int], int) {
	g := dag.NewAcyclicGraph[string, int]()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(g.AddVertex("v0", 0))
	prev := []string{"v0"}
	n := 0
	for _, size := range shape {
		var cur []string
		for i := 0; i < size; i++ {
			n++
			id := "v" + strconv.Itoa(n)
			must(g.AddVertex(id, n))
			for _, p := range prev {
				if up {
					must(g.AddEdge(id, p))
				} else {
					must(g.AddEdge(p, id))
				}
			}
			cur = append(cur, id)
		}
		prev = cur
	}
	return g, n
}

// run: the value of a stop request means nothing.
func run(t *testing.T, b *behaviour, up, value bool, r *sup.Result) {
	rec := record{Shape: b.Shape, Events: []event{}}
	g, n := graph(b.Shape, up)
	if rec.Shape == nil {
		rec.Shape = []int{}
	}
	synctest.Test(t, func(t *testing.T) {
		walk := g.DescendantsWalker
		if up {
			walk = g.AncestorsWalker
		}
		ids, signal, err := walk("v0")
		if err != nil {
			r.Add("ordered", "the walk does not start: %v", err)
			return
		}
		num := func(k string, ok bool) int {
			if !ok {
				return 0
			}
			v, err := strconv.Atoi(k[1:])
			if err != nil || v < 1 || v > n {
				r.Add("ordered", "received %q", k)
				return -1
			}
			return v
		}
		stopped, closed := false, false
		for _, op := range b.Script {
			e := event{Op: op}
			switch op {
			case "R":
				k, ok := <-ids
				e.V = num(k, ok)
				closed = closed || !ok
			case "S":
				signal <- value
				stopped = true
			case "C":
				close(signal)
				stopped = true
			case "W":
				synctest.Wait()
			case "A":
				f := g.GetOrderedDescendants
				if up {
					f = g.GetOrderedAncestors
				}
				l, err := f("v0")
				if err != nil || len(l) != n {
					r.Add("ordered", "a query during the walk gives %v, %v", l, err)
				}
				_, _ = g.GetVertex("v0")
				if v := g.GetVertices(); len(v) != n+1 {
					r.Add("ordered", "a query during the walk gives %v", v)
				}
			}
			rec.Events = append(rec.Events, e)
		}
		for !stopped && !closed && len(rec.Events) < 100 {
			k, ok := <-ids
			closed = !ok
			rec.Events = append(rec.Events, event{"R", num(k, ok)})
		}
	})
	// The bubble has ended, so the walking goroutine has, too.
	order := []event{}
	for _, e := range rec.Events {
		if e.V < 0 {
			return
		}
		order = append(order, e)
	}
	x, _ := json.Marshal(record{rec.Shape, order})
	r.Record(string(x))
	r.Count("walks", 1)
}

func handler(t *testing.T, reps int) sup.Handler {
	return func(n int, text []byte) (r sup.Result) {
		var b behaviour
		if err := json.Unmarshal(text, &b); err != nil {
			r.Error = err.Error()
			return
		}
		for i := 0; i < reps; i++ {
			runtime.GOMAXPROCS(1 + (n+i)%4)
			run(t, &b, (n+i)%2 == 0, (n/4+i/2)%2 == 0, &r)
		}
		sort.Strings(b.Script)
		for _, op := range b.Script {
			r.Count("op "+op, reps)
		}
		return
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		reps, _ := strconv.Atoi(os.Args[len(os.Args)-1])
		os.Args = os.Args[:1]
		testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{
			Name: "Walk",
			F:    func(t *testing.T) { sup.Child(handler(t, reps)) },
		}}, nil, nil)
		return
	}
	sup.Main(map[string]func([]string) sup.Handler{
		"replay": func(args []string) sup.Handler { return nil },
	}, nil)
}
