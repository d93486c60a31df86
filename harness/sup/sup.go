// Package sup runs behaviours printed by TLC on the real code.
//
// The parent process reads TLC's output, hands every behaviour line to one of
// several child processes and adds up what they answer, so that a crash, a
// dead lock or an endless loop of the code under test is the result of the
// behaviour that caused it and not the end of the check.
package sup

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Mismatch is a difference between the specification and the real code.
type Mismatch struct {
	Area string `json:"area"`
	Msg  string `json:"msg"`
	Key  string `json:"key,omitempty"` // identifies a known finding
}

// Result is the answer to one behaviour.
type Result struct {
	Mismatches []Mismatch     `json:"mismatches,omitempty"`
	Stats      map[string]int `json:"stats,omitempty"`
	Records    []string       `json:"records,omitempty"` // for trace validation
	Error      string         `json:"error,omitempty"`   // the harness is at fault
}

// Record adds a line to the recorded traces, unless it is there already.
func (r *Result) Record(line string) {
	for _, l := range r.Records {
		if l == line {
			return
		}
	}
	r.Records = append(r.Records, line)
}

// Add records a mismatch.
func (r *Result) Add(area, format string, a ...any) {
	if len(r.Mismatches) < 8 {
		m := fmt.Sprintf(format, a...)
		if len(m) > 2000 {
			m = m[:2000] + "..."
		}
		r.Mismatches = append(r.Mismatches, Mismatch{Area: area, Msg: m})
	}
}

// Count adds to a statistic.
func (r *Result) Count(k string, n int) {
	if r.Stats == nil {
		r.Stats = map[string]int{}
	}
	r.Stats[k] += n
}

// Example is a failing behaviour.
type Example struct {
	Mismatches []Mismatch      `json:"mismatches"`
	Behaviour  json.RawMessage `json:"behaviour"`
}

// Report is what a whole run found.
type Report struct {
	Behaviours int               `json:"behaviours"`
	Distinct   int               `json:"distinct"`
	Stats      map[string]int    `json:"stats"`
	Failures   map[string]int    `json:"failures"`
	Examples   []Example         `json:"examples"`
	Samples    []json.RawMessage `json:"samples"`
	Errors     []string          `json:"errors,omitempty"`
}

// Handler replays one behaviour; n is its number in the run.
type Handler func(n int, behaviour []byte) Result

// Timeout of one behaviour.
var Timeout = 30 * time.Second

func call(h Handler, n int, b []byte) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			r.Add("panic", "panic: %v\n%s", p, stack())
		}
	}()
	return h(n, b)
}

func stack() string {
	var keep []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/pkg/") || strings.Contains(l, "hexbee") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, "\n")
}

// Child answers behaviours from stdin, one per line, on stdout.
func Child(h Handler) {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30) // collect early: garbage must not count as a leak
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		sp := bytes.IndexByte(line, ' ')
		n, _ := strconv.Atoi(string(line[:sp]))
		r := call(h, n, bytes.TrimSpace(line[sp+1:]))
		b, err := json.Marshal(r)
		if err != nil {
			b, _ = json.Marshal(Result{Error: err.Error()})
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

type job struct {
	n    int
	text []byte
}

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    chan []byte
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func start(args []string) *worker {
	w := &worker{stderr: &tail{}, out: make(chan []byte, 256)}
	w.cmd = exec.Command(os.Args[0], args...)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=800", "GOTRACEBACK=single")
	w.cmd.Stderr = w.stderr
	in, err := w.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	w.in = in
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	ch := w.out
	go func() {
		r := bufio.NewReaderSize(o, 1<<16)
		for {
			l, err := r.ReadBytes('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- l
		}
	}()
	return w
}

// Parent reads TLC's output from r; lines that are not behaviours go to log.
// child are the arguments that start a child process.
func Parent(r io.Reader, log, rec io.Writer, child []string, workers int) *Report {
	rep := &Report{Stats: map[string]int{}, Failures: map[string]int{}}
	var mu sync.Mutex
	seen := map[uint64]bool{}
	recorded := map[string]bool{}
	perArea := map[string]int{}
	take := func(j job, res Result) {
		mu.Lock()
		defer mu.Unlock()
		rep.Behaviours++
		h := fnv.New64a()
		h.Write(j.text)
		if k := h.Sum64(); !seen[k] {
			seen[k] = true
			rep.Distinct++
		}
		if res.Error != "" && len(rep.Errors) < 5 {
			rep.Errors = append(rep.Errors, res.Error+" in "+string(j.text))
		}
		for _, l := range res.Records {
			if rec != nil && !recorded[l] {
				recorded[l] = true
				io.WriteString(rec, l+"\n")
			}
		}
		for k, v := range res.Stats {
			rep.Stats[k] += v
		}
		if len(rep.Samples) < 3 && (j.n%101 == 1) && len(j.text) < 6000 {
			rep.Samples = append(rep.Samples, json.RawMessage(j.text))
		}
		if len(res.Mismatches) == 0 {
			return
		}
		keep := false
		done := map[string]bool{}
		for _, m := range res.Mismatches {
			k := m.Area + "|" + m.Key
			if done[k] {
				continue
			}
			done[k] = true
			rep.Failures[m.Area]++
			perArea[k]++
			keep = keep || perArea[k] <= 40
		}
		if keep {
			rep.Examples = append(rep.Examples, Example{res.Mismatches, json.RawMessage(j.text)})
		}
	}
	jobs := make(chan job, 256)
	var wg sync.WaitGroup
	crashes := 0
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			var pending []job
			stop := func() {
				if w != nil {
					w.in.Close()
					w.cmd.Process.Kill()
					w.cmd.Wait()
					w = nil
				}
			}
			defer stop()
			send := func(j job) bool {
				_, err := fmt.Fprintf(w.in, "%d %s\n", j.n, j.text)
				return err == nil
			}
			crashed := func(why string) {
				if len(pending) == 0 {
					stop()
					return
				}
				j := pending[0]
				mu.Lock()
				crashes++
				many := crashes > 40
				mu.Unlock()
				w.cmd.Process.Kill()
				w.cmd.Wait()
				w.stderr.mu.Lock()
				msg := why + ": " + string(w.stderr.b)
				w.stderr.mu.Unlock()
				w = nil
				var res Result
				res.Add("crash", "%s", msg)
				take(j, res)
				rest := pending[1:]
				pending = nil
				if many {
					return // enough failures; drop what this worker had queued
				}
				if len(rest) > 0 {
					w = start(child)
					for _, p := range rest {
						send(p)
						pending = append(pending, p)
					}
				}
			}
			answer := func() {
				t := time.NewTimer(Timeout)
				defer t.Stop()
				select {
				case l, ok := <-w.out:
					if !ok {
						crashed("the process ended")
						return
					}
					var res Result
					if err := json.Unmarshal(l, &res); err != nil {
						res = Result{Error: "bad answer: " + string(l)}
					}
					take(pending[0], res)
					pending = pending[1:]
				case <-t.C:
					crashed(fmt.Sprintf("no answer within %v", Timeout))
				}
			}
			for j := range jobs {
				mu.Lock()
				many := crashes > 40
				mu.Unlock()
				if many {
					continue
				}
				if w == nil {
					w = start(child)
				}
				pending = append(pending, j)
				send(j)
				for w != nil && len(pending) >= 32 {
					answer()
				}
			}
			for w != nil && len(pending) > 0 {
				answer()
			}
		}()
	}
	br := bufio.NewReaderSize(r, 1<<20)
	n := 0
	for {
		line, err := br.ReadString('\n')
		if strings.HasPrefix(line, `"@H `) {
			var text string
			if e := json.Unmarshal([]byte(line), &text); e != nil {
				mu.Lock()
				rep.Errors = append(rep.Errors, "bad line: "+line)
				mu.Unlock()
			} else {
				n++
				jobs <- job{n, []byte(strings.TrimPrefix(text, "@H "))}
			}
		} else if strings.HasPrefix(line, "@H ") {
			n++
			jobs <- job{n, []byte(strings.TrimSpace(strings.TrimPrefix(line, "@H ")))}
		} else if line != "" {
			io.WriteString(log, line)
		}
		if err != nil {
			break
		}
	}
	close(jobs)
	wg.Wait()
	// Keep the shortest examples of every area.
	sort.Slice(rep.Examples, func(a, b int) bool {
		return len(rep.Examples[a].Behaviour) < len(rep.Examples[b].Behaviour)
	})
	cnt := map[string]int{}
	var keep []Example
	for _, e := range rep.Examples {
		k := false
		for _, m := range e.Mismatches {
			cnt[m.Area+"|"+m.Key]++
			k = k || cnt[m.Area+"|"+m.Key] <= 4
		}
		if k {
			keep = append(keep, e)
		}
	}
	rep.Examples = keep
	return rep
}

// Main implements "PROG child NAME ..." and "PROG NAME [-log F] [-workers N]
// [args]" (reads stdin, prints the report).
func Main(handlers map[string]func(args []string) Handler, others map[string]func(args []string)) {
	a := os.Args[1:]
	if len(a) > 1 && a[0] == "child" {
		h, ok := handlers[a[1]]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown handler", a[1])
			os.Exit(3)
		}
		Child(h(a[2:]))
		return
	}
	if len(a) > 0 {
		if f, ok := others[a[0]]; ok {
			f(a[1:])
			return
		}
		if _, ok := handlers[a[0]]; ok {
			log := io.Writer(os.Stderr)
			var rec io.Writer
			workers := 6
			rest := a[1:]
			for len(rest) >= 2 {
				if rest[0] == "-log" {
					f, err := os.Create(rest[1])
					if err != nil {
						panic(err)
					}
					defer f.Close()
					log = f
				} else if rest[0] == "-rec" {
					f, err := os.Create(rest[1])
					if err != nil {
						panic(err)
					}
					defer f.Close()
					rec = f
				} else if rest[0] == "-workers" {
					workers, _ = strconv.Atoi(rest[1])
				} else {
					break
				}
				rest = rest[2:]
			}
			rep := Parent(os.Stdin, log, rec, append([]string{"child", a[0]}, rest...), workers)
			json.NewEncoder(os.Stdout).Encode(rep)
			return
		}
	}
	fmt.Fprintln(os.Stderr, "usage: unknown command")
	os.Exit(3)
}
