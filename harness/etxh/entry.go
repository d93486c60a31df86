package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sync"

	"github.com/hexbee-net/etxe/pkg/etx"
	"verif.local/harness/sup"
)

// session parses a few texts in many ways.
type session struct {
	Docs  []sessionDoc
	Steps []sessionStep
}

type sessionDoc struct {
	document
	Before int
}

type sessionStep struct {
	step
	Calls []entryCall
	Mades []*node
}

type entryCall struct {
	Doc   int
	Entry string
	Reads []int
	End   string
	Spoil bool
}

var errRead = errors.New("the disk is on fire")

// scripted is a reader that follows a script.
type scripted struct {
	data  []byte
	pos   int
	reads []int
	next  int
	end   string
	limit int
	calls int
}

func (r *scripted) Read(p []byte) (int, error) {
	// Only calls that bring nothing count: how much a call asks for is up to
	// the code.
	if r.calls++; r.calls > 1<<20 {
		panic("the reader is read for ever")
	}
	n := r.reads[r.next%len(r.reads)]
	r.next++
	if n > len(p) {
		n = len(p)
	}
	if n > r.limit-r.pos {
		n = r.limit - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if n > 0 {
		r.calls = 0
	}
	if r.pos < r.limit {
		return n, nil
	}
	switch {
	case r.end == "with":
		return n, io.EOF
	case r.end == "err-with":
		return n, errRead
	case n > 0:
		return n, nil
	case r.end == "eof":
		return 0, io.EOF
	}
	return 0, errRead
}

func newReader(text string, c entryCall) *scripted {
	r := &scripted{data: []byte(text), reads: c.Reads, end: c.End, limit: len(text)}
	switch c.End {
	case "err-first":
		r.limit = 0
	case "err-half":
		r.limit = len(text) / 2
	}
	return r
}

type answer struct {
	ast *etx.AST
	err error
	msg string
}

func call(text string, c entryCall) (a answer) {
	defer func() {
		if p := recover(); p != nil {
			a.msg = fmt.Sprintf("panic: %v", p)
		}
	}()
	switch c.Entry {
	case "string":
		a.ast, a.err = etx.ParseString(text)
	case "bytes":
		buf := make([]byte, len(text), len(text)+64)
		copy(buf, text)
		a.ast, a.err = etx.ParseBytes(buf)
		if !bytes.Equal(buf, []byte(text)) {
			a.msg = "the bytes were changed"
		}
		if c.Spoil {
			buf = buf[:cap(buf)]
			for i := range buf {
				buf[i] = '#'
			}
		}
	case "reader":
		r := newReader(text, c)
		a.ast, a.err = etx.Parse(r)
		if c.Spoil {
			for i := range r.data {
				r.data[i] = '#'
			}
		}
	}
	return
}

func entries(args []string) sup.Handler {
	return func(n int, b []byte) (res sup.Result) {
		var s session
		if err := json.Unmarshal(b, &s); err != nil {
			res.Error = err.Error()
			return
		}
		c := &comparison{res: &res, nums: map[string]*number{}}
		texts := make([]string, len(s.Docs))
		for i := range s.Docs {
			d := &s.Docs[i]
			if d.Mid {
				res.Count("skipped: heredoc delimiter in the middle of a line", 1)
				return
			}
			texts[i] = textOf(d.Text)
			c.text += texts[i] + "\x00"
			c.at = append(c.at, d.At...)
			for j := range d.Nums {
				c.nums[d.Nums[j].lit] = &d.Nums[j]
			}
		}
		for _, t := range edited {
			c.nums[t.lit] = t
		}
		r := &replay{res: &res, c: c}
		var ok []bool
		for _, d := range s.Docs {
			ok = append(ok, d.OK)
		}
		said := map[int]string{} // the error of a text
		for i := 0; i < len(s.Steps); i++ {
			st := &s.Steps[i]
			what := fmt.Sprintf("step %d, %s", i+1, st.Op)
			switch st.Op {
			case "forget":
				r.exps, r.reals, r.fresh = nil, nil, nil
				continue
			case "parse":
			default:
				if !r.do(&st.step, what) || !r.compare(what) {
					rename(&res)
					return
				}
				continue
			}
			// A change of an old tree may happen meanwhile.
			var meanwhile *sessionStep
			if i+1 < len(s.Steps) && s.Steps[i+1].Op == "set" && s.Steps[i+1].Tree <= len(r.reals) {
				meanwhile = &s.Steps[i+1]
				i++
			}
			as := make([]answer, len(st.Calls))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k := range st.Calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					as[k] = call(texts[st.Calls[k].Doc-1], st.Calls[k])
				}()
			}
			done := true
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if meanwhile != nil {
					done = r.do(&meanwhile.step, what+" and a change meanwhile")
				}
			}()
			close(start)
			wg.Wait()
			if !done {
				rename(&res)
				return
			}
			j := 0
			for k, a := range as {
				call := st.Calls[k]
				text := texts[call.Doc-1]
				how := fmt.Sprintf("%s, call %d of %d: %s", what, k+1, len(as), call.how())
				fails := call.Entry == "reader" && call.End != "eof" && call.End != "with"
				switch {
				case a.msg != "":
					res.Add("entry", "%s: %s on %q", how, a.msg, text)
				case (a.err == nil) == (a.ast == nil):
					res.Add("entry", "%s: tree and error are %v and %v on %q", how, a.ast != nil, a.err, text)
				case fails && a.err == nil:
					res.Add("entry", "%s: the error of the reader is lost on %q", how, text)
				case fails:
					res.Count("failed readers", 1)
				case ok[call.Doc-1] && a.err != nil:
					res.Add("entry", "%s: %v on %q", how, a.err, text)
				case !ok[call.Doc-1] && a.err == nil:
					res.Add("entry", "%s: no error on %q", how, text)
				case a.err != nil:
					if old, ok := said[call.Doc]; ok && old != a.err.Error() {
						res.Add("entry", "%s: the error is %q, was %q on %q", how, a.err, old, text)
					}
					said[call.Doc] = a.err.Error()
					res.Count("equal errors", 1)
				default:
					v := reflect.ValueOf(a.ast).Elem()
					for t := range r.reals {
						if what := shared(r.reals[t], v); what != "" {
							res.Add("entry", "%s: the tree shares %s with an earlier one on %q", how, what, text)
						}
					}
					r.reals = append(r.reals, v)
					r.exps = append(r.exps, st.Mades[j])
					r.fresh = append(r.fresh, false)
					j++
					res.Count("trees", 1)
				}
				if len(res.Mismatches) > 0 {
					return
				}
			}
			if len(as) > 1 {
				res.Count("concurrent groups", 1)
			}
			if !r.compare(what) {
				rename(&res)
				return
			}
		}
		res.Count("sessions", 1)
		return
	}
}

func (c entryCall) how() string {
	if c.Entry == "reader" {
		return fmt.Sprintf("reader with pieces of %v, then %s", c.Reads, c.End)
	}
	return c.Entry
}

// rename: whatever differs in a session is about its independence.
func rename(res *sup.Result) {
	for i := range res.Mismatches {
		res.Mismatches[i].Area = "entry"
	}
}
