package main

import (
	"fmt"
	"strings"
)

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// altered compares the blanks of two texts that are equal without them: the
// pieces that should be there, and the formatted text.  Between two pieces any
// blanks may stand, as long as those at the ends of the pieces are kept; inside
// of a piece they stay as they are, except that lines may be indented.
func altered(pieces []string, out string) string {
	// the wanted text, and whether a blank run ends a piece
	var sb strings.Builder
	ends := map[int]bool{0: true}
	for _, p := range pieces {
		sb.WriteString(p)
		ends[sb.Len()] = true
	}
	want := sb.String()
	i, j := 0, 0
	for i < len(want) || j < len(out) {
		a, b := i, j
		border := ends[i]
		for i < len(want) && isBlank(want[i]) {
			i++
			border = border || ends[i]
		}
		for j < len(out) && isBlank(out[j]) {
			j++
		}
		if !sameBlanks(want[a:i], out[b:j], border) {
			return fmt.Sprintf("%q is written as %q before %q", want[a:i], out[b:j], out[j:min(len(out), j+10)])
		}
		i, j = i+1, j+1
	}
	return ""
}

func sameBlanks(r, q string, border bool) bool {
	if r == "" && border || r == q {
		return true
	}
	r, q = strings.ReplaceAll(r, "\r", "\n"), strings.ReplaceAll(q, "\r", "\n")
	rs, qs := strings.Split(r, "\n"), strings.Split(q, "\n")
	if len(rs) == 1 && len(qs) == 1 {
		return false
	}
	if !border {
		if len(rs) != len(qs) || rs[0] != qs[0] {
			return false
		}
		for k := 1; k < len(rs); k++ {
			if !strings.HasSuffix(qs[k], rs[k]) {
				return false
			}
		}
		return true
	}
	k := 0
	for _, l := range qs {
		if k < len(rs) && strings.Contains(l, rs[k]) {
			k++
		}
	}
	return k == len(rs)
}
