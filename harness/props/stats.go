package props

import (
	"encoding/binary"
	"fmt"
	"math"

	"averif/ref"
)

// The statistical oracles below look for dependencies that would let somebody
// compute hidden bytes. Thresholds are far out in the tails: with hidden bytes
// that really are uniform and independent each single comparison exceeds its
// threshold with probability below 1e-20 (relations) or 1e-13 (histograms).

// relCalls is the number of observations per relation and relLimit how many of
// them may agree: C(64,16)*256^-15 < 1e-21.
const (
	relCalls = 64
	relLimit = 16
)

var logT, expT = func() (l [256]int, e [510]byte) {
	x := byte(1)
	for i := 0; i < 255; i++ {
		e[i], e[i+255] = x, x
		l[x] = i
		x = ref.Mul(x, 2)
	}
	return
}()

// constantColumn reports a value that recurs in a column of <=64 observations.
func constantColumn(a []byte) (byte, int) {
	var c [256]int32
	for _, v := range a {
		c[v]++
	}
	best := 0
	for v := range c {
		if c[v] > c[best] {
			best = v
		}
	}
	return byte(best), int(c[best])
}

// related looks for a fixed relation between two columns: b^a, b-a (mod 256) or
// b/a in the field. It returns "" if there is none.
func related(a, b []byte) string {
	var x, s, q [256]uint8
	n := min(len(a), len(b))
	var mx, ms, mq uint8
	var vx, vs, vq byte
	for i := 0; i < n; i++ {
		u, v := a[i], b[i]
		d := u ^ v
		x[d]++
		if x[d] > mx {
			mx, vx = x[d], d
		}
		d = v - u
		s[d]++
		if s[d] > ms {
			ms, vs = s[d], d
		}
		if u != 0 && v != 0 {
			d = expT[logT[v]-logT[u]+255]
			q[d]++
			if q[d] > mq {
				mq, vq = q[d], d
			}
		}
	}
	switch {
	case mx >= relLimit:
		return fmt.Sprintf("the XOR of both is %#02x in %d of %d calls", vx, mx, n)
	case ms >= relLimit:
		return fmt.Sprintf("their difference is %d in %d of %d calls", vs, ms, n)
	case mq >= relLimit:
		return fmt.Sprintf("their quotient is %#02x in %d of %d calls", vq, mq, n)
	}
	return ""
}

// histogram checks n >= 1280 observations for uniformity.
type histogram struct {
	c [256]int
	n int
}

func (h *histogram) add(b byte) { h.c[b]++; h.n++ }

func (h *histogram) check() error {
	e := float64(h.n) / 256
	if e < 5 {
		return nil
	}
	chi := 0.0
	for _, c := range h.c {
		d := float64(c) - e
		chi += d * d / e
	}
	// 255 degrees of freedom: mean 255, sd 22.6
	if chi > 500 {
		worst := 0
		for v, c := range h.c {
			if math.Abs(float64(c)-e) > math.Abs(float64(h.c[worst])-e) {
				worst = v
			}
		}
		return fmt.Errorf("not uniform: chi-square %.0f with 255 degrees of freedom over %d values (%#02x occurs %d times, expected %.0f)", chi, h.n, worst, h.c[worst], e)
	}
	for v, c := range h.c {
		if c == 0 && e >= 42 {
			return fmt.Errorf("the value %#02x never occurs among %d", v, h.n)
		}
		// Poisson tail: mean + 12 sd + 20 is below 1e-14 for all means here
		if float64(c) > e+12*math.Sqrt(e)+20 {
			return fmt.Errorf("the value %#02x occurs %d times among %d, expected %.0f", v, c, h.n, e)
		}
	}
	return nil
}

// repeats finds a byte string that occurs twice in what is added: hidden bytes
// used more than once.
type repeats struct {
	seen map[uint64]repPos
	srcs [][]byte
	what []string
	n    int
}

type repPos struct{ src, off int32 }

func newRepeats() *repeats { return &repeats{seen: map[uint64]repPos{}} }

// add enters every window of 8 bytes and reports one seen before; in long
// inputs a hit must go on for 12 bytes.
func (r *repeats) add(what func() string, b []byte) error {
	if len(b) < 8 {
		return nil
	}
	src := int32(len(r.srcs))
	r.srcs = append(r.srcs, b)
	r.what = append(r.what, "")
	named := false
	for i := 0; i+8 <= len(b); i++ {
		r.n++
		k := binary.LittleEndian.Uint64(b[i:])
		if p, ok := r.seen[k]; ok {
			o := r.srcs[p.src]
			l := 8
			for int(p.off)+l < len(o) && i+l < len(b) && o[int(p.off)+l] == b[i+l] {
				l++
			}
			if l >= 12 || r.n < 20000 {
				return fmt.Errorf("%d equal bytes in a row: %s from %d on, and %s from %d on (%x)", l, what(), i, r.what[p.src], p.off, head(b[i:i+l]))
			}
			continue
		}
		if !named {
			r.what[src] = what()
			named = true
		}
		r.seen[k] = repPos{src, int32(i)}
	}
	return nil
}

// lagMatches checks one stream against itself shifted by every lag.
func lagMatches(s []byte, maxLag int) error {
	for d := 1; d < len(s) && d <= maxLag; d++ {
		m := 0
		for i := 0; i+d < len(s); i++ {
			if s[i] == s[i+d] {
				m++
			}
		}
		e := float64(len(s)-d) / 256
		if float64(m) > e+10*math.Sqrt(e)+24 {
			return fmt.Errorf("%d of %d bytes equal the byte %d earlier, expected %.0f", m, len(s)-d, d, e)
		}
	}
	return nil
}

// tooSimilar reports whether a and b agree in more bytes than chance allows.
func tooSimilar(a, b []byte) bool {
	n := min(len(a), len(b))
	m := 0
	for i := 0; i < n; i++ {
		if a[i] == b[i] {
			m++
		}
	}
	e := float64(n) / 256
	return float64(m) > e+10*math.Sqrt(e)+9
}

// columns are the hidden bytes of relCalls calls with equal parameters:
// col[c][call].
type columns struct {
	col  [][]byte
	name func(c int) string
}

// checkColumns runs the column tests: recurring values, relations with the
// public tags, the secrets, each other and the previous call.
func checkColumns(cs columns, tags, secrets [][]byte, seed uint64, strides []int) error {
	r := prng(seed)
	n := len(cs.col)
	for c, a := range cs.col {
		if v, m := constantColumn(a); m >= relLimit {
			return fmt.Errorf("%s is %#02x in %d of %d calls", cs.name(c), v, m, len(a))
		}
	}
	// a bounded selection: the first, the last and random ones
	sel := pickSome(r, n, 60, 20, 60)
	for ti, t := range tags {
		if ti >= 24 && ti < len(tags)-4 && r.IntN(4) != 0 {
			continue
		}
		for _, c := range sel {
			if why := related(t, cs.col[c]); why != "" {
				return fmt.Errorf("%s depends on the tag of share %d: %s", cs.name(c), ti, why)
			}
		}
	}
	ssel := pickSome(r, len(secrets), 12, 6, 6)
	for _, si := range ssel {
		for _, c := range sel {
			if why := related(secrets[si], cs.col[c]); why != "" {
				return fmt.Errorf("%s depends on byte %d of the secret: %s", cs.name(c), si, why)
			}
		}
	}
	for i, a := range sel {
		for _, b := range sel[:i] {
			if why := related(cs.col[b], cs.col[a]); why != "" {
				return fmt.Errorf("%s depends on %s: %s", cs.name(a), cs.name(b), why)
			}
		}
	}
	for _, d := range strides {
		if d >= n {
			continue
		}
		step := max(1, (n-d)/600)
		for c := 0; c+d < n; c += step {
			if why := related(cs.col[c], cs.col[c+d]); why != "" {
				return fmt.Errorf("%s depends on %s: %s", cs.name(c+d), cs.name(c), why)
			}
		}
	}
	// earlier calls
	small := sel
	if len(small) > 40 {
		small = pickSome(r, n, 16, 12, 12)
	}
	for _, a := range small {
		for _, b := range small {
			if why := related(cs.col[a][:len(cs.col[a])-1], cs.col[b][1:]); why != "" {
				return fmt.Errorf("%s depends on %s of the call before: %s", cs.name(b), cs.name(a), why)
			}
		}
	}
	step := max(1, n/2000)
	for c := 0; c < n; c += step {
		for lag := 2; lag <= 3; lag++ {
			if why := related(cs.col[c][:len(cs.col[c])-lag], cs.col[c][lag:]); why != "" {
				return fmt.Errorf("%s depends on itself %d calls before: %s", cs.name(c), lag, why)
			}
		}
	}
	return nil
}

// pickSome returns indices below n: the first f, the last l and m random ones.
func pickSome(r interface{ IntN(int) int }, n, f, l, m int) []int {
	if n <= f+l+m {
		x := make([]int, n)
		for i := range x {
			x[i] = i
		}
		return x
	}
	seen := map[int]bool{}
	var x []int
	put := func(i int) {
		if !seen[i] {
			seen[i] = true
			x = append(x, i)
		}
	}
	for i := 0; i < f; i++ {
		put(i)
	}
	for i := 0; i < l; i++ {
		put(n - 1 - i)
	}
	for i := 0; i < m; i++ {
		put(r.IntN(n))
	}
	return x
}
