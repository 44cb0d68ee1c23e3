package props

import (
	"fmt"

	"averif/eng"

	"pgregory.net/rapid"
)

// linearComplexity is the length of the shortest linear recurrence over GF(2)
// that gives the bits (Berlekamp-Massey). For n uniform and independent bits it
// is below n/2 - t with probability under 2^(1-2t).
func linearComplexity(bits []byte) int {
	n := len(bits)
	words := n/64 + 2
	// rev holds the bits seen so far, the newest in bit 0
	c, b, t, rev := make([]uint64, words), make([]uint64, words), make([]uint64, words), make([]uint64, words)
	c[0], b[0] = 1, 1
	l, m := 0, -1
	for i := 0; i < n; i++ {
		used := i/64 + 1
		carry := uint64(bits[i] & 1)
		for w := 0; w < used; w++ {
			rev[w], carry = rev[w]<<1|carry, rev[w]>>63
		}
		var d uint64
		for w := 0; w <= l/64; w++ {
			d ^= c[w] & rev[w]
		}
		d ^= d >> 32
		d ^= d >> 16
		d ^= d >> 8
		d ^= d >> 4
		d ^= d >> 2
		d ^= d >> 1
		if d&1 == 0 {
			continue
		}
		grow := l <= i/2
		if grow {
			copy(t, c)
		}
		sh := i - m
		ws, bs := sh/64, uint(sh%64)
		for w := words - 1; w >= ws; w-- {
			v := b[w-ws] << bs
			if bs > 0 && w > ws {
				v |= b[w-ws-1] >> (64 - bs)
			}
			c[w] ^= v
		}
		if grow {
			l, m = i+1-l, i
			b, t = t, b
		}
	}
	return l
}

const linearSlack = 40 // 2^(1-2*40) for each comparison

// linear looks for a linear recurrence in one bit of every stride-th byte of x.
func linear(x []byte, stride int) string {
	bits := make([]byte, 0, len(x)/stride+1)
	for off := 0; off < stride; off++ {
		for bit := 0; bit < 8; bit++ {
			bits = bits[:0]
			for i := off; i < len(x); i += stride {
				bits = append(bits, x[i]>>bit&1)
			}
			for _, win := range []int{2600, 512} {
				step := win
				if win == 512 {
					step = 256
				}
				for at := 0; at+win <= len(bits); at += step {
					if l := linearComplexity(bits[at : at+win]); l < win/2-linearSlack {
						return fmt.Sprintf("bit %d of bytes %d, %d, ... (%d of them) follows a linear recurrence of length %d", bit, off+at*stride, off+(at+1)*stride, win, l)
					}
					if win == 2600 && stride > 4 {
						break // the first is enough
					}
				}
			}
		}
	}
	return ""
}

// serial looks for the bits of x taken one after the other.
func serial(x []byte) string {
	const n = 2600
	bits := make([]byte, 0, n)
	for _, high := range []bool{false, true} {
		for at := 0; at+n/8 <= len(x); at += n / 8 * 3 {
			bits = bits[:0]
			for _, v := range x[at : at+n/8] {
				for j := 0; j < 8; j++ {
					if high {
						bits = append(bits, v>>(7-j)&1)
					} else {
						bits = append(bits, v>>j&1)
					}
				}
			}
			if l := linearComplexity(bits); l < n/2-linearSlack {
				return fmt.Sprintf("the bits of bytes %d to %d follow a linear recurrence of length %d", at, at+n/8-1, l)
			}
		}
	}
	return ""
}

// additive looks for the recurrence of math/rand and other lagged Fibonacci
// generators, and for congruential ones, in every stride-th byte of x.
func additive(x []byte, stride int) string {
	for _, lag := range [][2]int{{607, 273}, {607, 334}, {17, 5}, {31, 3}, {31, 28}, {55, 24}, {55, 31}, {521, 168}, {1279, 418}} {
		for off := 0; off < stride; off++ {
			var hits [3]int
			n := 0
			for i := off + lag[0]*stride; i < len(x); i += stride {
				n++
				d := x[i] - x[i-lag[0]*stride] - x[i-lag[1]*stride]
				if d+1 < 3 {
					hits[d+1]++
				}
			}
			// of n >= 100 with probability 3/256 each, fewer than n/4+40
			if s := hits[0] + hits[1] + hits[2]; n >= 100 && s > n/4+40 {
				return fmt.Sprintf("bytes %d, %d, ... follow a lagged Fibonacci recurrence (%d, %d) in %d of %d places", off, off+stride, lag[0], lag[1], s, n)
			}
		}
	}
	// x[i+1] = a*x[i] + c (mod 256)
	for off := 0; off < stride; off++ {
		var prev [65536]uint8
		n, most := 0, 0
		last := -1
		for i := off; i+2*stride < len(x) && n < 2000; i += stride {
			d0, d1 := x[i+stride]-x[i], x[i+2*stride]-x[i+stride]
			if d0&1 == 0 {
				continue
			}
			// d1 = a*d0: the multiplier is fixed
			inv := d0
			for j := 0; j < 3; j++ {
				inv *= 2 - d0*inv
			}
			a := int(d1 * inv)
			n++
			if prev[a] < 255 {
				prev[a]++
			}
			if int(prev[a]) > most {
				most, last = int(prev[a]), a
			}
		}
		// for n <= 2000 a multiplier occurs 8 times on average
		if n >= 200 && most > 80 {
			return fmt.Sprintf("bytes %d, %d, ... are congruential with the multiplier %d in %d of %d places", off, off+stride, last, most, n)
		}
	}
	return ""
}

type linearCase struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Total int    `json:"total"` // hidden bytes of all uses together
}

func runLinear(o *eng.Obs, c linearCase) error {
	o.Class("%s", c.Kind)
	var streams [2][]byte // coefficients or streams, and SSMS keys
	for len(streams[0]) < c.Total {
		h, err := hidden(c.Kind, c.N, c.K, c.Len)
		if err != nil {
			return err
		}
		if len(h) == 2 {
			streams[1] = append(streams[1], h[0]...)
		}
		streams[0] = append(streams[0], h[len(h)-1]...)
	}
	look := func(x []byte, what string) error {
		if len(x) < 512 {
			return nil
		}
		if w := serial(x); w != "" {
			return fmt.Errorf("%s: %s: %s", c.Kind, what, w)
		}
		for stride := 1; stride <= 8; stride++ {
			if w := linear(x, stride); w != "" {
				return fmt.Errorf("%s: %s: %s", c.Kind, what, w)
			}
			if w := additive(x, stride); w != "" {
				return fmt.Errorf("%s: %s: %s", c.Kind, what, w)
			}
		}
		return nil
	}
	o.NonTrivial()
	if err := look(streams[0], "the hidden coefficients"); err != nil {
		return err
	}
	if c.K > 2 && c.Kind != "csprng" && c.Kind != "randomizer" {
		// by coefficient, not by position
		for j := 0; j < c.K-1; j++ {
			var col []byte
			for p := j; p < len(streams[0]); p += c.K - 1 {
				col = append(col, streams[0][p])
			}
			if err := look(col, fmt.Sprintf("coefficient %d", j+1)); err != nil {
				return err
			}
		}
	}
	return look(streams[1], "the SSMS keys")
}

func init() {
	eng.Add(eng.Sub{Prop: "C16", Name: "linear", Configs: []string{"native"}, RealEntropy: true, Quick: 96, Thorough: 3000,
		Rule: "every kind of split and fresh source, one long use or many short ones, 6 to 40 KB of hidden bytes: no bit of every first to eighth byte, and not all bits in a row, may follow a linear recurrence (Berlekamp-Massey over windows of 512 and 2600 bits, at 40 below the expected length), nor may the bytes follow a lagged Fibonacci or congruential recurrence; every case counts"},
		func(t *rapid.T) linearCase {
			c := linearCase{Kind: eng.Pick(t, "kind", hiddenKinds...)}
			c.K = eng.Pick(t, "k", 2, 2, 3, 4)
			c.N = c.K + eng.Uniform(t, 0, 2, "more")
			c.Total = eng.Pick(t, "total", 6000, 20000, 40000)
			switch eng.Uniform(t, 0, 2, "uses") {
			case 0:
				c.Len = c.Total / (c.K - 1)
			case 1:
				c.Len = eng.Uniform(t, 1000, 5000, "len")
			default:
				c.Len = eng.Uniform(t, 16, 200, "len")
			}
			return c
		}, runLinear)
}
