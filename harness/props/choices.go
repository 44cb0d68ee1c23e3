package props

import (
	"fmt"
	"math"
	"math/bits"

	"averif/eng"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
)

// The order of some values of a permutation tells nothing of the order of the
// others. What a fair permutation looks like from any shuffle that could have
// made it is a list of independent choices, so a relation between two of them
// (or between two of the values) is one whichever shuffle really made it.

// swaps decodes p as a Fisher-Yates shuffle from the front: c[i] < n-i is how
// far behind i the value lay that came to i.
func swaps(p []byte, c []int) {
	var where, what [256]int
	for i := range p {
		where[i], what[i] = i, i
	}
	for i, v := range p {
		j := where[v]
		c[i] = j - i
		w := what[i]
		what[i], what[j] = int(v), w
		where[w], where[v] = j, i
	}
}

// swapsBack decodes p as a shuffle from the back: c[i] <= i is where the value
// lay that came to i.
func swapsBack(p []byte, c []int) {
	var where, what [256]int
	for i := range p {
		where[i], what[i] = i, i
	}
	for i := len(p) - 1; i >= 0; i-- {
		v := p[i]
		j := where[v]
		c[i] = j
		w := what[i]
		what[i], what[j] = int(v), w
		where[w], where[v] = j, i
	}
}

// bitTable holds one bit per draw in each row.
type bitTable struct {
	rows [][]uint64
	ones []int
	name []string
}

func newBitTable(rows, draws int) *bitTable {
	t := &bitTable{rows: make([][]uint64, rows), ones: make([]int, rows), name: make([]string, rows)}
	for i := range t.rows {
		t.rows[i] = make([]uint64, (draws+63)/64)
	}
	return t
}

func (t *bitTable) set(row, draw int, on bool) {
	if on {
		t.rows[row][draw/64] |= 1 << uint(draw%64)
		t.ones[row]++
	}
}

// worst returns the pair of rows whose bits go together most, with its
// correlation.
func (t *bitTable) worst(draws int, skip func(a, b int) bool) (int, int, float64) {
	wa, wb, worst := 0, 0, 0.0
	n := float64(draws)
	sd := make([]float64, len(t.rows))
	for i, o := range t.ones {
		p := float64(o) / n
		sd[i] = math.Sqrt(p * (1 - p))
	}
	for a := range t.rows {
		if sd[a] < 0.2 {
			continue
		}
		ra := t.rows[a]
		for b := a + 1; b < len(t.rows); b++ {
			if sd[b] < 0.2 || skip(a, b) {
				continue
			}
			m := 0
			rb := t.rows[b][:len(ra)]
			for i, w := range ra {
				m += bits.OnesCount64(w & rb[i])
			}
			phi := (float64(m)/n - float64(t.ones[a])/n*float64(t.ones[b])/n) / (sd[a] * sd[b])
			if math.Abs(phi) > math.Abs(worst) {
				wa, wb, worst = a, b, phi
			}
		}
	}
	return wa, wb, worst
}

type choiceCase struct {
	Source string `json:"source"`
	Op     string `json:"op"`
	N      int    `json:"n"`
	Draws  int    `json:"draws"`
	Seed   uint64 `json:"seed"`
}

func runChoices(o *eng.Obs, c choiceCase) error {
	r := prng(c.Seed ^ o.Seed)
	var s source
	if c.Source == "csprng" {
		s = csprng.NewCSPRNGWithKeyIV(RNG{Kind: "keyiv", Seed: r.Uint64()}.KeyIV())
	} else {
		s = randomizer.NewRandomizer()
	}
	const each = 4
	n := c.N
	values := n
	if c.Op == "unique" {
		values = 255
	}
	// of each choice (both ways to read it) and each value: is it in the upper
	// half, is it odd, and the two bits below the highest
	t := []*bitTable{newBitTable(n*each, c.Draws), newBitTable(n*each, c.Draws), newBitTable(n*each, c.Draws)}
	what := [3]string{"the choice of what comes to position %d", "the choice (from the back) of what comes to position %d", "the value at position %d"}
	how := [each]string{"its upper half", "odd", "bit 1", "an odd quarter"}
	ch := make([]int, n)
	put := func(tab, d, i, v, m int) {
		b := i * each
		t[tab].set(b, d, 2*v >= m)
		t[tab].set(b+1, d, v&1 == 1)
		t[tab].set(b+2, d, v&2 == 2)
		t[tab].set(b+3, d, 4*v/m&1 == 1)
	}
	for d := 0; d < c.Draws; d++ {
		var p []byte
		if c.Op == "unique" {
			p = s.(*csprng.CSPRNG).GetUniqueBytes(byte(n))
		} else {
			p = s.Perm(byte(n))
		}
		if err := checkDistinct(c.Op, n, p); err != nil {
			return fmt.Errorf("%s, draw %d: %v", c.Source, d, err)
		}
		for i, v := range p {
			put(2, d, i, int(v), values)
		}
		if c.Op == "unique" {
			continue
		}
		swaps(p, ch)
		for i, v := range ch {
			put(0, d, i, v, n-i)
		}
		swapsBack(p, ch)
		for i, v := range ch {
			put(1, d, i, v, i+1)
		}
	}
	// with independent choices a correlation has a standard deviation of
	// 1/sqrt(draws), some 1e6 of them are compared; values differ, which makes
	// those of the same kind go apart by 1/n, and bytes that are brought to a
	// smaller range add to that
	limit := 9/math.Sqrt(float64(c.Draws)) + 0.02
	for k := range t {
		lim := limit
		if k > 0 {
			lim += 3 / float64(n)
		}
		a, b, phi := t[k].worst(c.Draws, func(a, b int) bool { return a/each == b/each })
		if math.Abs(phi) > lim {
			return fmt.Errorf("%s, n = %d: %s (%s) and %s (%s) go together: correlation %.3f over %d draws, at most %.3f expected", c.Source, n,
				fmt.Sprintf(what[k], a/each), how[a%each], fmt.Sprintf(what[k], b/each), how[b%each], phi, c.Draws, lim)
		}
	}
	o.Bulk(c.Draws, c.Draws)
	return nil
}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C11", Name: "choices", Configs: []string{"native"},
		Rule: "thousands of permutations, each also read as the choices of a shuffle from the front and of one from the back: four bits of each choice and of each value; the correlation of any two bits of different positions is small (9 standard deviations and what different values and the reduction of bytes add); each draw counts"},
		func(tier string) []choiceCase {
			ns, draws := []int{24, 64, 129, 200, 255}, 12800
			if tier == "thorough" {
				draws = 64000
				ns = nil
				for n := 8; n <= 255; n += 13 {
					ns = append(ns, n)
				}
				ns = append(ns, 128, 129, 254)
			}
			var r []choiceCase
			for _, n := range ns {
				for _, so := range [][2]string{{"csprng", "perm"}, {"csprng", "unique"}, {"randomizer", "perm"}} {
					if so[1] == "unique" && n != 24 && n != 255 && tier != "thorough" {
						continue
					}
					r = append(r, choiceCase{so[0], so[1], n, draws, uint64(n)})
				}
			}
			return r
		}, runChoices)
}
