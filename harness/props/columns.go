package props

import (
	"bytes"
	"fmt"
	"slices"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

// Shares whose bytes at a position (a column) have something in common with
// each other, with the tags or with a neighbouring column: what a split gives
// with a vanishing chance, and what a short cut in the interpolation looks for.

type column struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
}

var columnKinds = []string{
	"rand", "rand", "equal", "but one", "but one", "two values", "few values",
	"zero", "zero but one", "zero but two", "tags", "inverse tags", "scaled tags", "tags plus", "rotated tags",
	"like before", "permuted before", "rotated before", "swapped before", "before plus", "scaled before", "before but one",
	"same sums", "sorted", "counting", "palindrome", "xor zero", "powers", "twos", "combines to zero", "combines to tag",
}

type colCase struct {
	M      int      `json:"m"`
	Tags   string   `json:"tags"` // rand, low, high, twos, ends, pairs
	Cols   []column `json:"cols"`
	Repeat int      `json:"repeat"` // the columns, that many times, with other seeds
	Seed   uint64   `json:"seed"`
	Worker bool     `json:"worker"`
	Num    int      `json:"num,omitempty"`
}

func genColumns(t *rapid.T, cost int) colCase {
	c := colCase{
		M:      eng.Pick(t, "mclass", 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 12, 16, 17, 20, 32, 33, 64, 128, 254, 255),
		Tags:   eng.Pick(t, "tags", "rand", "rand", "low", "high", "twos", "ends", "pairs"),
		Repeat: eng.Pick(t, "repeat", 1, 1, 2, 5, 9, 33, 70),
		Seed:   eng.Bits(t, 20, "seed"),
		Worker: rapid.Bool().Draw(t, "worker"),
	}
	c.Cols = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) column {
		return column{eng.Pick(t, "kind", columnKinds...), eng.Bits(t, 10, "colseed")}
	}), 1, 24).Draw(t, "cols")
	c.Repeat = max(1, min(c.Repeat, cost/(c.M*c.M*len(c.Cols))))
	if top := max(1, cost/(c.M*c.M)); len(c.Cols) > top {
		c.Cols = c.Cols[:top]
	}
	return c
}

func (c colCase) tags() []byte {
	r := prng(c.Seed)
	t := make([]byte, 255)
	for i := range t {
		t[i] = byte(i + 1)
	}
	switch c.Tags {
	case "low":
	case "high":
		slices.Reverse(t)
	case "twos": // powers of two first
		x := byte(1)
		for i := range t {
			t[i] = x
			x = ref.Mul(x, 2)
		}
	case "ends":
		for i := range t {
			if i%2 == 0 {
				t[i] = byte(1 + i/2)
			} else {
				t[i] = byte(255 - i/2)
			}
		}
	default:
		r.Shuffle(255, func(a, b int) { t[a], t[b] = t[b], t[a] })
		if c.Tags == "pairs" { // x and its inverse side by side
			seen := map[byte]bool{}
			var u []byte
			for _, x := range t {
				for _, y := range []byte{x, inv(x)} {
					if !seen[y] {
						seen[y] = true
						u = append(u, y)
					}
				}
			}
			t = u
		}
	}
	return t[:c.M]
}

// shares returns the shares.
func (c colCase) shares() [][]byte {
	m := c.M
	tags := c.tags()
	basis := ref.LagrangeWeights(tags, 0)
	n := len(c.Cols) * c.Repeat
	sh := make([][]byte, m)
	for i := range sh {
		sh[i] = make([]byte, n+1)
		sh[i][n] = tags[i]
	}
	prev := make([]byte, m)
	cur := make([]byte, m)
	p := 0
	for rep := 0; rep < c.Repeat; rep++ {
		for _, col := range c.Cols {
			r := prng(eng.Mix(c.Seed, col.Seed*131+uint64(rep)))
			at, to := r.IntN(m), r.IntN(m)
			v, w := byte(r.Uint64()), byte(1+r.IntN(255))
			for i := range cur { // the default
				cur[i] = byte(r.Uint64())
			}
			fill := func(x byte) {
				for i := range cur {
					cur[i] = x
				}
			}
			switch col.Kind {
			case "equal":
				fill(v)
			case "but one":
				fill(v)
				cur[[]int{0, at, m - 1}[r.IntN(3)]] ^= w
			case "two values":
				for i := range cur {
					cur[i] = v
					if r.IntN(2) == 0 {
						cur[i] = w
					}
				}
			case "few values":
				for i := range cur {
					cur[i] &= 3
				}
			case "zero":
				fill(0)
			case "zero but one":
				fill(0)
				cur[at] = w
			case "zero but two":
				fill(0)
				cur[at] = w
				cur[to] ^= v
			case "tags":
				copy(cur, tags)
			case "inverse tags":
				for i := range cur {
					cur[i] = inv(tags[i])
				}
			case "scaled tags":
				for i := range cur {
					cur[i] = ref.Mul(tags[i], w)
				}
			case "tags plus":
				for i := range cur {
					cur[i] = tags[i] ^ v
				}
			case "rotated tags":
				for i := range cur {
					cur[i] = tags[(i+1+at)%m]
				}
			case "like before":
				copy(cur, prev)
			case "permuted before":
				copy(cur, prev)
				r.Shuffle(m, func(a, b int) { cur[a], cur[b] = cur[b], cur[a] })
			case "rotated before":
				for i := range cur {
					cur[i] = prev[(i+1)%m]
				}
			case "swapped before":
				copy(cur, prev)
				cur[at], cur[to] = cur[to], cur[at]
			case "before plus":
				for i := range cur {
					cur[i] = prev[i] ^ w
				}
			case "scaled before":
				for i := range cur {
					cur[i] = ref.Mul(prev[i], w)
				}
			case "before but one":
				copy(cur, prev)
				cur[at] ^= w
			case "same sums": // one more here, one less there
				copy(cur, prev)
				if at != to && cur[at] < 255 && cur[to] > 0 {
					cur[at]++
					cur[to]--
				}
			case "sorted":
				slices.Sort(cur)
			case "counting":
				for i := range cur {
					cur[i] = v + byte(i)
				}
			case "palindrome":
				for i := range cur {
					cur[m-1-i] = cur[i]
				}
			case "xor zero":
				cur[at] = 0
				var x byte
				for _, y := range cur {
					x ^= y
				}
				cur[at] = x
			case "powers":
				x := w
				for i := range cur {
					cur[i] = x
					x = ref.Mul(x, 2)
				}
			case "twos":
				for i := range cur {
					cur[i] = 1 << (cur[i] % 8)
				}
			case "combines to zero", "combines to tag":
				want := byte(0)
				if col.Kind == "combines to tag" {
					want = tags[to]
				}
				cur[at] = 0
				for i := range cur {
					want ^= ref.Mul(basis[i], cur[i])
				}
				cur[at] = ref.Mul(want, inv(basis[at]))
			}
			for i := range cur {
				sh[i][p] = cur[i]
			}
			prev, cur = cur, prev
			p++
		}
	}
	return sh
}

func inv(x byte) byte { return ref.Div(1, x) }

func columnClasses(o *eng.Obs, c colCase) {
	for _, k := range c.Cols {
		o.Class("%s", k.Kind)
	}
	if len(c.Cols) > 0 && c.M > 2 {
		o.NonTrivial()
	}
}

const columnRule = "2..255 well-formed shares with distinct nonzero tags (random, low, high, powers of two, inverses side by side) whose bytes at a position are equal, equal but for one, of few values, the tags or multiples, inverses or rotations of them, or those of the position before, permuted, shifted, scaled or changed in one place, sorted, counting, of zero sum, or such that they combine to zero or to a tag; non-trivial: three or more shares"

func init() {
	eng.Add(eng.Sub{Prop: "C05", Name: "columns", Configs: with32("native", "noasm"), Quick: 2500, Thorough: 100000,
		Rule: columnRule},
		func(t *rapid.T) colCase { return genColumns(t, 300_000) },
		func(o *eng.Obs, c colCase) error {
			columnClasses(o, c)
			return CheckCombine(o, c.shares(), c.Worker)
		})
	eng.Add(eng.Sub{Prop: "C06", Name: "columns", Configs: with32("native"), Quick: 1500, Thorough: 60000,
		Rule: columnRule + "; some new shares are asked for"},
		func(t *rapid.T) colCase {
			c := genColumns(t, 60_000)
			c.Num = eng.Pick(t, "num", 1, 1, 2, 3, 5)
			return c
		},
		func(o *eng.Obs, c colCase) error {
			columnClasses(o, c)
			_, err := CheckRegenerate(o, c.shares(), c.Num)
			return err
		})
	eng.Add(eng.Sub{Prop: "C01", Name: "chance", Configs: with32("native"), Quick: 1500, Thorough: 60000,
		Rule: "what a split into exactly the needed shares may give by chance: " + columnRule + ". The secret is the one that belongs to these shares: they, and the same shares in another order, must give it"},
		func(t *rapid.T) colCase { return genColumns(t, 200_000) },
		func(o *eng.Obs, c colCase) error {
			columnClasses(o, c)
			sh := c.shares()
			secret := ref.Combine(sh)
			r := prng(c.Seed + 5)
			w := worker.NewWorker()
			for i := 0; i < 2; i++ {
				var got []byte
				var err error
				if c.Worker {
					got, err = w.Combine(worker.AlgShamir, sh, c.M, c.M)
				} else {
					got, err = shamir.Combine(sh)
				}
				if err != nil {
					return fmt.Errorf("combining %d shares with tags %v: %v", c.M, tagsOf(sh), err)
				}
				if !bytes.Equal(got, secret) {
					return sameSecret(fmt.Sprintf("combining %d shares with tags %v", c.M, tagsOf(sh)), got, secret)
				}
				r.Shuffle(c.M, func(a, b int) { sh[a], sh[b] = sh[b], sh[a] })
			}
			return nil
		})
}
