package props

import (
	"fmt"
	"math"

	"averif/eng"

	"pgregory.net/rapid"
)

type paramCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Len    int    `json:"len"`
	NilSec bool   `json:"nil,omitempty"`
	RNG    RNG    `json:"rng"`
}

func allVariants() []string { return append(append([]string{}, shamirVariants...), ssmsVariants...) }

var oddInts = []int{math.MinInt, math.MinInt + 1, math.MinInt32, -65536, -257, -256, -255, -254, -128, -2, -1, 0, 1, 2, 3, 127, 128, 129, 253, 254, 255, 256, 257,
	258, 259, 260, 383, 384, 510, 511, 512, 513, 514, 515, 768, 1024, 65535, 65536, 65537, 65538, 65791, 1 << 24, math.MaxInt32, wide(math.MaxInt32 + 1), wide(math.MaxUint32), wide(math.MaxUint32 + 1), wide(math.MaxUint32 + 3), math.MaxInt - 1, math.MaxInt}

func genOddInt(t *rapid.T, label string) int {
	switch eng.Uniform(t, 0, 4, label+"class") {
	case 4: // an ordinary number but for its upper bits
		return eng.Uniform(t, 0, 255, label+"low") + int(uint64(eng.Pick(t, label+"high", 1, 1, 3, -1, -255))<<eng.Pick(t, label+"shift", 8, 15, 16, 24, 31, 32, 32, 48, 62, 63))
	case 0:
		return eng.Pick(t, label, oddInts...)
	case 1:
		return eng.Uniform(t, -10, 270, label)
	case 2:
		return eng.Uniform(t, 0, 600, label)*256 + eng.Uniform(t, -3, 260, label+"low")
	default:
		return int(eng.Bits(t, 64, label))
	}
}

func runParam(o *eng.Obs, c paramCase) error {
	var secret []byte
	if !c.NilSec {
		secret = make([]byte, c.Len)
		fillRandom(secret, uint64(c.Len))
	} else {
		c.Len = 0
	}
	env := newEnv(c.RNG)
	ok := c.Len > 0 && 2 <= c.K && c.K <= c.N && c.N <= 255
	o.Class(c.V)
	if ok {
		o.Class("valid")
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		for i, s := range sh {
			if s == nil {
				return fmt.Errorf("%s: share %d is nil", c.V, i)
			}
		}
		if c.N == 255 || c.K == c.N || c.K == 2 {
			o.NonTrivial()
		}
		return nil
	}
	o.Class("invalid")
	o.NonTrivial()
	sh, err := env.split(c.V, secret, c.N, c.K)
	if err == nil {
		return fmt.Errorf("%s(%d bytes, parts=%d, threshold=%d) succeeded with %d shares", c.V, c.Len, c.N, c.K, len(sh))
	}
	if len(sh) != 0 {
		return fmt.Errorf("%s(%d bytes, parts=%d, threshold=%d) returned an error and %d shares", c.V, c.Len, c.N, c.K, len(sh))
	}
	return nil
}

type paramRange struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
	Len  int    `json:"len"`
	Step int    `json:"step"`
}

func init() {
	eng.Add(eng.Sub{Prop: "C04", Name: "random-params", Configs: with32("native"), Quick: 6000, Thorough: 200000,
		Rule: "split function, parts and threshold from extreme, wrapped (multiples of 256 plus small) and ordinary integers, secret nil, empty or short; non-trivial: parameters to be refused, or accepted ones at the edge of the range"},
		func(t *rapid.T) paramCase {
			c := paramCase{V: eng.Pick(t, "variant", allVariants()...)}
			switch eng.Uniform(t, 0, 3, "mode") {
			case 0:
				c.N, c.K = genNK(t, 255)
			case 1:
				c.N, c.K = genNK(t, 255)
				if rapid.Bool().Draw(t, "which") {
					c.N = genOddInt(t, "n")
				} else {
					c.K = genOddInt(t, "k")
				}
			default:
				c.N, c.K = genOddInt(t, "n"), genOddInt(t, "k")
			}
			c.Len = eng.Pick(t, "len", 0, 1, 1, 2, 17, 1024, 1025)
			if c.Len == 0 {
				c.NilSec = rapid.Bool().Draw(t, "nil")
			}
			c.RNG = RNG{Kind: "new"}
			return c
		}, runParam)
	eng.AddEnum(eng.Sub{Prop: "C04", Name: "grid", Configs: with32("native"),
		Rule: "every (parts, threshold) with both in -2..260 (quick: every split function on a different third of the grid outside the valid region, its edges always), secrets of 1 byte and empty; non-trivial: pairs outside the range or on its edge"},
		func(tier string) []paramRange {
			var r []paramRange
			for vi, v := range allVariants() {
				for n := -2; n <= 260; n++ {
					step := 1
					lo := -2
					if tier == "quick" {
						step = 3
						lo = -2 + (n+vi+300)%3
					}
					r = append(r, paramRange{v, n, lo, 260, 1, step})
					if n%8 == 0 || n < 4 || n > 250 {
						r = append(r, paramRange{v, n, -2, 260, 0, 1})
					}
				}
			}
			return r
		},
		func(o *eng.Obs, c paramRange) error {
			env := newEnv(RNG{Kind: "new"})
			evals, nt := 0, 0
			thorough := o.Tier == "thorough"
			secret := make([]byte, c.Len)
			one := func(k int) error {
				ok := c.Len > 0 && 2 <= k && k <= c.N && c.N <= 255
				if isSSMS(c.V) && !thorough && 3 < k && k <= c.N && c.N <= 255 {
					edge := k >= c.N-1 && (c.N <= 32 || c.N%16 == 0 || c.N > 253)
					if !edge && (c.N*31+k)%127 != 0 {
						return nil // Reed-Solomon set-up is slow; C07 has every pair
					}
				}
				evals++
				if ok {
					if k == 2 || k == c.N || c.N == 255 {
						nt++
					}
					_, err := env.splitOK(c.V, secret, c.N, k)
					return err
				}
				nt++
				sh, err := env.split(c.V, secret, c.N, k)
				if err == nil || len(sh) != 0 {
					return fmt.Errorf("%s(%d bytes, parts=%d, threshold=%d) must be refused, returned %d shares and error %v", c.V, c.Len, c.N, k, len(sh), err)
				}
				return nil
			}
			for k := c.Lo; k <= c.Hi; k += c.Step {
				if err := one(k); err != nil {
					return err
				}
			}
			if c.Step > 1 {
				for _, k := range []int{-1, 0, 1, 2, 3, c.N - 1, c.N, c.N + 1, 254, 255, 256, 257} {
					if err := one(k); err != nil {
						return err
					}
				}
			}
			o.Bulk(evals, nt)
			return nil
		})
}
