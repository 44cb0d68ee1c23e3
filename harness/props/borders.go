package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"
)

// Sizes where the work is cut into blocks, together with counts and thresholds
// where loops over shares are: each alone is covered elsewhere, here all
// combinations of them.
var (
	borderLens = []int{1, 2, 15, 16, 17, 31, 33, 255, 256, 257, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3073, 4096, 4097}
	borderNs   = []int{2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 70, 96, 127, 128, 129, 130, 191, 192, 193, 200, 250, 254, 255}
)

type borderCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	Seed   uint64 `json:"seed"`
	Budget int    `json:"budget"`
}

func borderCases(vs []string) func(string) []borderCase {
	return func(tier string) []borderCase {
		var r []borderCase
		ns, budget := borderNs, 600_000
		if tier == "thorough" {
			budget = 12_000_000
			ns = nil
			for n := 2; n <= 255; n++ {
				ns = append(ns, n)
			}
		}
		for _, v := range vs {
			for i, n := range ns {
				r = append(r, borderCase{v, n, uint64(i), budget})
			}
		}
		return r
	}
}

// borders goes through the lengths and thresholds for one function and count.
func borders(o *eng.Obs, c borderCase, check func(env *Env, secret []byte, n, k int, seed uint64) error) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
	r := prng(c.Seed ^ o.Seed ^ 0xb0)
	done := map[int]bool{}
	evals := 0
	for _, k := range []int{2, 3, 8, 16, 17, c.N / 2, c.N - 1, c.N} {
		if k < 2 || k > c.N || done[k] {
			continue
		}
		done[k] = true
		for _, l := range borderLens {
			if l > 64 && c.N*k*l > c.Budget {
				continue
			}
			secret := Data{Len: l, Fill: "rand", Seed: r.Uint64()}.Bytes()
			if err := check(env, secret, c.N, k, r.Uint64()); err != nil {
				return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, l, c.N, k, err)
			}
			evals++
		}
	}
	o.Class("%s", c.V)
	o.Bulk(evals, evals)
	return nil
}

func init() {
	rule := "every combination of 20 lengths around 16, 32, 256, 1024 and multiples of it, 29 counts around powers of two (thorough: all) and up to 8 thresholds (2, 3, 8, 16, 17, half, all but one, all), as far as the work allows, for every split function: "
	roundtrip := func(o *eng.Obs, c borderCase) error {
		return borders(o, c, func(env *Env, secret []byte, n, k int, seed uint64) error {
			sh, err := env.splitOK(c.V, secret, n, k)
			if err != nil {
				return err
			}
			// the last ones, and some that are chosen
			last := make([]int, 0, k)
			for i := n - k; i < n; i++ {
				last = append(last, i)
			}
			for _, idx := range [][]int{last, prng(seed).Perm(n)[:k]} {
				if k*k*len(secret) > c.Budget {
					continue
				}
				got, err := env.combine(c.V, choose(sh, idx), n, k)
				if err != nil {
					return fmt.Errorf("combining shares %v failed: %v", idx, err)
				}
				if err := sameSecret(fmt.Sprintf("shares %v", idx), got, secret); err != nil {
					return err
				}
			}
			return nil
		})
	}
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "borders", Configs: []string{"native"}, Rule: rule + "the last k and k random shares are combined; each split counts"},
		borderCases(shamirVariants), roundtrip)
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "borders", Configs: []string{"native"}, Rule: rule + "the last k and k random shares are combined; each split counts"},
		borderCases(ssmsVariants), roundtrip)
	eng.AddEnum(eng.Sub{Prop: "C02", Name: "borders", Configs: []string{"native"}, Rule: rule + "all shares are checked against the reference; each split counts"},
		borderCases(shamirVariants), func(o *eng.Obs, c borderCase) error {
			return borders(o, c, func(env *Env, secret []byte, n, k int, seed uint64) error {
				sh, err := env.splitOK(c.V, secret, n, k)
				if err != nil {
					return err
				}
				return ref.CheckShares(secret, n, k, sh)
			})
		})
}
