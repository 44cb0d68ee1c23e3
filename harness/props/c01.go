package props

import (
	"fmt"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

type rtCase struct {
	V       string   `json:"v"`
	N       int      `json:"n"`
	K       int      `json:"k"`
	Secret  Data     `json:"secret"`
	RNG     RNG      `json:"rng"`
	Subsets []Subset `json:"subsets"`
}

func genRT(variants []string, maxLen, budget int) func(t *rapid.T) rtCase {
	return func(t *rapid.T) rtCase {
		c := rtCase{V: eng.Pick(t, "variant", variants...)}
		c.N, c.K = genNK(t, 255)
		c.Secret = genData(t, maxLen)
		c.Subsets = rapid.SliceOfN(rapid.Custom(genSubset), 1, 3).Draw(t, "subsets")
		if c.Secret.Fill != "lit" {
			m := c.K
			for _, s := range c.Subsets {
				if s.Kind == "all" || s.Kind == "some" || s.Kind == "reverse" {
					m = c.N
				}
			}
			if !isSSMS(c.V) {
				c.Secret.Len = capLen(c.Secret.Len, m, budget)
			}
		}
		c.RNG = genRNG(t)
		return c
	}
}

func runRT(o *eng.Obs, c rtCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	o.Class(c.V)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	if len(secret) > 1 && (c.N > 2 || c.K > 2) {
		o.NonTrivial()
	}
	keep := cloneAll(sh)
	for _, s := range c.Subsets {
		idx := s.pick(c.N, c.K)
		o.Class("subset " + s.Kind)
		got, err := env.combine(c.V, choose(sh, idx), c.N, c.K)
		if err != nil {
			return fmt.Errorf("combining shares %v of %s(%d bytes, %d, %d) failed: %v", idx, c.V, len(secret), c.N, c.K, err)
		}
		if err := sameSecret(fmt.Sprintf("combining shares %v of %s(n=%d,k=%d)", idx, c.V, c.N, c.K), got, secret); err != nil {
			return err
		}
	}
	if !sameAll(keep, sh) {
		return fmt.Errorf("combining changed the shares")
	}
	return nil
}

type pairCase struct {
	N    int    `json:"n"`
	Kmin int    `json:"kmin"`
	Kmax int    `json:"kmax"`
	L    []int  `json:"len"`
	All  bool   `json:"all"` // every variant, not one in rotation
	Seed uint64 `json:"seed"`
}

// pairCases covers every 2 <= k <= n <= 255, a band of k per case.
func pairCases(lens []int) func(tier string) []pairCase {
	return func(tier string) []pairCase {
		var r []pairCase
		for n := 2; n <= 255; n++ {
			for k := 2; k <= n; k += 16 {
				r = append(r, pairCase{n, k, min(n, k+15), lens, tier == "thorough", uint64(n*256 + k)})
			}
		}
		return r
	}
}

func runPairs(variants []string) func(o *eng.Obs, c pairCase) error {
	return func(o *eng.Obs, c pairCase) error {
		r := prng(c.Seed ^ o.Seed)
		evals := 0
		env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
		for k := c.Kmin; k <= c.Kmax; k++ {
			vs := variants
			if !c.All {
				// the rotation is over k+n, so every variant meets every n and k
				vs = []string{variants[(k+c.N)%len(variants)], variants[r.IntN(len(variants))]}
			}
			for _, v := range vs {
				secret := Data{Len: c.L[r.IntN(len(c.L))], Fill: "rand", Seed: r.Uint64()}.Bytes()
				sh, err := env.splitOK(v, secret, c.N, k)
				if err != nil {
					return err
				}
				idx := r.Perm(c.N)[:k]
				got, err := env.combine(v, choose(sh, idx), c.N, k)
				if err != nil {
					return fmt.Errorf("combining %d shares of %s(n=%d,k=%d) failed: %v", k, v, c.N, k, err)
				}
				if err := sameSecret(fmt.Sprintf("%s(n=%d,k=%d), shares %v", v, c.N, k, idx), got, secret); err != nil {
					return err
				}
				evals++
				o.Class(v)
			}
		}
		o.Bulk(evals, evals)
		return nil
	}
}

type lenCase struct {
	From int    `json:"from"`
	To   int    `json:"to"`
	Step int    `json:"step"`
	Seed uint64 `json:"seed"`
	All  bool   `json:"all"`
}

func lenCases(tier string) []lenCase {
	var r []lenCase
	top := 1200
	if tier == "thorough" {
		top = 5000
	}
	for l := 1; l <= top; l += 8 {
		r = append(r, lenCase{l, l + 7, 1, uint64(l), tier == "thorough"})
	}
	for _, b := range []int{2048, 3072, 4096, 5120, 8192, 16384, 32768, 65536, 131072} {
		if b > top {
			r = append(r, lenCase{b - 2, b + 2, 1, uint64(b), tier == "thorough"})
		}
	}
	return r
}

func runLens(variants []string) func(o *eng.Obs, c lenCase) error {
	return func(o *eng.Obs, c lenCase) error {
		r := prng(c.Seed ^ o.Seed)
		env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
		evals := 0
		for l := c.From; l <= c.To; l += c.Step {
			for _, v := range variants {
				reps := 1
				if c.All {
					reps = 2
				}
				for ; reps > 0; reps-- {
					k := 2 + r.IntN(4)
					n := k + r.IntN(4)
					secret := Data{Len: l, Fill: "rand", Seed: r.Uint64()}.Bytes()
					sh, err := env.splitOK(v, secret, n, k)
					if err != nil {
						return err
					}
					idx := r.Perm(n)[:k]
					got, err := env.combine(v, choose(sh, idx), n, k)
					if err != nil {
						return fmt.Errorf("combining %d shares of %s(%d bytes, n=%d,k=%d) failed: %v", k, v, l, n, k, err)
					}
					if err := sameSecret(fmt.Sprintf("%s(%d bytes, n=%d,k=%d), shares %v", v, l, n, k, idx), got, secret); err != nil {
						return err
					}
					evals++
				}
			}
		}
		o.Bulk(evals, evals)
		return nil
	}
}

type subsetCase struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
}

func subsetCases(variants []string) func(tier string) []subsetCase {
	return func(tier string) []subsetCase {
		var r []subsetCase
		top := 5
		if tier == "thorough" {
			top = 7
		}
		for _, v := range variants {
			for n := 2; n <= top; n++ {
				for k := 2; k <= n; k++ {
					r = append(r, subsetCase{v, n, k, 1 + (n*7+k)%19, uint64(n*16 + k)})
				}
			}
		}
		return r
	}
}

// runSubsets combines every ordered selection of at least k shares.
func runSubsets(o *eng.Obs, c subsetCase) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
	secret := Data{Len: c.Len, Fill: "rand", Seed: c.Seed}.Bytes()
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	evals := 0
	var idx []int
	used := make([]bool, c.N)
	var rec func() error
	rec = func() error {
		if len(idx) >= c.K {
			evals++
			got, err := env.combine(c.V, choose(sh, idx), c.N, c.K)
			if err != nil {
				return fmt.Errorf("combining shares %v of %s(n=%d,k=%d) failed: %v", idx, c.V, c.N, c.K, err)
			}
			if err := sameSecret(fmt.Sprintf("%s(n=%d,k=%d), shares %v", c.V, c.N, c.K, idx), got, secret); err != nil {
				return err
			}
		}
		for i := 0; i < c.N; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			idx = append(idx, i)
			err := rec()
			idx = idx[:len(idx)-1]
			used[i] = false
			if err != nil {
				return err
			}
		}
		return nil
	}
	if err := rec(); err != nil {
		return err
	}
	o.Bulk(evals, evals)
	return nil
}

// bigCases are a few long secrets.
type bigCase struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
}

func bigCases(variants []string, quick, thorough []int) func(tier string) []bigCase {
	return func(tier string) []bigCase {
		var r []bigCase
		lens := quick
		if tier == "thorough" {
			lens = thorough
		}
		for i, l := range lens {
			for j, v := range variants {
				k := 2 + (i+j)%2
				r = append(r, bigCase{v, k + (i+2*j)%3, k, l, uint64(i*100 + j)})
			}
		}
		return r
	}
}

func runBig(o *eng.Obs, c bigCase) error {
	return runRT(o, rtCase{V: c.V, N: c.N, K: c.K, Secret: Data{Len: c.Len, Fill: "rand", Seed: c.Seed}, RNG: RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed},
		Subsets: []Subset{{"min", c.Seed}}})
}

func init() {
	eng.Add(eng.Sub{Prop: "C01", Name: "roundtrip", Configs: everywhere(allCPU...), Quick: 900, Thorough: 40000,
		Rule: "random split function, (n,k), secret (length classes around SIMD/chunk boundaries, many fills), randomness source and up to 3 selections of >= k shares in random order; non-trivial: secret longer than 1 byte and not n=k=2"},
		genRT(shamirVariants, 1<<20, 3e6), runRT)
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "all-pairs", Configs: []string{"native"},
		Rule: "every 2<=k<=n<=255, split functions in rotation (thorough: all), k random shares; every pair counts as non-trivial"},
		pairCases([]int{1, 2, 3, 5, 17}), runPairs(shamirVariants))
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "all-lengths", Configs: everywhere(allCPU...),
		Rule: "every secret length up to 1200 (thorough 5000) and around powers of two to 128 KiB, every split function; each (length, function) counts as non-trivial"},
		lenCases, runLens(shamirVariants))
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "all-subsets", Configs: []string{"native"},
		Rule: "every ordered selection of at least k shares for n<=5 (thorough 7); each selection counts"},
		subsetCases(shamirVariants), runSubsets)
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "long-secrets", Configs: []string{"native"},
		Rule: "secrets of about 1 to 4 MiB (thorough: up to 33 MiB), every split function, k in 2..3"},
		bigCases(shamirVariants, []int{1<<20 + 1, 4<<20 - 1}, []int{1 << 20, 1<<20 + 1, 4<<20 - 1, 16<<20 + 17, 33 << 20}), runBig)

	eng.AddEnum(eng.Sub{Prop: "C01", Name: "many-splits", Configs: []string{"native"},
		Rule: "thousands of splits of one-byte to few-byte secrets per (function, n, k), each combined; catches failures that need particular random coefficients or tags"},
		func(tier string) []subsetCase {
			var r []subsetCase
			reps := 1
			if tier == "thorough" {
				reps = 12
			}
			for i := 0; i < reps; i++ {
				for _, v := range shamirVariants {
					for _, nk := range [][2]int{{2, 2}, {3, 2}, {5, 3}, {19, 4}, {20, 5}, {255, 2}} {
						r = append(r, subsetCase{v, nk[0], nk[1], 1 + i%3, uint64(i*1000 + nk[0])})
					}
				}
			}
			return r
		},
		func(o *eng.Obs, c subsetCase) error {
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
			r := prng(c.Seed ^ o.Seed)
			secret := make([]byte, c.Len)
			const m = 3000
			for i := 0; i < m; i++ {
				fillRandom(secret, r.Uint64())
				sh, err := env.splitOK(c.V, secret, c.N, c.K)
				if err != nil {
					return fmt.Errorf("split %d: %v", i, err)
				}
				idx := r.Perm(c.N)[:c.K]
				got, err := shamir.Combine(choose(sh, idx))
				if err != nil {
					return fmt.Errorf("split %d: combining shares %v of %s(n=%d,k=%d) failed: %v", i, idx, c.V, c.N, c.K, err)
				}
				if err := sameSecret(fmt.Sprintf("split %d: %s(n=%d,k=%d), shares %v", i, c.V, c.N, c.K, idx), got, secret); err != nil {
					return err
				}
			}
			o.Bulk(m, m)
			return nil
		})
}
