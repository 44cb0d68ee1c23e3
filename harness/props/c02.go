package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

type splitCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Secret Data   `json:"secret"`
	RNG    RNG    `json:"rng"`
}

func genSplit(variants []string, maxLen, budget int) func(t *rapid.T) splitCase {
	return func(t *rapid.T) splitCase {
		c := splitCase{V: eng.Pick(t, "variant", variants...)}
		c.N, c.K = genNK(t, 255)
		c.Secret = genData(t, maxLen)
		if c.Secret.Fill != "lit" {
			if top := max(64, budget/(c.N*c.K)); c.Secret.Len > top {
				c.Secret.Len = 1 + c.Secret.Len%top
			}
		}
		c.RNG = genRNG(t)
		return c
	}
}

func runWellFormed(o *eng.Obs, c splitCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	o.Class(c.V)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	if c.N > c.K || len(secret) > 1 {
		o.NonTrivial()
	}
	if err := ref.CheckShares(secret, c.N, c.K, sh); err != nil {
		return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, len(secret), c.N, c.K, err)
	}
	return nil
}

// refCase is a sharing made by the reference implementation.
type refCase struct {
	K      int      `json:"k"`
	Tags   []byte   `json:"tags"` // base64 in JSON
	Secret Data     `json:"secret"`
	Seed   uint64   `json:"seed"`
	Coef   string   `json:"coef"` // rand, zero, topzero, ff
	Use    []Subset `json:"use"`
}

func genTags(t *rapid.T, n int) []byte {
	var tags []byte
	switch eng.Uniform(t, 0, 3, "tagkind") {
	case 0: // 1..n
		for i := 1; i <= n; i++ {
			tags = append(tags, byte(i))
		}
	case 1: // the top n
		for i := 0; i < n; i++ {
			tags = append(tags, byte(255-i))
		}
	default:
		r := prng(eng.Bits(t, 16, "tagseed"))
		for _, x := range r.Perm(255)[:n] {
			tags = append(tags, byte(x+1))
		}
	}
	return tags
}

func genRef(t *rapid.T) refCase {
	n, k := genNK(t, 255)
	c := refCase{K: k, Tags: genTags(t, n), Secret: genData(t, 8192), Seed: eng.Bits(t, 16, "seed"),
		Coef: eng.Pick(t, "coef", "rand", "rand", "rand", "zero", "topzero", "ff")}
	if c.Secret.Fill != "lit" {
		c.Secret.Len = capLen(c.Secret.Len, n, 2e6)
	}
	c.Use = rapid.SliceOfN(rapid.Custom(genSubset), 1, 3).Draw(t, "use")
	return c
}

func refCoef(kind string, k, l int, seed uint64) [][]byte {
	buf := make([]byte, l*k)
	switch kind {
	case "zero":
	case "ff":
		for i := range buf {
			buf[i] = 0xff
		}
	default:
		fillRandom(buf, seed)
	}
	m := make([][]byte, l)
	for p := range m {
		m[p] = buf[p*k : (p+1)*k : (p+1)*k]
		if kind == "topzero" {
			m[p][k-1] = 0
		}
	}
	return m
}

func runRef(o *eng.Obs, c refCase) error {
	secret := c.Secret.Bytes()
	coef := refCoef(c.Coef, c.K, len(secret), c.Seed)
	for p := range secret {
		coef[p][0] = secret[p]
	}
	sh := ref.Shares(coef, c.Tags)
	n := len(c.Tags)
	nkClass(o, n, c.K)
	lenClass(o, len(secret))
	o.Class("coef %s", c.Coef)
	if c.Coef == "rand" {
		o.NonTrivial()
	}
	w := worker.NewWorker()
	for _, u := range c.Use {
		idx := u.pick(n, c.K)
		in := choose(sh, idx)
		got, err := shamir.Combine(in)
		if err != nil {
			return fmt.Errorf("Combine refused %d well-formed shares of a threshold %d sharing: %v", len(in), c.K, err)
		}
		if err := sameSecret(fmt.Sprintf("Combine of %d independently made shares (k=%d, tags %v)", len(in), c.K, tagsOf(in)), got, secret); err != nil {
			return err
		}
		got, err = w.Combine(worker.AlgShamir, in, n, c.K)
		if err != nil {
			return fmt.Errorf("worker.Combine refused %d well-formed shares of a threshold %d sharing: %v", len(in), c.K, err)
		}
		if err := sameSecret("worker.Combine of independently made shares", got, secret); err != nil {
			return err
		}
	}
	return nil
}

func tagsOf(sh [][]byte) []byte {
	var r []byte
	for _, s := range sh {
		r = append(r, s[len(s)-1])
	}
	return r
}

func init() {
	eng.Add(eng.Sub{Prop: "C02", Name: "wellformed", Configs: everywhere(allCPU...), Quick: 1200, Thorough: 40000,
		Rule: "random split as for C01; all n shares are checked against independent interpolation through the first k; non-trivial: more shares than the threshold or more than one byte"},
		genSplit(shamirVariants, 300000, 1e7), runWellFormed)
	eng.Add(eng.Sub{Prop: "C02", Name: "foreign-shares", Configs: with32("native"), Quick: 1500, Thorough: 40000,
		Rule: "shares built by the reference encoder with chosen tags (1..n, 255 downwards, random) and coefficients (random, zero, top zero, ff); any >= k of them must combine; non-trivial: random coefficients"},
		genRef, runRef)
	eng.AddEnum(eng.Sub{Prop: "C02", Name: "all-pairs", Configs: []string{"native"},
		Rule: "every 2<=k<=n<=255 with a short secret, split functions in rotation (thorough: all); all n shares checked; every pair counts"},
		pairCases([]int{1, 2, 3}), func(o *eng.Obs, c pairCase) error {
			r := prng(c.Seed ^ o.Seed)
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
			evals := 0
			for k := c.Kmin; k <= c.Kmax; k++ {
				vs := shamirVariants
				if !c.All {
					vs = []string{shamirVariants[(k+c.N+1)%len(shamirVariants)], shamirVariants[r.IntN(len(shamirVariants))]}
				}
				for _, v := range vs {
					secret := Data{Len: c.L[r.IntN(len(c.L))], Fill: "rand", Seed: r.Uint64()}.Bytes()
					sh, err := env.splitOK(v, secret, c.N, k)
					if err != nil {
						return err
					}
					if err := ref.CheckShares(secret, c.N, k, sh); err != nil {
						return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", v, len(secret), c.N, k, err)
					}
					evals++
				}
			}
			o.Bulk(evals, evals)
			return nil
		})
	eng.AddEnum(eng.Sub{Prop: "C02", Name: "all-lengths", Configs: everywhere(allCPU...),
		Rule: "every length up to 1200 (thorough 5000) and around powers of two, every split function, 2<=k<=6, n<=k+6: all shares checked byte by byte"},
		lenCases, func(o *eng.Obs, c lenCase) error {
			r := prng(c.Seed ^ o.Seed)
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
			evals := 0
			for l := c.From; l <= c.To; l += c.Step {
				for _, v := range shamirVariants {
					k := 2 + r.IntN(5)
					n := k + r.IntN(7)
					secret := Data{Len: l, Fill: "rand", Seed: r.Uint64()}.Bytes()
					sh, err := env.splitOK(v, secret, n, k)
					if err != nil {
						return err
					}
					if err := ref.CheckShares(secret, n, k, sh); err != nil {
						return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", v, l, n, k, err)
					}
					evals++
				}
			}
			o.Bulk(evals, evals)
			return nil
		})
	type tagsCase struct {
		V    string `json:"v"`
		N    int    `json:"n"`
		K    int    `json:"k"`
		Seed uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C02", Name: "tags", Configs: []string{"native"},
		Rule: "thousands of splits per (function, n) with n from 2 to 255: tags nonzero and distinct, points on one polynomial (n<=24), from one long-lived source; each split counts"},
		func(tier string) []tagsCase {
			var r []tagsCase
			reps := 1
			if tier == "thorough" {
				reps = 20
			}
			for i := 0; i < reps; i++ {
				for _, v := range shamirVariants {
					for _, n := range []int{2, 3, 5, 10, 18, 19, 20, 21, 100, 254, 255} {
						r = append(r, tagsCase{v, n, 2 + (n+i)%2*(n-2), uint64(i*1000 + n)})
					}
				}
			}
			return r
		},
		func(o *eng.Obs, c tagsCase) error {
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
			m := 2000
			if c.N > 24 {
				m = 600
				if c.K > 24 {
					m = 100
				}
			}
			for i := 0; i < m; i++ {
				secret := []byte{byte(i)}
				sh, err := env.splitOK(c.V, secret, c.N, c.K)
				if err != nil {
					return fmt.Errorf("split %d: %v", i, err)
				}
				if err := ref.CheckShares(secret, c.N, c.K, sh); err != nil {
					return fmt.Errorf("split %d of %s(1 byte, n=%d, k=%d): %v", i, c.V, c.N, c.K, err)
				}
			}
			o.Bulk(m, m)
			return nil
		})
}
