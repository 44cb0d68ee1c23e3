package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// The cases of C19 run with the same seeds and the same pinned random bytes in
// every configuration; check.py compares the digests of what they return.

type sameCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Secret Data   `json:"secret"`
	RNG    RNG    `json:"rng"`
	Sel    Subset `json:"sel"`
}

func genSame(vs []string) func(t *rapid.T) sameCase {
	return func(t *rapid.T) sameCase {
		c := sameCase{V: eng.Pick(t, "variant", vs...), Secret: genData(t, 40000), RNG: genRNG(t), Sel: genSubset(t)}
		c.N, c.K = genNK(t, 255)
		m := c.K
		if c.Sel.Kind != "min" && c.Sel.Kind != "front" && c.Sel.Kind != "back" {
			m = c.N
		}
		l := capLen(c.Secret.Len, m, 1_200_000)
		l = min(l, 2_000_000/c.N)
		if c.V == "SplitP" { // the order in which its goroutines draw is not fixed
			l = min(l, 1024)
		}
		if l != c.Secret.Len {
			c.Secret = Data{Len: l, Fill: "rand", Seed: c.Secret.Seed}
		}
		return c
	}
}

// twice runs f from the same random state two times. If the results differ the
// code draws from elsewhere (or in no fixed order) and the case is left out of
// the comparison.
func twice(o *eng.Obs, f func() ([][]byte, error)) error {
	eng.PinRandomness(o.Seed)
	a, err := f()
	if err != nil {
		return err
	}
	eng.PinRandomness(o.Seed)
	b, err := f()
	if err != nil {
		return err
	}
	if !sameAll(a, b) {
		o.Class("not reproducible")
		o.NoDigest()
		return nil
	}
	o.Digest(a...)
	return nil
}

func runSame(o *eng.Obs, c sameCase) error {
	secret := c.Secret.Bytes()
	o.Class(c.V)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	if len(secret) >= 16 {
		o.NonTrivial()
	}
	return twice(o, func() ([][]byte, error) {
		env := newEnv(c.RNG)
		sh, err := env.split(c.V, clone(secret), c.N, c.K)
		if err != nil {
			return nil, fmt.Errorf("%s(%d bytes, %d, %d) failed: %v", c.V, len(secret), c.N, c.K, err)
		}
		out := cloneAll(sh)
		if len(sh) < c.N {
			return out, nil // other properties' business
		}
		given := choose(sh, c.Sel.pick(c.N, c.K))
		got, err := env.combine(c.V, given, c.N, c.K)
		out = append(out, []byte(fmt.Sprint(err == nil)), got)
		if !isSSMS(c.V) {
			more, err := shamir.Regenerate(given, min(2, 255-len(given)))
			out = append(append(out, []byte(fmt.Sprint(err == nil))), more...)
		}
		return out, nil
	})
}

type foreignCase struct {
	N    int    `json:"n"`
	K    int    `json:"k"`
	M    int    `json:"m"`
	Len  int    `json:"len"`
	SSMS bool   `json:"ssms"`
	Seed uint64 `json:"seed"`
}

// runForeign combines shares that were made elsewhere (by the reference), also
// ones that do not fit together.
func runForeign(o *eng.Obs, c foreignCase) error {
	r := prng(c.Seed)
	o.NonTrivial()
	if c.SSMS {
		secret := make([]byte, c.Len)
		fillRandom(secret, c.Seed)
		key := make([]byte, ref.KeyLen)
		fillRandom(key, c.Seed+1)
		tags := make([]byte, c.N)
		for i, t := range r.Perm(255)[:c.N] {
			tags[i] = byte(t + 1)
		}
		sh := ref.SSMSEncode(secret, c.N, c.K, key, refCoef("rand", c.K, 20, c.Seed), tags)
		idx := r.Perm(c.N)[:c.K]
		got, err := krawczyk.Combine(choose(sh, idx), c.N, c.K)
		o.Digest([]byte(fmt.Sprint(err == nil)), got)
		return nil
	}
	sh := make([][]byte, c.M)
	for i, t := range r.Perm(255)[:c.M] {
		sh[i] = make([]byte, c.Len+1)
		fillRandom(sh[i], c.Seed*300+uint64(i))
		sh[i][c.Len] = byte(t + 1)
	}
	return twice(o, func() ([][]byte, error) {
		got, err := shamir.Combine(sh)
		out := [][]byte{[]byte(fmt.Sprint(err == nil)), got}
		more, err := shamir.Regenerate(sh, min(3, 255-c.M))
		return append(append(out, []byte(fmt.Sprint(err == nil))), more...), nil
	})
}

type sameVecCase struct {
	C    byte   `json:"c"`
	A    Data   `json:"a"`
	Seed uint64 `json:"seed"`
}

func init() {
	cfg := vecConfigs
	eng.Add(eng.Sub{Prop: "C19", Name: "splits", Configs: everywhere(cfg...), SameSeed: true, Digest: true, Quick: 4000, Thorough: 120000,
		Rule: "random split function, (n,k), secret, source: the same random bytes in each configuration (AVX2, SSSE3, SSE2, scalar, pure Go); shares, combined secret and regenerated shares must be the same; non-trivial: at least 16 bytes"},
		genSame(append(append([]string{}, shamirVariants...), ssmsVariants...)), runSame)
	eng.Add(eng.Sub{Prop: "C19", Name: "foreign", Configs: everywhere(cfg...), SameSeed: true, Digest: true, Quick: 3000, Thorough: 60000,
		Rule: "combine and regenerate from shares made by the reference or at random, in each configuration; every case counts"},
		func(t *rapid.T) foreignCase {
			c := foreignCase{SSMS: eng.Uniform(t, 0, 2, "ssms") == 0, Seed: eng.Bits(t, 24, "seed")}
			c.N, c.K = genNK(t, 60)
			c.M = eng.Uniform(t, 2, 60, "m")
			c.Len = min(genLen(t, 6000), 200000/(c.N*c.K)+1)
			if !c.SSMS {
				c.Len = min(c.Len, 250_000/(c.M*c.M)+1)
			}
			return c
		}, runForeign)
	eng.Add(eng.Sub{Prop: "C19", Name: "vectors", Configs: everywhere(cfg...), SameSeed: true, Digest: true, Quick: 6000, Thorough: 200000,
		Rule: "constants times vectors and sums of vectors in each configuration; non-trivial: at least 16 bytes"},
		func(t *rapid.T) sameVecCase {
			return sameVecCase{byte(eng.Uniform(t, 0, 255, "c")), genData(t, 70000), eng.Bits(t, 20, "seed")}
		},
		func(o *eng.Obs, c sameVecCase) error {
			a := c.A.Bytes()
			b := make([]byte, len(a))
			fillRandom(b, c.Seed)
			o.Digest(galois.AddVector(clone(a), b))
			o.Digest(galois.MulConstVector(c.C, clone(a)))
			if len(a) >= 16 {
				o.NonTrivial()
			}
			return nil
		})
}
