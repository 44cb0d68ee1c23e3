package props

import (
	"bytes"
	"fmt"
	"math"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// CheckRegenerate is the oracle for one Regenerate call on arbitrary input.
// It returns the new shares if there are any.
func CheckRegenerate(o *eng.Obs, in [][]byte, num int) ([][]byte, error) {
	keep := cloneAll(in)
	got, err := shamir.Regenerate(in, num)
	if !sameAll(keep, in) {
		return nil, fmt.Errorf("Regenerate changed the shares it was given")
	}
	why := ""
	tags := map[byte]bool{}
	zeroTag := false
	switch {
	case len(in) < 2:
		why = "fewer than two shares"
	case len(in[0]) < 2:
		why = "shares shorter than two bytes"
	default:
		for _, s := range in {
			if len(s) != len(in[0]) {
				why = "shares of different lengths"
				break
			}
		}
		if why == "" {
			for _, s := range in {
				t := s[len(s)-1]
				if tags[t] {
					why = "repeated tags"
				}
				tags[t] = true
				zeroTag = zeroTag || t == 0
			}
		}
	}
	if why == "" && num < 0 {
		why = "a negative count"
	}
	if why == "" {
		tags[0] = true
		if num > 256-len(tags) {
			why = "a count for which no distinct tags are left"
		}
	}
	if why != "" {
		o.Class("must refuse: %s", why)
		if err == nil {
			return nil, fmt.Errorf("Regenerate(%d shares, %d) accepted %s and returned %d shares", len(in), num, why, len(got))
		}
		if len(got) != 0 {
			return nil, fmt.Errorf("Regenerate returned an error and %d shares", len(got))
		}
		return nil, nil
	}
	if err != nil {
		if zeroTag {
			o.Class("tag 0 refused")
			return nil, nil
		}
		return nil, fmt.Errorf("Regenerate(%d shares with tags %v, %d) failed: %v", len(in), tagsOf(in), num, err)
	}
	o.Class("regenerated")
	if len(got) != num {
		return nil, fmt.Errorf("Regenerate(%d shares, %d) returned %d shares", len(in), num, len(got))
	}
	for i, s := range got {
		if len(s) != len(in[0]) {
			return nil, fmt.Errorf("new share %d has %d bytes, the given ones %d", i, len(s), len(in[0]))
		}
		t := s[len(s)-1]
		if t == 0 {
			return nil, fmt.Errorf("new share %d has tag 0", i)
		}
		if tags[t] {
			return nil, fmt.Errorf("new share %d has tag %d, which is taken (given tags %v, new tags %v)", i, t, tagsOf(in), tagsOf(got))
		}
		tags[t] = true
		want := ref.Interpolate(in, t)
		if !bytes.Equal(want, s[:len(s)-1]) {
			return nil, fmt.Errorf("new share %d (tag %d) is not on the polynomial of the given shares: %x, want %x", i, t, head(s[:len(s)-1]), head(want))
		}
	}
	return got, nil
}

type regenStep struct {
	Sel Subset `json:"sel"` // which of the current shares to give
	Num int    `json:"num"`
}

type regenCase struct {
	V      string      `json:"v"`
	N      int         `json:"n"`
	K      int         `json:"k"`
	Secret Data        `json:"secret"`
	RNG    RNG         `json:"rng"`
	Steps  []regenStep `json:"steps"`
	Final  Subset      `json:"final"`
}

func runRegen(o *eng.Obs, c regenCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	o.Class(c.V)
	nkClass(o, c.N, c.K)
	have := map[byte]bool{}
	for _, s := range sh {
		have[s[len(s)-1]] = true
	}
	grew := 0
	for i, st := range c.Steps {
		in := choose(sh, st.Sel.pick(len(sh), c.K))
		got, err := CheckRegenerate(o, in, st.Num)
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		for _, s := range got {
			t := s[len(s)-1]
			if have[t] {
				continue // the same point again, as its tag was not among the given shares
			}
			have[t] = true
			sh = append(sh, s)
			grew++
		}
	}
	if grew > 0 {
		o.NonTrivial()
		o.Class("grew in %d steps", len(c.Steps))
	}
	// any k of old and new shares
	for i := 0; i < 3; i++ {
		f := c.Final
		f.Seed += uint64(i)
		in := choose(sh, f.pick(len(sh), c.K))
		if len(in)*len(in)*len(secret) > 4e6 {
			in = in[:c.K]
		}
		got, err := shamir.Combine(in)
		if err != nil {
			return fmt.Errorf("combining %d old and new shares failed: %v", len(in), err)
		}
		if err := sameSecret(fmt.Sprintf("combining %d old and new shares (tags %v)", len(in), tagsOf(in)), got, secret); err != nil {
			return err
		}
	}
	return nil
}

func genNum(t *rapid.T, given int) int {
	switch eng.Uniform(t, 0, 9, "numclass") {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return eng.Uniform(t, 1, 6, "num")
	case 5:
		return 255 - given
	case 6:
		return 255 - given + eng.Uniform(t, -2, 3, "numoff")
	case 7:
		return eng.Pick(t, "numodd", -1, -2, -255, -256, -300, math.MinInt, 256, 257, 300, 1000, 1<<20, math.MaxInt32, math.MaxInt)
	default:
		return eng.Uniform(t, 1, 253, "num")
	}
}

func init() {
	eng.Add(eng.Sub{Prop: "C06", Name: "chains", Configs: with32("native"), Quick: 2500, Thorough: 80000,
		Rule: "split, then 1..4 regenerations, each from a random selection of at least k of the shares made so far, with counts from 0 to all free tags and impossible ones, then combinations of old and new shares; non-trivial: at least one new share was made"},
		func(t *rapid.T) regenCase {
			c := regenCase{V: eng.Pick(t, "variant", shamirVariants...)}
			c.N, c.K = genNK(t, 255)
			if eng.Uniform(t, 0, 2, "small") > 0 {
				c.N = min(c.N, 12)
				c.K = min(c.K, c.N)
			}
			c.RNG = genRNG(t)
			for i := eng.Uniform(t, 1, 4, "steps"); i > 0; i-- {
				st := regenStep{Sel: genSubset(t)}
				g := c.K
				if st.Sel.Kind == "all" || st.Sel.Kind == "reverse" {
					g = c.N
				}
				st.Num = genNum(t, g)
				c.Steps = append(c.Steps, st)
			}
			c.Final = genSubset(t)
			// regenerating costs (given shares)^2 * new shares * length
			cost := 1
			for _, s := range c.Steps {
				if s.Num > 0 && s.Num < 256 {
					cost += s.Num
				}
			}
			c.Secret = genData(t, 3000)
			if c.Secret.Fill != "lit" {
				m := max(c.K*c.K, c.N*c.N/2)
				if top := max(2, 1_500_000/(cost*m)); c.Secret.Len > top {
					c.Secret.Len = 1 + c.Secret.Len%top
				}
			}
			return c
		}, runRegen)
	eng.Add(eng.Sub{Prop: "C06", Name: "arbitrary-input", Configs: with32("native"), Quick: 8000, Thorough: 250000,
		Rule: "arbitrary lists as for C05 (malformed, repeated tags, tag 0, up to 255 shares) with ordinary, edge and impossible counts; non-trivial: new shares were to be made or a count had to be refused"},
		func(t *rapid.T) struct {
			B   bigArb
			Num int
		} {
			b := bigArb{M: eng.Uniform(t, 0, 6, "m"), Len: eng.Uniform(t, 0, 6, "len"), Fill: eng.Pick(t, "fill", "rand", "zero", "ff"), Seed: eng.Bits(t, 16, "seed")}
			if eng.Uniform(t, 0, 3, "many") == 0 {
				b.M = eng.Pick(t, "mm", 20, 128, 250, 253, 254, 255, 256, 257)
				b.Len = eng.Uniform(t, 1, 3, "len2")
			}
			b.Mut = eng.Pick(t, "mut", "none", "none", "nonzerotags", "nonzerotags", "nonzerotags", "dup", "duptag", "alias", "short", "long", "nil", "empty", "zerotag")
			b.At = eng.Uniform(t, 0, 4000, "at")
			return struct {
				B   bigArb
				Num int
			}{b, genNum(t, b.M)}
		},
		func(o *eng.Obs, c struct {
			B   bigArb
			Num int
		}) error {
			if c.B.M >= 2 && c.B.Len >= 2 && c.Num != 0 {
				o.NonTrivial()
			}
			_, err := CheckRegenerate(o, c.B.build(), c.Num)
			return err
		})
	eng.Add(eng.Sub{Prop: "C06", Name: "low-degree", Configs: with32("native"), Quick: 2500, Thorough: 60000,
		Rule: "2..255 well-formed shares of 1 to 1100 bytes in which the bytes at a position lie on a polynomial of some lower degree, another for every position, so that at some positions fewer shares would do; every case with new shares counts"},
		func(t *rapid.T) struct {
			B   bigArb
			Num int
		} {
			b := genLowDegree(t, 400_000)
			num := eng.Pick(t, "num", 1, 1, 2, 3)
			if b.Len*b.M*b.M < 50_000 {
				num = genNum(t, b.M)
			}
			return struct {
				B   bigArb
				Num int
			}{b, num}
		},
		func(o *eng.Obs, c struct {
			B   bigArb
			Num int
		}) error {
			sh, err := CheckRegenerate(o, c.B.build(), c.Num)
			if len(sh) > 0 {
				o.NonTrivial()
			}
			return err
		})
	type fillCase struct {
		Given int    `json:"given"`
		Len   int    `json:"len"`
		Reps  int    `json:"reps"`
		Seed  uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C06", Name: "fill-up", Configs: []string{"native"},
		Rule: "for every number of given shares from 2 to 255: ask for all free tags, for one more (must be refused), and one at a time; each call counts"},
		func(tier string) []fillCase {
			var r []fillCase
			reps := 2
			if tier == "thorough" {
				reps = 30
			}
			for g := 2; g <= 255; g++ {
				r = append(r, fillCase{g, 1, reps, uint64(g)})
			}
			return r
		},
		func(o *eng.Obs, c fillCase) error {
			evals := 0
			for i := 0; i < c.Reps; i++ {
				b := bigArb{M: c.Given, Len: c.Len + 1, Fill: "rand", Seed: c.Seed ^ o.Seed + uint64(i), Mut: "nonzerotags"}
				in := b.build()
				for _, num := range []int{255 - c.Given, 256 - c.Given, 255, 1, 0} {
					if _, err := CheckRegenerate(o, in, num); err != nil {
						return err
					}
					evals++
				}
			}
			o.Bulk(evals, evals)
			return nil
		})
	type tagCase struct {
		Given int    `json:"given"`
		Num   int    `json:"num"`
		Seed  uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C06", Name: "many-calls", Configs: []string{"native"},
		Rule: "thousands of small regenerations (2..6 given one-byte shares, 1..40 new): tags nonzero and distinct, points on the polynomial; each call counts"},
		func(tier string) []tagCase {
			var r []tagCase
			n := 40
			if tier == "thorough" {
				n = 1500
			}
			for i := 0; i < n; i++ {
				r = append(r, tagCase{2 + i%5, 1 + (i*7)%40, uint64(i)})
			}
			return r
		},
		func(o *eng.Obs, c tagCase) error {
			const m = 1000
			for i := 0; i < m; i++ {
				b := bigArb{M: c.Given, Len: 2, Fill: "rand", Seed: o.Seed + uint64(i), Mut: "nonzerotags"}
				if _, err := CheckRegenerate(o, b.build(), c.Num); err != nil {
					return fmt.Errorf("call %d: %v", i, err)
				}
			}
			o.Bulk(m, m)
			return nil
		})
	eng.AddEnum(eng.Sub{Prop: "C06", Name: "last-tags", Configs: []string{"native"},
		Rule: "thousands of times all tags but one to six are given and some or all of these are asked for, so that the search for a free tag takes long; each call counts"},
		func(tier string) []tagCase {
			var r []tagCase
			n := 24
			if tier == "thorough" {
				n = 800
			}
			for i := 0; i < n; i++ {
				free := []int{1, 1, 1, 2, 3, 6}[i%6]
				r = append(r, tagCase{255 - free, 1 + i%free, uint64(i)})
			}
			return r
		},
		func(o *eng.Obs, c tagCase) error {
			const m = 400
			b := bigArb{M: c.Given, Len: 2, Fill: "rand", Seed: o.Seed + c.Seed, Mut: "nonzerotags"}
			in := b.build()
			tags := map[byte]bool{0: true}
			for _, s := range in {
				tags[s[1]] = true
			}
			for i := 0; i < m; i++ {
				sh, err := shamir.Regenerate(in, c.Num)
				if err == nil && len(sh) != c.Num {
					err = fmt.Errorf("%d shares came", len(sh))
				}
				if err != nil {
					return fmt.Errorf("call %d: Regenerate(%d shares, %d): %v", i, c.Given, c.Num, err)
				}
				have := map[byte]bool{}
				for _, s := range sh {
					t := s[len(s)-1]
					if tags[t] || have[t] {
						return fmt.Errorf("call %d: Regenerate(%d shares, %d): tag %d is taken (new tags %v)", i, c.Given, c.Num, t, tagsOf(sh))
					}
					have[t] = true
				}
			}
			o.Bulk(m, m)
			_, err := CheckRegenerate(o, in, c.Num)
			return err
		})
}
