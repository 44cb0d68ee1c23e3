package props

import (
	"bytes"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

type mixStep struct {
	Op    string     `json:"op"`
	V     string     `json:"v,omitempty"`
	N     int        `json:"n,omitempty"`
	K     int        `json:"k,omitempty"`
	Len   int        `json:"len,omitempty"`
	Fill  string     `json:"fill,omitempty"`
	Sel   Subset     `json:"sel"`
	Num   int        `json:"num,omitempty"`
	Muts  []Mutation `json:"muts,omitempty"`
	Which int        `json:"which"`
	Seed  uint64     `json:"seed"`
}

type mixCase struct {
	RNG   RNG       `json:"rng"`
	Steps []mixStep `json:"steps"`
}

func genMixStep() *rapid.Generator[mixStep] {
	return rapid.Custom(func(t *rapid.T) mixStep {
		s := mixStep{Op: eng.Pick(t, "op", "split", "split", "split", "split", "combine", "combine", "combine", "regen", "badsplit", "badcombine", "badcombine", "badregen", "panic", "draw"), Seed: eng.Bits(t, 20, "seed"), Which: eng.Uniform(t, 0, 60, "which")}
		switch s.Op {
		case "split":
			s.V = eng.Pick(t, "variant", allVariants()...)
			s.N, s.K = genNK(t, 255)
			s.Fill = eng.Pick(t, "fill", fills...)
			s.Len = genLen(t, 20000)
			switch eng.Uniform(t, 0, 9, "size") {
			case 0, 1, 2: // tiny after big
				s.Len = eng.Uniform(t, 1, 20, "tiny")
			case 3: // big, with few shares
				s.N = eng.Uniform(t, 2, 4, "n")
				s.K = eng.Uniform(t, 2, s.N, "k")
				s.Len = eng.Uniform(t, 20000, 200000, "big")
			}
			s.Len = max(1, min(s.Len, 1_000_000/s.N, 2_500_000/(s.K*s.K)))
		case "badsplit":
			s.V = eng.Pick(t, "variant", allVariants()...)
			s.N, s.K = genOddInt(t, "n"), genOddInt(t, "k")
			s.Len = eng.Pick(t, "len", 0, 1, 100, 5000)
			if s.K >= 2 && s.K <= s.N && s.N <= 255 {
				s.Len = 0
			}
		case "combine":
			s.Sel = genSubset(t)
		case "regen":
			s.Sel = genSubset(t)
			s.Num = eng.Pick(t, "num", 0, 1, 2, 5, 5, 255)
		case "badcombine", "badregen":
			s.Sel = genSubset(t)
			s.Num = eng.Pick(t, "num", -1, 0, 2, 300)
			s.Muts = rapid.SliceOfN(rapid.Custom(genMutation), 1, 3).Draw(t, "muts")
		}
		return s
	})
}

func genMutation(t *rapid.T) Mutation {
	return Mutation{eng.Pick(t, "op", mutOps...), eng.Uniform(t, 0, 30, "i"), eng.Uniform(t, 0, 700, "j"), eng.Uniform(t, 0, 255, "v")}
}

// runMix runs a history in which every single operation is checked as if it
// stood alone.
func runMix(o *eng.Obs, c mixCase) error {
	env := newEnv(c.RNG)
	rz := randomizer.NewRandomizer()
	var all []*sharing
	var kinds = map[string]bool{}
	for i, s := range c.Steps {
		at := fmt.Sprintf("step %d %s", i, s.Op)
		r := prng(s.Seed)
		var x *sharing
		if len(all) > 0 {
			x = all[s.Which%len(all)]
		}
		switch s.Op {
		case "split":
			secret := Data{Len: s.Len, Fill: s.Fill, Seed: s.Seed}.Bytes()
			sh, err := env.splitOK(s.V, secret, s.N, s.K)
			at = fmt.Sprintf("step %d, %s(%d bytes, %d, %d)", i, s.V, s.Len, s.N, s.K)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			switch {
			case !isSSMS(s.V):
				err = ref.CheckShares(secret, s.N, s.K, sh)
			default:
				_, _, err = CheckSSMSFormat(secret, s.N, s.K, sh)
			}
			if err != nil {
				return fmt.Errorf("%s after other operations: %v", at, err)
			}
			all = append(all, &sharing{v: s.V, n: s.N, k: s.K, secret: secret, live: sh, keep: cloneAll(sh)})
		case "badsplit":
			sh, err := env.split(s.V, make([]byte, s.Len), s.N, s.K)
			if err == nil || len(sh) != 0 {
				return fmt.Errorf("%s: %s(%d bytes, %d, %d) returned %d shares, %v", at, s.V, s.Len, s.N, s.K, len(sh), err)
			}
		case "combine":
			if x == nil {
				continue
			}
			idx := s.Sel.pick(x.n, x.k)
			if len(idx)*len(idx)*len(x.secret) > 3_000_000 {
				idx = idx[:x.k]
			}
			if !sameAll(x.live, x.keep) {
				return fmt.Errorf("%s: the shares of an earlier %s changed", at, x.v)
			}
			got, err := env.combine(x.v, choose(x.live, idx), x.n, x.k)
			if err != nil {
				return fmt.Errorf("%s: combining shares of %s(%d bytes, %d, %d) failed: %v", at, x.v, len(x.secret), x.n, x.k, err)
			}
			if err := sameSecret(at, got, x.secret); err != nil {
				return err
			}
		case "regen":
			if x == nil || isSSMS(x.v) {
				continue
			}
			idx := s.Sel.pick(x.n, x.k)
			if len(idx)*len(idx)*len(x.secret) > 500_000 {
				continue
			}
			num := min(s.Num, 255-len(idx))
			if num > 5 && len(idx)*len(idx)*len(x.secret) > 10_000 {
				num = 5
			}
			if _, err := CheckRegenerate(o, choose(x.live, idx), num); err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
		case "badcombine", "badregen":
			if x == nil {
				continue
			}
			idx := s.Sel.pick(x.n, x.k)
			if len(idx)*len(idx)*len(x.secret) > 300_000 {
				idx = idx[:min(len(idx), 3)]
				if 9*len(x.secret) > 300_000 {
					continue
				}
			}
			in := cloneAll(choose(x.keep, idx))
			for _, m := range s.Muts {
				in = applyMutation(in, m)
			}
			var err error
			switch {
			case isSSMS(x.v):
				_, _, err = CheckSSMSCombine(o, in, x.n, x.k, r.IntN(2) == 0)
			case s.Op == "badregen":
				_, err = CheckRegenerate(o, in, s.Num)
			default:
				err = CheckCombine(o, in, r.IntN(2) == 0)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
		case "panic":
			// operations that end in a panic the caller recovers from
			for _, f := range []func(){
				func() { galois.GalDivide(1+byte(r.IntN(255)), 0) },
				func() { galois.AddVector(make([]byte, 40), make([]byte, r.IntN(40))) },
				func() { galois.AddVectorGeneric(make([]byte, r.IntN(300)), make([]byte, 301)) },
				func() { csprng.NewCSPRNGWithKeyIV(make([]byte, r.IntN(16))) },
			} {
				func() {
					defer func() { _ = recover() }()
					f()
				}()
			}
		case "draw":
			n := r.IntN(256)
			for _, p := range [][]byte{env.R.Perm(byte(n)), rz.Perm(byte(n))} {
				if err := checkDistinct("Perm", n, p); err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
			}
			if err := checkDistinct("GetUniqueBytes", n, env.R.GetUniqueBytes(byte(n))); err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			v := make([]byte, r.IntN(1000))
			fillRandom(v, s.Seed)
			k := byte(r.IntN(256))
			want := make([]byte, len(v))
			for j := range v {
				want[j] = ref.Mul(k, v[j])
			}
			if got := galois.MulConstVector(k, v); !bytes.Equal(got, want) {
				return fmt.Errorf("%s: MulConstVector(%d) of %d bytes is wrong", at, k, len(v))
			}
		}
		kinds[s.Op] = true
	}
	for _, x := range all {
		if !sameAll(x.live, x.keep) {
			return fmt.Errorf("the shares of an earlier %s(%d bytes, %d, %d) changed", x.v, len(x.secret), x.n, x.k)
		}
		got, err := env.combine(x.v, x.live[x.n-x.k:], x.n, x.k)
		if isSSMS(x.v) && len(x.secret)%2 == 0 {
			got, err = krawczyk.Combine(x.live[:x.k], x.n, x.k)
		} else if !isSSMS(x.v) && x.k == 2 {
			got, err = shamir.Combine([][]byte{x.live[x.n-1], x.live[0]})
		}
		if err != nil {
			return fmt.Errorf("at the end: combining shares of %s(%d bytes, %d, %d) failed: %v", x.v, len(x.secret), x.n, x.k, err)
		}
		if err := sameSecret("at the end", got, x.secret); err != nil {
			return err
		}
	}
	for k := range kinds {
		o.Class("has %s", k)
	}
	if len(all) >= 2 && len(kinds) >= 3 {
		o.NonTrivial()
	}
	return nil
}

type genOp struct {
	G   int    `json:"g"`
	Op  string `json:"op"` // read, perm, unique, split
	Len int    `json:"len"`
}

type genCase struct {
	Keyed int     `json:"keyed"`
	Fresh int     `json:"fresh"`
	Kind  string  `json:"kind"`
	Seed  uint64  `json:"seed"`
	Ops   []genOp `json:"ops"`
}

// runGenerators uses several generators in turn; then those with a key are
// made again and used alone.
func runGenerators(o *eng.Obs, c genCase) error {
	newGen := func(i int) *csprng.CSPRNG {
		if i < c.Keyed {
			return csprng.NewCSPRNGWithKeyIV(RNG{Kind: c.Kind, Seed: c.Seed + uint64(i)}.KeyIV())
		}
		return csprng.NewCSPRNG()
	}
	use := func(g *csprng.CSPRNG, op genOp) []byte {
		switch op.Op {
		case "perm":
			return g.Perm(byte(op.Len))
		case "unique":
			return g.GetUniqueBytes(byte(op.Len))
		}
		b := make([]byte, op.Len)
		_, _ = g.Read(b)
		return b
	}
	gs := make([]*csprng.CSPRNG, c.Keyed+c.Fresh)
	for i := range gs {
		gs[i] = newGen(i)
	}
	first := make([][]byte, len(c.Ops))
	users := map[int]bool{}
	for i, op := range c.Ops {
		g := gs[op.G%len(gs)]
		if op.Op == "split" {
			// with a source of its own
			if _, err := newEnv(RNG{Kind: "new"}).splitOK("worker", []byte("a secret"), 2+op.Len%10, 2); err != nil {
				return err
			}
			continue
		}
		first[i] = use(g, op)
		users[op.G%len(gs)] = true
	}
	if len(users) > 1 {
		o.NonTrivial()
	}
	for x := 0; x < c.Keyed; x++ {
		g := newGen(x)
		for i, op := range c.Ops {
			if op.G%len(gs) != x || op.Op == "split" {
				continue
			}
			if got := use(g, op); !bytes.Equal(got, first[i]) {
				return fmt.Errorf("op %d, %s %d: generator %d gave %x while others were in use, and %x for the same key and calls alone", i, op.Op, op.Len, x, head(first[i]), head(got))
			}
		}
	}
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C21", Name: "histories", Configs: with32("native", "ssse3", "noasm"), Quick: 2500, Thorough: 60000,
		Rule: "5 to 40 operations with changing functions, sizes (1 byte to 200 KB), counts and thresholds: splits, combines, regenerations, refused parameters, damaged shares, recovered panics, permutations; every single result is checked against the reference, and all sharings are combined again at the end; non-trivial: at least two splits and three kinds of operation"},
		func(t *rapid.T) mixCase {
			return mixCase{RNG: genRNG(t), Steps: rapid.SliceOfN(genMixStep(), 5, 40).Draw(t, "steps")}
		}, runMix)
	eng.Add(eng.Sub{Prop: "C21", Name: "generators", Configs: with32("native"), Quick: 4000, Thorough: 120000,
		Rule: "2 to 60 reads, permutations and unique-byte requests on 1 to 4 generators with keys and up to 2 without, in turn, with splits between: each generator with a key gives the same as another one with that key that is used alone; non-trivial: two generators or more were used"},
		func(t *rapid.T) genCase {
			c := genCase{Keyed: eng.Uniform(t, 1, 4, "keyed"), Fresh: eng.Uniform(t, 0, 2, "fresh"), Kind: eng.Pick(t, "kind", "keyiv", "keyiv", "ivlow", "ivhigh"), Seed: eng.Bits(t, 20, "seed")}
			c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) genOp {
				op := genOp{G: eng.Uniform(t, 0, 5, "g"), Op: eng.Pick(t, "op", "read", "read", "perm", "unique", "unique", "unique", "split")}
				switch op.Op {
				case "read":
					op.Len = eng.Pick(t, "len", 0, 1, 5, 15, 16, 17, 64, 255, 1000, 5000)
				case "unique":
					op.Len = eng.Pick(t, "count", 1, 2, 8, 19, 20, 21, 100, 254, 255)
				default:
					op.Len = eng.Uniform(t, 0, 255, "n")
				}
				return op
			}), 2, 60).Draw(t, "ops")
			return c
		}, runGenerators)
}
