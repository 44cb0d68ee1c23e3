package props

import (
	"bytes"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// runCase repeats one call very often, in between and afterwards the usual
// operations have to work as always: no counter of calls, successes or
// failures may change anything.
type runCase struct {
	RNG   RNG        `json:"rng"`
	Op    string     `json:"op"` // split, badsplit, combine, badcombine, regen, badregen
	V     string     `json:"v"`
	N     int        `json:"n"`
	K     int        `json:"k"`
	Len   int        `json:"len"`
	Muts  []Mutation `json:"muts,omitempty"`
	Times int        `json:"times"`
	V2    string     `json:"v2"` // used afterwards
	Seed  uint64     `json:"seed"`
}

func genRun(maxTimes int) func(t *rapid.T) runCase {
	return func(t *rapid.T) runCase {
		c := runCase{RNG: genRNG(t), Seed: eng.Bits(t, 20, "seed"),
			Op: eng.Pick(t, "op", "badcombine", "badcombine", "badcombine", "badregen", "badsplit", "split", "combine", "regen"),
			V:  eng.Pick(t, "variant", allVariants()...), V2: eng.Pick(t, "after", allVariants()...)}
		c.K = eng.Uniform(t, 2, 5, "k")
		c.N = eng.Uniform(t, c.K, 7, "n")
		c.Len = eng.Pick(t, "len", 1, 2, 5, 16, 17, 40, 100)
		c.Times = eng.Pick(t, "times", 20, 64, 65, 100, 128, 129, 256, 257, maxTimes/4, maxTimes/2, maxTimes)
		if c.Op == "badregen" || c.Op == "regen" {
			c.V = eng.Pick(t, "shamir", shamirVariants...)
		}
		switch c.Op {
		case "badcombine", "badregen":
			c.Muts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mutation {
				// those that make a call fail come more often
				m := genMutation(t)
				m.Op = eng.Pick(t, "mut", "trunc", "nil", "empty", "drop", "partid", "length", "extend", m.Op, m.Op, m.Op)
				return m
			}), 1, 3).Draw(t, "muts")
		case "badsplit":
			p := [][3]int{{0, 3, 2}, {5, 3, 4}, {5, 0, 0}, {5, 256, 2}, {5, 3, 1}, {5, -1, 2}, {5, 3, 0}}[eng.Uniform(t, 0, 6, "bad")]
			c.Len, c.N, c.K = p[0], p[1], p[2]
		}
		return c
	}
}

func runLong(o *eng.Obs, c runCase) error {
	env := newEnv(c.RNG)
	secret := Data{Len: c.Len, Fill: "rand", Seed: c.Seed}.Bytes()
	var sh [][]byte
	if c.Op != "badsplit" {
		var err error
		if sh, err = env.splitOK(c.V, secret, c.N, c.K); err != nil {
			return err
		}
		sh = sh[:c.N]
	}
	in := cloneAll(sh)
	for _, m := range c.Muts {
		in = applyMutation(in, m)
	}
	if c.Op == "combine" || c.Op == "regen" {
		in = in[:c.K]
	}
	var first []byte
	var firstErr error
	for i := 0; i < c.Times; i++ {
		var out []byte
		var err error
		switch c.Op {
		case "split", "badsplit":
			var s [][]byte
			s, err = env.split(c.V, secret, c.N, c.K)
			if c.Op == "badsplit" {
				if err == nil || len(s) != 0 {
					return fmt.Errorf("call %d: %s(%d bytes, %d, %d) returned %d shares, %v", i, c.V, c.Len, c.N, c.K, len(s), err)
				}
				continue
			}
			if err == nil {
				if isSSMS(c.V) {
					_, _, err = CheckSSMSFormat(secret, c.N, c.K, s)
				} else {
					err = ref.CheckShares(secret, c.N, c.K, s)
				}
			}
			if err != nil {
				return fmt.Errorf("call %d: %s(%d bytes, %d, %d): %v", i, c.V, c.Len, c.N, c.K, err)
			}
			continue
		case "combine", "badcombine":
			out, err = env.combine(c.V, cloneAll(in), c.N, c.K)
		default:
			// which tags the new shares get need not be the same
			_, err = shamir.Regenerate(cloneAll(in), 2)
		}
		if i == 0 {
			first, firstErr = clone(out), err
			continue
		}
		if (err == nil) != (firstErr == nil) || !bytes.Equal(out, first) {
			return fmt.Errorf("%s of the same %d shares of %s(%d bytes, %d, %d), muts %v: the first call gave %x, %v, call %d gave %x, %v", c.Op, len(in), c.V, c.Len, c.N, c.K, c.Muts, head(first), firstErr, i, head(out), err)
		}
	}
	what := fmt.Sprintf("after %d equal calls of %s (%s, %d bytes, %d, %d; failing: %v)", c.Times, c.Op, c.V, c.Len, c.N, c.K, firstErr)
	// the same sharing, undamaged, and one of another kind
	if sh != nil {
		got, err := env.combine(c.V, sh[:c.K], c.N, c.K)
		if isSSMS(c.V) {
			got, err = env.combine(c.V, sh, c.N, c.K)
		}
		if err != nil {
			return fmt.Errorf("%s: combining the same shares undamaged failed: %v", what, err)
		}
		if err := sameSecret(what, got, secret); err != nil {
			return err
		}
	}
	for _, v := range []string{c.V, c.V2} {
		sec := Data{Len: 33, Fill: "rand", Seed: c.Seed + 1}.Bytes()
		s, err := env.splitOK(v, sec, 5, 3)
		if err == nil {
			if isSSMS(v) {
				_, _, err = CheckSSMSFormat(sec, 5, 3, s)
			} else {
				err = ref.CheckShares(sec, 5, 3, s)
			}
		}
		if err != nil {
			return fmt.Errorf("%s: %s(33 bytes, 5, 3): %v", what, v, err)
		}
		got, err := env.combine(v, s[1:4], 5, 3)
		if err != nil {
			return fmt.Errorf("%s: combining shares of %s(33 bytes, 5, 3) failed: %v", what, v, err)
		}
		if err := sameSecret(what, got, sec); err != nil {
			return err
		}
		if !isSSMS(v) {
			if _, err := CheckRegenerate(o, s[:3], 2); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
	}
	o.Class("%s, failing %v", c.Op, firstErr != nil || c.Op == "badsplit")
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C21", Name: "long-runs", Configs: []string{"native"}, Quick: 2000, Thorough: 40000,
		Rule: "one split, combine or regeneration, good, impossible or with damaged shares, called 20 to 4000 times in a row: it gives the same every time, and afterwards the undamaged shares, and a new sharing of this and another kind, work as always; each case counts"},
		genRun(4000), runLong)
}
