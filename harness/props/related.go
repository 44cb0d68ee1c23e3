package props

import (
	"bytes"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// The cases here call the same function with inputs that are nearly the same:
// anything remembered from one call under too coarse a key shows in the next.

type relStep struct {
	Op   string `json:"op"`   // combine, regenerate, split, ssms, ssmsCombine
	How  string `json:"how"`  // what is changed in the inputs of the start
	At   int    `json:"at"`   //
	By   int    `json:"by"`   //
	V    string `json:"v"`    // split variant
	N    int    `json:"n"`    // 0: that of the start
	K    int    `json:"k"`    //
	Keep bool   `json:"keep"` // go on from the changed inputs
}

type relSeq struct {
	N     int       `json:"n"`
	K     int       `json:"k"`
	Len   int       `json:"len"`
	Seed  uint64    `json:"seed"`
	Steps []relStep `json:"steps"`
}

func genRelSeq(t *rapid.T) relSeq {
	c := relSeq{Len: eng.Pick(t, "len", 1, 2, 5, 16, 17, 20, 33, 64, 100, 1500), Seed: eng.Bits(t, 20, "seed")}
	c.N, c.K = genNK(t, eng.Pick(t, "maxn", 4, 6, 10, 30))
	c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) relStep {
		s := relStep{Op: eng.Pick(t, "op", "combine", "combine", "combine", "regenerate", "split", "ssms", "ssmsCombine", "ssmsCombine"), How: eng.Pick(t, "how", "same", "bit", "byte", "swapBytes", "xorPair", "sumPair", "order", "swapTags", "fewer", "reuseArray", "lastByte", "shorter"),
			At: eng.Uniform(t, 0, 5000, "at"), By: eng.Uniform(t, 1, 255, "by"), Keep: rapid.Bool().Draw(t, "keep")}
		s.V = eng.Pick(t, "v", append(append([]string{}, shamirVariants...), ssmsVariants...)...)
		if eng.Uniform(t, 0, 2, "othernk") == 0 {
			s.N, s.K = genNK(t, 12)
		}
		return s
	}), 3, 16).Draw(t, "steps")
	return c
}

// tweak changes data that has the same length in all rows.
func tweak(rows [][]byte, how string, at, by int, r func(int) int) [][]byte {
	i, j := r(len(rows)), r(len(rows))
	if len(rows) > 1 && i == j {
		j = (i + 1) % len(rows)
	}
	l := len(rows[i])
	p := at % l
	switch how {
	case "bit":
		rows[i][p] ^= 1 << (by % 8)
	case "byte":
		rows[i][p] = byte(by)
	case "lastByte":
		rows[i][l-1] ^= byte(by)
	case "swapBytes":
		q := (p + 1) % l
		rows[i][p], rows[i][q] = rows[i][q], rows[i][p]
	case "xorPair": // the XOR over the rows stays
		rows[i][p] ^= byte(by)
		rows[j][p] ^= byte(by)
	case "sumPair": // the sum over the rows stays
		rows[i][p] += byte(by)
		rows[j][p] -= byte(by)
	case "order":
		rows[i], rows[j] = rows[j], rows[i]
	case "swapTags":
		rows[i][l-1], rows[j][l-1] = rows[j][l-1], rows[i][l-1]
	case "fewer":
		if len(rows) > 2 {
			rows = append(rows[:i], rows[i+1:]...)
		}
	case "shorter":
		if l > 3 {
			for i := range rows {
				rows[i] = append(rows[i][:p:p], rows[i][p+1:]...)
			}
		}
	}
	return rows
}

func runRelSeq(o *eng.Obs, c relSeq) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	r := prng(c.Seed)
	secret := make([]byte, c.Len)
	fillRandom(secret, c.Seed)
	// the starting lists; the split is the library's own
	sh, err := env.splitOK("SplitWithRandomizer", secret, c.N, c.K)
	if err != nil {
		return err
	}
	shares := cloneAll(sh[:c.K])
	xs, err := env.splitOK("ssmsR", secret, c.N, c.K)
	if err != nil {
		return err
	}
	ssmsShares := cloneAll(xs)
	calls := map[string]int{}
	for si, s := range c.Steps {
		at := fmt.Sprintf("step %d, %s %s", si, s.Op, s.How)
		calls[s.Op]++
		switch s.Op {
		case "combine", "regenerate":
			in := shares
			if s.How != "reuseArray" { // else: the same arrays with new content
				in = cloneAll(shares)
			} else {
				for _, x := range in {
					x[s.At%len(x)] ^= byte(s.By)
				}
			}
			in = tweak(in, s.How, s.At, s.By, r.IntN)
			if s.Op == "combine" {
				if err := CheckCombine(o, in, si%2 == 1); err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
			} else if err := checkRegenerated(in, 1+s.By%3); err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			if s.Keep && len(in) >= 2 {
				shares = in
			}
		case "split", "ssms":
			in := clone(secret)
			if s.How == "reuseArray" {
				in = secret
				in[s.At%len(in)] ^= byte(s.By)
			}
			if s.How != "fewer" && s.How != "order" && s.How != "swapTags" {
				in = tweak([][]byte{in}, s.How, s.At, s.By, r.IntN)[0]
			}
			n, k := c.N, c.K
			if s.N != 0 {
				n, k = s.N, s.K
			}
			v := s.V
			if s.Op == "ssms" && !isSSMS(v) {
				v = ssmsVariants[s.At%3]
			}
			keep := clone(in)
			sh, err := env.splitOK(v, in, n, k)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			if isSSMS(v) {
				_, _, err = CheckSSMSFormat(keep, n, k, sh)
			} else {
				err = ref.CheckShares(keep, n, k, sh)
			}
			if err != nil {
				return fmt.Errorf("%s(%s, %d bytes, n=%d, k=%d): %v", at, v, len(in), n, k, err)
			}
			if s.Keep {
				secret = in
			}
		case "ssmsCombine":
			// flip bytes of the coded data, or of the whole share, and compare with
			// the independent decoder
			in := ssmsShares
			if s.How == "reuseArray" {
				for _, x := range in[:c.N] {
					x[ref.MetaLen+s.At%(len(x)-ref.MetaLen-1)] ^= byte(s.By)
				}
			} else {
				in = cloneAll(ssmsShares)
				if s.How != "swapTags" && s.How != "shorter" && s.How != "fewer" {
					// not the part numbers
					bodies := make([][]byte, len(in))
					for i := range in {
						bodies[i] = in[i][:len(in[i])-1]
					}
					how := s.How
					if how == "order" {
						in[0], in[len(in)-1] = in[len(in)-1], in[0]
						how = "same"
					}
					p := s.At % len(bodies[0])
					if p >= 16 && p < ref.MetaLen { // leave length and tags alone
						p = ref.MetaLen
					}
					if how == "swapBytes" || how == "lastByte" {
						how = "bit"
					}
					tweak(bodies, how, p, s.By, r.IntN)
				}
			}
			idx := r.Perm(len(in))[:c.K]
			use := choose(in, idx)
			m := ref.RSMatrix(c.N, c.K)
			want, err := ref.SSMSDecode(use, c.N, c.K, m)
			if err != nil {
				return &eng.HarnessError{Err: err}
			}
			got, err := krawczyk.Combine(use, c.N, c.K)
			if err != nil {
				return fmt.Errorf("%s: %v", at, err)
			}
			if !bytes.Equal(got, want.Secret) {
				return fmt.Errorf("%s: shares %v of %d, k=%d: got %x, want %x", at, idx, c.N, c.K, head(got), head(want.Secret))
			}
			if s.Keep {
				ssmsShares = in
			}
		}
	}
	for _, m := range calls {
		if m >= 2 {
			o.NonTrivial()
		}
	}
	for op := range calls {
		o.Class("%s", op)
	}
	return nil
}

// checkRegenerated regenerates m shares and checks them against the points given.
func checkRegenerated(in [][]byte, m int) error {
	l := len(in[0])
	seen := map[byte]bool{}
	dup := false
	for _, s := range in {
		if len(s) != l {
			return &eng.HarnessError{Err: fmt.Errorf("lengths differ")}
		}
		dup = dup || seen[s[l-1]]
		seen[s[l-1]] = true
	}
	keep := cloneAll(in)
	out, err := shamir.Regenerate(in, m)
	for i := range in {
		if !bytes.Equal(in[i], keep[i]) {
			return fmt.Errorf("Regenerate changed share %d", i)
		}
	}
	if dup || l < 2 {
		if err == nil {
			return fmt.Errorf("Regenerate accepted repeated tags")
		}
		return nil
	}
	if err != nil && seen[0] {
		return nil // a share with tag 0 may be refused
	}
	if err != nil {
		return fmt.Errorf("Regenerate of %d from %d shares failed: %v", m, len(in), err)
	}
	if len(out) != m {
		return fmt.Errorf("Regenerate returned %d shares, not %d", len(out), m)
	}
	for i, s := range out {
		if len(s) != l {
			return fmt.Errorf("new share %d has %d bytes, not %d", i, len(s), l)
		}
		t := s[l-1]
		if t == 0 || seen[t] {
			return fmt.Errorf("new share %d has tag %d, zero or taken", i, t)
		}
		seen[t] = true
		if want := ref.Interpolate(keep, t); !bytes.Equal(want, s[:l-1]) {
			return fmt.Errorf("new share %d (tag %d) is %x, want %x", i, t, head(s[:l-1]), head(want))
		}
	}
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C21", Name: "related", Configs: []string{"native"}, Quick: 12000, Thorough: 300000,
		Rule: "3..16 combines, regenerations, splits and SSMS combines, each with inputs that differ from an earlier call's in a bit, a byte, two bytes with the same XOR or sum, two swapped bytes or tags, the order or number of shares, or are in the same memory with new content; each result is checked against the reference; non-trivial: one of the functions is called twice"},
		genRelSeq, runRelSeq)
}
