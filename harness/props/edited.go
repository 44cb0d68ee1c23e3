package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"pgregory.net/rapid"
)

type edit struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	V    int    `json:"v"`
	Do   string `json:"do"` // combine, worker, regen
	Num  int    `json:"num"`
	Many bool   `json:"many"` // call it twice
}

type editCase struct {
	SSMS  bool   `json:"ssms"`
	V     string `json:"v"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Sel   Subset `json:"sel"`
	Place string `json:"place"`
	Seed  uint64 `json:"seed"`
	Edits []edit `json:"edits"`
}

var editOps = []string{"byte", "byte", "byte", "byte", "middle", "tag", "swap", "contents", "order", "clone", "replace", "drop", "restore", "none"}

// runEdited gives the same list, with the same memory in it, again and again,
// while its owner changes it between the calls. What a call returns depends on
// what the list holds then.
func runEdited(o *eng.Obs, c editCase) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	r := prng(c.Seed ^ 0xed)
	mk := func(seed uint64) ([][]byte, error) {
		return env.splitOK(c.V, Data{Len: c.Len, Fill: "rand", Seed: seed}.Bytes(), c.N, c.K)
	}
	sh, err := mk(c.Seed)
	if err != nil {
		return err
	}
	other, err := mk(c.Seed + 1)
	if err != nil {
		return err
	}
	idx := c.Sel.pick(c.N, c.K)
	list := choose(sh, idx)
	if c.SSMS {
		list = arrange(c.Place, sh, idx, c.Seed)
	}
	first := cloneAll(list)
	call := func(e edit) error {
		if c.SSMS {
			_, _, err := CheckSSMSCombine(o, list, c.N, c.K, e.Do == "worker")
			return err
		}
		if e.Do == "regen" {
			_, err := CheckRegenerate(o, list, min(e.Num, 255-len(list)))
			return err
		}
		return CheckCombine(o, list, e.Do == "worker")
	}
	if len(c.Edits) > 0 {
		if err := call(c.Edits[0]); err != nil {
			return fmt.Errorf("before any edit: %v", err)
		}
	}
	changes := 0
	for n, e := range c.Edits {
		var have []int
		for i, s := range list {
			if s != nil {
				have = append(have, i)
			}
		}
		if len(have) == 0 {
			break
		}
		i, j := have[e.I%len(have)], have[e.J%len(have)]
		s, t := list[i], list[j]
		switch e.Op {
		case "byte":
			s[e.J%len(s)] ^= byte(1 + e.V%255)
		case "middle": // neither the first nor the last byte
			if len(s) > 2 {
				s[1+e.J%(len(s)-2)] ^= byte(1 + e.V%255)
			}
		case "tag":
			s[len(s)-1] = byte(e.V)
		case "swap":
			list[i], list[j] = t, s
		case "contents":
			if i != j && len(s) == len(t) {
				for b := range s {
					s[b], t[b] = t[b], s[b]
				}
			}
		case "order":
			r.Shuffle(len(list), func(a, b int) { list[a], list[b] = list[b], list[a] })
		case "clone":
			list[i] = clone(s)
		case "replace": // all of another sharing, in the same memory
			for x, s := range list {
				if s != nil {
					copy(s, other[idx[x%len(idx)]])
				}
			}
		case "drop":
			if len(list) > 1 {
				list = append(list[:i], list[i+1:]...)
			}
		case "restore":
			if len(list) != len(first) {
				break
			}
			for x, s := range list {
				if s != nil && first[x] != nil {
					copy(s, first[x])
				}
			}
		}
		if e.Op != "none" && e.Op != "clone" {
			changes++
		}
		for m := 0; m < 1 || m < 2 && e.Many; m++ {
			if err := call(e); err != nil {
				return fmt.Errorf("after edit %d (%s) of the same list: %v", n, e.Op, err)
			}
		}
		o.Class("%s", e.Op)
	}
	if changes > 0 {
		o.NonTrivial()
	}
	return nil
}

func genEdited(ssms bool, do ...string) func(t *rapid.T) editCase {
	return func(t *rapid.T) editCase {
		c := editCase{SSMS: ssms, Sel: genSubset(t), Seed: eng.Bits(t, 24, "seed")}
		c.V = eng.Pick(t, "variant", "SplitGeneric", "SplitWithRandomizer", "worker")
		if ssms {
			c.V = eng.Pick(t, "variant", ssmsVariants...)
			c.Place = eng.Pick(t, "place", "list", "inplace", "nils")
		}
		c.N, c.K = genNK(t, 40)
		c.Len = eng.Pick(t, "len", 1, 2, 3, 16, 40, 41, 64, 100, 1000, 1025)
		if c.N*c.K*c.Len > 40000 {
			c.Len = min(c.Len, 41)
		}
		c.Edits = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) edit {
			return edit{eng.Pick(t, "op", editOps...), eng.Uniform(t, 0, 50, "i"), eng.Uniform(t, 0, 2000, "j"), eng.Uniform(t, 0, 255, "v"), eng.Pick(t, "do", do...), eng.Pick(t, "num", 1, 1, 2, 3), eng.Uniform(t, 0, 3, "many") == 0}
		}), 1, 8).Draw(t, "edits")
		return c
	}
}

// ---- tags in patterns ------------------------------------------------------

type tagRun struct {
	Pattern string `json:"pattern"` // plus, xor, times
	Step    int    `json:"step"`
	Order   string `json:"order"`
	Count   int    `json:"count"`
	Seed    uint64 `json:"seed"`
}

// tags lists count tags from base on, or nil if the pattern does not give as
// many different ones.
func (c tagRun) tags(base int) []byte {
	var r []byte
	var seen [256]bool
	x := base
	for i := 0; i < c.Count; i++ {
		t := x
		if c.Pattern == "xor" {
			t = base ^ i*c.Step&255
		}
		if t < 1 || t > 255 || seen[t] {
			return nil
		}
		seen[t] = true
		r = append(r, byte(t))
		switch c.Pattern {
		case "plus":
			x += c.Step
		case "times":
			x = int(ref.Mul(byte(x), byte(c.Step)))
		}
	}
	switch c.Order {
	case "down":
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case "mixed":
		p := prng(c.Seed + uint64(base))
		p.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	}
	return r
}

func tagRuns(tier string) []tagRun {
	var r []tagRun
	counts := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 200, 254, 255}
	if tier == "thorough" {
		counts = nil
		for n := 2; n <= 255; n++ {
			counts = append(counts, n)
		}
	}
	for _, n := range counts {
		for _, p := range []struct {
			pattern string
			steps   []int
		}{{"plus", []int{1, 2, 3, 4, 8, 16}}, {"xor", []int{1, 2, 8, 16}}, {"times", []int{2, 3, 4}}} {
			for _, s := range p.steps {
				for _, o := range []string{"up", "down", "mixed"} {
					r = append(r, tagRun{p.pattern, s, o, n, uint64(len(r))})
				}
			}
		}
	}
	return r
}

func runTagRun(o *eng.Obs, c tagRun, check func(list [][]byte) error) error {
	evals := 0
	step := 1
	if c.Count > 40 && o.Tier != "thorough" {
		step = 7
	}
	for base := 1; base < 256; base += step {
		tags := c.tags(base)
		if tags == nil {
			continue
		}
		list := make([][]byte, len(tags))
		for i := range list {
			list[i] = Data{Len: 3, Fill: "rand", Seed: c.Seed<<20 + uint64(base)<<10 + uint64(i)}.Bytes()
			list[i][2] = tags[i]
		}
		if err := check(list); err != nil {
			return err
		}
		evals++
	}
	o.Class("%s", c.Pattern)
	o.Bulk(evals, evals)
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C05", Name: "edited", Configs: []string{"native"}, Quick: 3000, Thorough: 150000,
		Rule: "one list of shares is combined again and again while its owner changes it in place between the calls (single bytes, tags, order, contents exchanged, another sharing in the same memory, all as before), by the package and a worker: each result is that of what the list holds; non-trivial: something was changed"},
		genEdited(false, "combine", "combine", "worker"), runEdited)
	eng.Add(eng.Sub{Prop: "C06", Name: "edited", Configs: []string{"native"}, Quick: 2400, Thorough: 120000,
		Rule: "as C05/edited, with Regenerate among the calls"},
		genEdited(false, "regen", "regen", "combine"), runEdited)
	eng.Add(eng.Sub{Prop: "C09", Name: "edited", Configs: []string{"native"}, Quick: 3000, Thorough: 150000,
		Rule: "as C05/edited, with SSMS shares, in lists with and without gaps"},
		genEdited(true, "combine", "combine", "worker"), runEdited)
	rule := "2 to 255 shares whose tags are in arithmetic progression (six steps), differ by XOR with multiples, or in geometric progression in the field (three factors), in rising, falling and mixed order, from every first tag (a seventh of them for more than 40 shares): "
	eng.AddEnum(eng.Sub{Prop: "C05", Name: "tag-runs", Configs: []string{"native"}, Rule: rule + "Combine against the reference; each list counts"},
		tagRuns, func(o *eng.Obs, c tagRun) error {
			return runTagRun(o, c, func(list [][]byte) error { return CheckCombine(o, list, false) })
		})
	eng.AddEnum(eng.Sub{Prop: "C06", Name: "tag-runs", Configs: []string{"native"}, Rule: rule + "Regenerate of up to three shares against the reference; each list counts"},
		tagRuns, func(o *eng.Obs, c tagRun) error {
			return runTagRun(o, c, func(list [][]byte) error {
				_, err := CheckRegenerate(o, list, min(1+len(list)%3, 255-len(list)))
				return err
			})
		})
}
