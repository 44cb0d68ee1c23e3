package props

import (
	"bytes"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

type workStep struct {
	Op   string `json:"op"` // split, badsplit, combine, few, unknown, new, copy
	Alg  string `json:"alg,omitempty"`
	W    int    `json:"w"`
	N    int    `json:"n,omitempty"`
	K    int    `json:"k,omitempty"`
	Len  int    `json:"len,omitempty"`
	Sel  Subset `json:"sel"`
	By   string `json:"by,omitempty"` // combine: same, other, package
	Seed uint64 `json:"seed"`
}

type workCase struct {
	Workers int        `json:"workers"`
	Steps   []workStep `json:"steps"`
}

var unknownAlgs = []string{"", " ", "Shamir", "SHAMIR", "shamir ", " shamir", "shamir\x00", "shami", "shamirs", "shamir,krawczyk",
	"Krawczyk", "KRAWCZYK", "krawczyk ", "krawczy", "krawczyk2", "ssms", "SSMS", "kraw", "s", "k", "aes", "rs", "shamirkrawczyk", "Split", "none", "0", "shamir\n", "ｓhamir"}

func genUnknown(t *rapid.T) string {
	if eng.Uniform(t, 0, 2, "listed") != 0 {
		return eng.Pick(t, "alg", unknownAlgs...)
	}
	a := rapid.String().Draw(t, "alg")
	if a == worker.AlgShamir || a == worker.AlgSSMS {
		return "x" + a
	}
	return a
}

func genWork(t *rapid.T) workCase {
	c := workCase{Workers: eng.Uniform(t, 1, 3, "workers")}
	one := rapid.Custom(func(t *rapid.T) workStep {
		s := workStep{Op: eng.Pick(t, "op", "split", "split", "split", "split", "again", "combine", "combine", "combine", "badsplit", "few", "unknown", "odd", "copy", "new"), W: eng.Uniform(t, 0, 9, "w"), Seed: eng.Bits(t, 20, "seed")}
		switch s.Op {
		case "split":
			s.Alg = eng.Pick(t, "alg", worker.AlgShamir, worker.AlgSSMS)
			s.N, s.K = genNK(t, 255)
			s.Len = min(genLen(t, 8000), 100000/s.N+2, 1_500_000/(s.N*s.N)+10)
		case "again":
			s.By = eng.Pick(t, "params", "same", "same", "same", "other alg", "other n", "other k")
		case "badsplit":
			s.Alg = eng.Pick(t, "alg", worker.AlgShamir, worker.AlgSSMS)
			s.N, s.K = genOddInt(t, "n"), genOddInt(t, "k")
			s.Len = eng.Pick(t, "len", 0, 1, 100)
			if s.Len > 0 && s.K >= 2 && s.K <= s.N && s.N <= 255 {
				s.Len = 0
			}
		case "combine", "few":
			s.Sel = genSubset(t)
			s.By = eng.Pick(t, "by", "same", "other", "package")
		case "odd":
			s.Sel = genSubset(t)
			s.N, s.K = genOddInt(t, "n"), genOddInt(t, "k")
			if eng.Uniform(t, 0, 2, "small") == 0 {
				s.N, s.K = eng.Uniform(t, -1, 9, "n"), eng.Uniform(t, -1, 9, "k")
			}
		case "unknown":
			s.Alg = genUnknown(t)
		}
		return s
	})
	first := workStep{Op: "split", Alg: eng.Pick(t, "alg0", worker.AlgShamir, worker.AlgSSMS), N: 3, K: 2, Len: eng.Uniform(t, 1, 50, "len0"), Seed: eng.Bits(t, 20, "seed0")}
	c.Steps = append([]workStep{first}, rapid.SliceOfN(one, 1, 20).Draw(t, "steps")...)
	return c
}

type workShares struct {
	alg    string
	n, k   int
	secret []byte
	sh     [][]byte
	key    []byte // the SSMS key
}

// pickFor selects shares, perhaps too few.
func (x workShares) pickFor(s workStep, few bool) []int {
	idx := s.Sel.pick(x.n, x.k)
	if few {
		idx = idx[:len(idx)/2]
	}
	return idx
}

func runWork(o *eng.Obs, c workCase) error {
	ws := make([]worker.Worker, c.Workers)
	for i := range ws {
		ws[i] = worker.NewWorker()
	}
	var all []workShares
	used := map[string]int{}
	for i, s := range c.Steps {
		at := fmt.Sprintf("step %d %s", i, s.Op)
		w := &ws[s.W%len(ws)]
		r := prng(s.Seed)
		switch s.Op {
		case "new":
			ws[s.W%len(ws)] = worker.NewWorker()
		case "copy":
			ws = append(ws, *w)
		case "split":
			secret := make([]byte, s.Len)
			fillRandom(secret, s.Seed)
			keep := clone(secret)
			sh, err := w.Split(s.Alg, secret, s.N, s.K)
			at = fmt.Sprintf("step %d, Split(%q, %d bytes, %d, %d)", i, s.Alg, s.Len, s.N, s.K)
			if err != nil {
				return fmt.Errorf("%s failed: %v", at, err)
			}
			var key []byte
			if s.Alg == worker.AlgShamir {
				err = ref.CheckShares(keep, s.N, s.K, sh)
			} else {
				key, _, err = CheckSSMSFormat(keep, s.N, s.K, sh)
			}
			if err != nil {
				return fmt.Errorf("%s: not in the format of the scheme: %v", at, err)
			}
			all = append(all, workShares{s.Alg, s.N, s.K, keep, sh, key})
			used[s.Alg]++
		case "again":
			// a secret that was split before, once more
			x := all[len(all)-1-r.IntN(min(len(all), 2+r.IntN(len(all))))]
			y := workShares{alg: x.alg, n: x.n, k: x.k, secret: x.secret}
			switch s.By {
			case "other alg":
				y.alg = worker.AlgShamir
				if x.alg == worker.AlgShamir {
					y.alg = worker.AlgSSMS
				}
			case "other n":
				y.n = min(255, x.n+1+r.IntN(3))
			case "other k":
				y.k = 2 + r.IntN(x.n-1)
			}
			secret := clone(x.secret)
			var err error
			y.sh, err = w.Split(y.alg, secret, y.n, y.k)
			at = fmt.Sprintf("step %d, Split(%q, a secret of %d bytes again, %d, %d)", i, y.alg, len(secret), y.n, y.k)
			if err != nil {
				return fmt.Errorf("%s failed: %v", at, err)
			}
			if y.alg == worker.AlgShamir {
				err = ref.CheckShares(x.secret, y.n, y.k, y.sh)
			} else {
				y.key, _, err = CheckSSMSFormat(x.secret, y.n, y.k, y.sh)
			}
			if err != nil {
				return fmt.Errorf("%s: not in the format of the scheme: %v", at, err)
			}
			for _, z := range all {
				if !bytes.Equal(z.secret, x.secret) || z.alg != y.alg {
					continue
				}
				if z.alg == worker.AlgSSMS {
					if bytes.Equal(y.key, z.key) {
						return fmt.Errorf("%s uses the key of an earlier split of the same secret", at)
					}
					continue
				}
				if z.n == y.n && z.k == y.k && len(x.secret)*(y.k-1)+y.n*7/8 >= 14 && sameAll(z.sh, y.sh) {
					return fmt.Errorf("%s gives the shares of an earlier split of the same secret again", at)
				}
				if len(x.secret) >= 14 {
					have := map[string]bool{}
					for _, b := range z.sh {
						have[string(b[:len(b)-1])] = true
					}
					for _, b := range y.sh {
						if have[string(b[:len(b)-1])] {
							return fmt.Errorf("%s gives a share of an earlier split of the same secret again", at)
						}
					}
				}
			}
			all = append(all, y)
			used["the same secret again"]++
		case "badsplit":
			secret := make([]byte, s.Len)
			sh, err := w.Split(s.Alg, secret, s.N, s.K)
			if err == nil || len(sh) != 0 {
				return fmt.Errorf("%s: Split(%q, %d bytes, %d, %d) returned %d shares, %v", at, s.Alg, s.Len, s.N, s.K, len(sh), err)
			}
		case "combine", "few":
			x := all[r.IntN(len(all))]
			idx := s.Sel.pick(x.n, x.k)
			if s.Op == "few" {
				if x.k == 2 && x.alg == worker.AlgShamir && len(idx) > 1 {
					idx = idx[:1]
				} else {
					idx = idx[:r.IntN(x.k)]
				}
			}
			given := choose(x.sh, idx)
			if x.alg == worker.AlgSSMS && r.IntN(2) == 0 {
				given = arrange("inplace", x.sh, idx, s.Seed)
			}
			keep := cloneAll(given)
			var got []byte
			var err error
			by := w
			if s.By == "other" {
				nw := worker.NewWorker()
				by = &nw
			}
			switch {
			case s.By != "package":
				got, err = by.Combine(x.alg, given, x.n, x.k)
			case x.alg == worker.AlgShamir:
				got, err = shamir.Combine(given)
			default:
				got, err = krawczyk.Combine(given, x.n, x.k)
			}
			at = fmt.Sprintf("step %d, Combine(%q, %d of %d shares, %d, %d) by %s", i, x.alg, len(idx), x.n, x.n, x.k, s.By)
			if !sameAll(keep, given) {
				return fmt.Errorf("%s changed the shares", at)
			}
			if s.Op == "few" {
				if x.alg == worker.AlgSSMS || len(idx) < 2 {
					if err == nil || len(got) != 0 {
						return fmt.Errorf("%s returned %d bytes, %v", at, len(got), err)
					}
				}
				break
			}
			if err != nil {
				return fmt.Errorf("%s failed: %v", at, err)
			}
			if err := sameSecret(at, got, x.secret); err != nil {
				return err
			}
			used["combine by "+s.By]++
		case "odd":
			// any numbers: as the package would
			x := all[r.IntN(len(all))]
			idx := x.pickFor(s, r.IntN(3) == 0)
			given := choose(x.sh, idx)
			if x.alg == worker.AlgSSMS && r.IntN(2) == 0 {
				given = arrange("inplace", x.sh, idx, s.Seed)
			}
			keep := cloneAll(given)
			got, err := w.Combine(x.alg, given, s.N, s.K)
			at = fmt.Sprintf("step %d, Combine(%q, %d shares of a (%d, %d) split, %d, %d)", i, x.alg, len(idx), x.n, x.k, s.N, s.K)
			if !sameAll(keep, given) {
				return fmt.Errorf("%s changed the shares", at)
			}
			var want []byte
			var wantErr error
			if x.alg == worker.AlgShamir {
				want, wantErr = shamir.Combine(given)
			} else {
				want, wantErr = krawczyk.Combine(given, s.N, s.K)
			}
			if (err == nil) != (wantErr == nil) || !bytes.Equal(got, want) {
				return fmt.Errorf("%s returned %d bytes (%x), %v; the package %d bytes (%x), %v", at, len(got), head(got), err, len(want), head(want), wantErr)
			}
			used["combine with odd numbers"]++
		case "unknown":
			sh, err := w.Split(s.Alg, []byte("some secret"), 3, 2)
			if err == nil || len(sh) != 0 {
				return fmt.Errorf("%s: Split with algorithm %q returned %d shares, %v", at, s.Alg, len(sh), err)
			}
			x := all[r.IntN(len(all))]
			got, err := w.Combine(s.Alg, x.sh, x.n, x.k)
			if err == nil || len(got) != 0 {
				return fmt.Errorf("%s: Combine of %q shares with algorithm %q returned %d bytes, %v", at, x.alg, s.Alg, len(got), err)
			}
		}
	}
	for k := range used {
		o.Class("%s", k)
	}
	if used[worker.AlgShamir] > 0 && used[worker.AlgSSMS] > 0 && len(used) > 2 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C17", Name: "histories", Configs: with32("native", "noasm"), Quick: 6000, Thorough: 150000,
		Rule: "2 to 21 steps on 1 to 3 workers and copies of them: splits of both schemes checked against the format of the scheme, combines by the same worker, another worker or the package, also with wrong numbers of parts (as the package), too few shares, impossible parameters, unknown algorithm names, and secrets that were split before (which must give a fresh key, and no share of the earlier split); non-trivial: both schemes were used and something was combined"},
		genWork, runWork)
	eng.AddEnum(eng.Sub{Prop: "C17", Name: "names", Configs: []string{"native"},
		Rule: "every prefix, suffix, case change and one-character change of the two names, and a list of others; every name counts"},
		func(tier string) []string {
			seen := map[string]bool{worker.AlgShamir: true, worker.AlgSSMS: true}
			var r []string
			add := func(s string) {
				if !seen[s] {
					seen[s] = true
					r = append(r, s)
				}
			}
			for _, u := range unknownAlgs {
				add(u)
			}
			for _, n := range []string{worker.AlgShamir, worker.AlgSSMS} {
				for i := 0; i <= len(n); i++ {
					add(n[:i])
					add(n[i:])
					for b := 0; b < 128; b++ {
						add(n[:i] + string(rune(b)) + n[i:])
						if i < len(n) {
							add(n[:i] + string(rune(b)) + n[i+1:])
						}
					}
					if i < len(n) {
						add(n[:i] + n[i+1:])
					}
				}
			}
			return r
		},
		func(o *eng.Obs, name string) error {
			o.NonTrivial()
			w := worker.NewWorker()
			if sh, err := w.Split(name, []byte("secret"), 3, 2); err == nil || len(sh) != 0 {
				return fmt.Errorf("Split with algorithm %q returned %d shares, %v", name, len(sh), err)
			}
			for _, alg := range []string{worker.AlgShamir, worker.AlgSSMS} {
				sh, err := w.Split(alg, []byte("secret"), 3, 2)
				if err != nil {
					return fmt.Errorf("Split(%q) failed: %v", alg, err)
				}
				if got, err := w.Combine(name, sh, 3, 2); err == nil || len(got) != 0 {
					return fmt.Errorf("Combine with algorithm %q returned %d bytes, %v", name, len(got), err)
				}
			}
			return nil
		})
}
