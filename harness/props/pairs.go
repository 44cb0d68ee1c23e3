package props

import (
	"bytes"
	"fmt"
	"math"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// A catalogue of single calls, each with all of its oracle: good ones at the
// ends of what is allowed, and every kind of refused one.
type catalogued struct {
	name string
	do   func(p *pairEnv) error
}

type pairEnv struct {
	*Env
	o    *eng.Obs
	rz   *randomizer.Randomizer
	seed uint64
}

func (p *pairEnv) next() uint64 { p.seed++; return p.seed }

// shares makes n Shamir shares of l bytes with the given tags or random ones.
func (p *pairEnv) shares(n, l int, tags ...byte) [][]byte {
	r := prng(p.next())
	perm := r.Perm(255)
	sh := make([][]byte, n)
	for i := range sh {
		sh[i] = Data{Len: l + 1, Fill: "rand", Seed: r.Uint64()}.Bytes()
		sh[i][l] = byte(1 + perm[i%255])
		if i < len(tags) {
			sh[i][l] = tags[i]
		}
	}
	return sh
}

func catalogue() []catalogued {
	var r []catalogued
	add := func(name string, do func(p *pairEnv) error) { r = append(r, catalogued{name, do}) }
	// splits
	for _, v := range allVariants() {
		for _, x := range [][3]int{{1, 2, 2}, {40, 3, 2}, {9, 255, 255}, {1, 255, 2}, {1100, 4, 3}, {20000, 2, 2}, {300, 40, 40}} {
			l, n, k := x[0], x[1], x[2]
			if isSSMS(v) && n == 255 && k == 255 {
				n, k = 60, 50
			}
			v := v
			add(fmt.Sprintf("%s(%d,%d,%d)", v, l, n, k), func(p *pairEnv) error {
				secret := Data{Len: l, Fill: "rand", Seed: p.next()}.Bytes()
				sh, err := p.splitOK(v, secret, n, k)
				if err != nil {
					return err
				}
				if !isSSMS(v) {
					return ref.CheckShares(secret, n, k, sh)
				}
				if _, _, err := CheckSSMSFormat(secret, n, k, sh); err != nil {
					return err
				}
				got, err := p.combine(v, sh[n-k:], n, k)
				if err != nil {
					return err
				}
				return sameSecret("the last shares", got, secret)
			})
		}
		for _, x := range [][3]int{{0, 3, 2}, {10, 2, 3}, {10, 256, 2}, {10, 3, 1}, {10, 300, 300}, {10, 0, 0}, {10, -1, 2}, {5000, 3, -1}, {5000, 256, 255}} {
			x, v := x, v
			add(fmt.Sprintf("refused %s%v", v, x), func(p *pairEnv) error {
				sh, err := p.split(v, make([]byte, x[0]), x[1], x[2])
				if err == nil || len(sh) != 0 {
					return fmt.Errorf("%d shares, %v", len(sh), err)
				}
				return nil
			})
		}
	}
	// combinations and regenerations of any shares
	for _, w := range []bool{false, true} {
		w := w
		for _, x := range [][2]int{{2, 1}, {2, 1}, {2, 5000}, {3, 40}, {20, 20}, {64, 16}, {255, 2}} {
			x := x
			add(fmt.Sprintf("Combine%v worker=%v", x, w), func(p *pairEnv) error {
				return CheckCombine(p.o, p.shares(x[0], x[1]), w)
			})
		}
		for _, t := range [][]byte{{1, 1}, {0, 0}, {0, 1}, {9, 8, 9}, {255, 254, 254}} {
			t := t
			add(fmt.Sprintf("Combine tags %v worker=%v", t, w), func(p *pairEnv) error {
				return CheckCombine(p.o, p.shares(len(t), 10, t...), w)
			})
		}
		for _, bad := range []string{"ragged", "empty", "one", "nil", "short", "long last", "300"} {
			bad := bad
			add(fmt.Sprintf("Combine %s worker=%v", bad, w), func(p *pairEnv) error {
				return CheckCombine(p.o, badShares(p, bad), w)
			})
		}
	}
	for _, x := range [][3]int{{2, 1, 1}, {2, 1, 253}, {3, 40, 252}, {3, 40, 0}, {20, 10, 5}, {64, 4, 191}, {254, 2, 1}, {255, 1, 0}, {2, 3000, 2},
		{2, 1, 254}, {2, 1, 255}, {3, 40, 300}, {3, 40, -1}, {255, 1, 1}, {254, 2, 2}, {5, 5, math.MinInt32}, {5, 5, math.MaxInt32}, {5, 5, math.MinInt}, {5, 5, math.MaxInt}} {
		x := x
		add(fmt.Sprintf("Regenerate%v", x), func(p *pairEnv) error {
			_, err := CheckRegenerate(p.o, p.shares(x[0], x[1]), x[2])
			return err
		})
	}
	for _, bad := range []string{"ragged", "empty", "one", "nil", "short", "long last", "300"} {
		bad := bad
		add("Regenerate "+bad, func(p *pairEnv) error {
			_, err := CheckRegenerate(p.o, badShares(p, bad), 2)
			return err
		})
	}
	add("Regenerate repeated tags", func(p *pairEnv) error {
		_, err := CheckRegenerate(p.o, p.shares(4, 10, 7, 9, 250, 9), 3)
		return err
	})
	// SSMS combinations
	for _, bad := range []string{"none", "few", "cut", "no parity", "dup", "tag", "part", "meta", "gaps", "params", "nil"} {
		for _, w := range []bool{false, true} {
			bad, w := bad, w
			add(fmt.Sprintf("ssms Combine %s worker=%v", bad, w), func(p *pairEnv) error {
				n, k := 5, 3
				secret := Data{Len: 70, Fill: "rand", Seed: p.next()}.Bytes()
				sh, err := p.splitOK("ssmsR", secret, n, k)
				if err != nil {
					return err
				}
				switch bad {
				case "few":
					sh = sh[:2]
				case "cut":
					sh[1] = sh[1][:30]
				case "no parity":
					sh = sh[:3]
				case "dup":
					sh = [][]byte{sh[0], sh[1], sh[1]}
				case "tag":
					sh[2][ref.MetaLen-1] = sh[0][ref.MetaLen-1]
				case "part":
					sh[4][len(sh[4])-1] = 77
				case "meta":
					sh[0][18] ^= 0x55
				case "gaps":
					sh = [][]byte{nil, sh[4], nil, sh[1], nil, sh[2]}
				case "params":
					n, k = 2, 3
				case "nil":
					sh = nil
				}
				got, gotErr, err := CheckSSMSCombine(p.o, sh, n, k, w)
				if err != nil {
					return err
				}
				if bad == "none" || bad == "gaps" || bad == "no parity" {
					if gotErr != nil {
						return gotErr
					}
					return sameSecret(bad, got, secret)
				}
				return nil
			})
		}
	}
	// sources
	for _, n := range []int{0, 1, 2, 19, 20, 254, 255} {
		n := n
		add(fmt.Sprintf("Perm(%d)", n), func(p *pairEnv) error { return checkDistinct("Perm", n, p.R.Perm(byte(n))) })
		add(fmt.Sprintf("GetUniqueBytes(%d)", n), func(p *pairEnv) error { return checkDistinct("GetUniqueBytes", n, p.R.GetUniqueBytes(byte(n))) })
		add(fmt.Sprintf("randomizer Perm(%d)", n), func(p *pairEnv) error { return checkDistinct("Perm", n, p.rz.Perm(byte(n))) })
	}
	for _, n := range []int{0, 1, 16, 17, 1000, 70000} {
		n := n
		add(fmt.Sprintf("keyed Read %d", n), func(p *pairEnv) error {
			kv := RNG{Kind: "keyiv", Seed: p.next()}.KeyIV()
			b := Data{Len: n, Fill: "ff"}.Bytes()
			if m, err := csprng.NewCSPRNGWithKeyIV(clone(kv)).Read(b); m != n || err != nil {
				return fmt.Errorf("Read returned %d, %v", m, err)
			}
			if !bytes.Equal(b, keystreamAt(kv, 0, n)) {
				return fmt.Errorf("not the keystream")
			}
			return nil
		})
		add(fmt.Sprintf("multiply %d", n), func(p *pairEnv) error {
			v := Data{Len: n, Fill: "rand", Seed: p.next()}.Bytes()
			c := byte(p.next())
			want := make([]byte, n)
			for i := range v {
				want[i] = ref.Mul(c, v[i])
			}
			if !bytes.Equal(galois.MulConstVector(c, v), want) {
				return fmt.Errorf("MulConstVector(%d) of %d bytes is wrong", c, n)
			}
			return nil
		})
	}
	add("recovered panics", func(p *pairEnv) error {
		for _, f := range []func(){
			func() { galois.GalDivide(5, 0) },
			func() { galois.AddVector(make([]byte, 40), make([]byte, 3)) },
			func() { csprng.NewCSPRNGWithKeyIV(make([]byte, 7)) },
		} {
			func() {
				defer func() { _ = recover() }()
				f()
			}()
		}
		return nil
	})
	add("unknown algorithm", func(p *pairEnv) error {
		sh, err := p.W.Split("aes", []byte("secret"), 3, 2)
		if err == nil || len(sh) != 0 {
			return fmt.Errorf("%d shares, %v", len(sh), err)
		}
		got, err := p.W.Combine("", p.shares(3, 10), 3, 2)
		if err == nil || len(got) != 0 {
			return fmt.Errorf("%d bytes, %v", len(got), err)
		}
		return nil
	})
	add("wrong scheme", func(p *pairEnv) error {
		// no oracle for the results but that they are harmless
		sh, err := shamir.Split([]byte("some secret of no importance and of some length"), 3, 2)
		if err != nil {
			return err
		}
		_, _ = krawczyk.Combine(sh, 3, 2)
		_, _ = p.W.Combine(worker.AlgSSMS, sh, 3, 2)
		return nil
	})
	return r
}

func badShares(p *pairEnv, bad string) [][]byte {
	sh := p.shares(3, 10)
	switch bad {
	case "ragged":
		sh[2] = sh[2][:5]
	case "empty":
		sh = [][]byte{}
	case "one":
		sh = sh[:1]
	case "nil":
		sh[1] = nil
	case "short":
		sh = [][]byte{{1}, {2}, {3}}
	case "long last":
		sh[2] = append(sh[2], 77)
	case "300":
		for len(sh) < 300 {
			sh = append(sh, clone(sh[len(sh)%3]))
		}
	}
	return sh
}

type rowCase struct {
	First int    `json:"first"`
	Name  string `json:"name"`
	Times int    `json:"times"`
	Seed  uint64 `json:"seed"`
}

func init() {
	var cat []catalogued
	get := func() []catalogued {
		if cat == nil {
			cat = catalogue()
		}
		return cat
	}
	eng.AddEnum(eng.Sub{Prop: "C21", Name: "pairs", Configs: []string{"native"},
		Rule: "a catalogue of about 260 single calls with their oracles: splits by every function at the ends of what is allowed, refused splits, combinations and regenerations of good, damaged and impossible lists, SSMS lists of all kinds, permutations, reads, recovered panics: for every ordered pair (A, B) A once or three times, then B, then A again; each pair counts"},
		func(tier string) []rowCase {
			var r []rowCase
			for i, c := range get() {
				r = append(r, rowCase{i, c.name, 1 + i%2*2, uint64(i)})
				if tier == "thorough" {
					for rep := 1; rep <= 12; rep++ {
						r = append(r, rowCase{i, c.name, rep, uint64(1000*rep + i)})
					}
				}
			}
			return r
		},
		func(o *eng.Obs, c rowCase) error {
			cat := get()
			a := cat[c.First]
			p := &pairEnv{Env: newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed}), o: o, rz: randomizer.NewRandomizer(), seed: (c.Seed ^ o.Seed) << 32}
			r := prng(c.Seed ^ o.Seed ^ 0xaa)
			n := 0
			prev := "nothing"
			for _, j := range r.Perm(len(cat)) {
				b := cat[j]
				for i := 0; i < c.Times; i++ {
					if err := a.do(p); err != nil {
						return fmt.Errorf("%s after %s: %v", a.name, prev, err)
					}
					prev = a.name
				}
				if err := b.do(p); err != nil {
					return fmt.Errorf("%s after %s: %v", b.name, prev, err)
				}
				prev = b.name
				n++
			}
			o.Class("%s", c.Name)
			o.Bulk(n, n)
			return nil
		})
}
