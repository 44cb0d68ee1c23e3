package props

import (
	"bytes"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

// ShareList is a list of arbitrary byte strings; nil entries stay nil.
type ShareList [][]byte

// CheckCombine is the oracle for Combine on arbitrary input.
func CheckCombine(o *eng.Obs, in [][]byte, viaWorker bool) error {
	keep := cloneAll(in)
	var got []byte
	var err error
	name := "Combine"
	if viaWorker {
		name = "worker.Combine"
		w := worker.NewWorker()
		got, err = w.Combine(worker.AlgShamir, in, len(in), len(in))
	} else {
		got, err = shamir.Combine(in)
	}
	if !sameAll(keep, in) {
		return fmt.Errorf("%s changed the shares it was given", name)
	}
	why := ""
	zeroTag := false
	switch {
	case len(in) < 2:
		why = "fewer than two shares"
	case len(in[0]) < 2:
		why = "shares shorter than two bytes"
	default:
		seen := map[byte]bool{}
		for _, s := range in {
			if len(s) != len(in[0]) {
				why = "shares of different lengths"
				break
			}
		}
		if why == "" {
			for _, s := range in {
				t := s[len(s)-1]
				if seen[t] {
					why = "repeated tags"
				}
				seen[t] = true
				if t == 0 {
					zeroTag = true
				}
			}
		}
	}
	if why != "" {
		o.Class("must refuse: %s", why)
		if err == nil {
			return fmt.Errorf("%s accepted %s and returned %d bytes", name, why, len(got))
		}
		if len(got) != 0 {
			return fmt.Errorf("%s returned an error and %d bytes", name, len(got))
		}
		return nil
	}
	if zeroTag {
		o.Class("tag 0")
	} else {
		o.Class("combinable")
	}
	if err != nil {
		if zeroTag { // the origin is not a share: refusing it is as good
			return nil
		}
		return fmt.Errorf("%s refused %d shares of %d bytes with distinct nonzero tags %v: %v", name, len(in), len(in[0]), tagsOf(in), err)
	}
	want := ref.Combine(in)
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s of %d shares of %d bytes with tags %v returned %x, interpolation gives %x", name, len(in), len(in[0]), tagsOf(in), head(got), head(want))
	}
	return nil
}

func head(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

type arbCase struct {
	Shares ShareList `json:"shares"`
	Worker bool      `json:"worker"`
}

type bigArb struct {
	M      int    `json:"m"`
	Len    int    `json:"len"`
	Fill   string `json:"fill"`
	Seed   uint64 `json:"seed"`
	Mut    string `json:"mut"`
	At     int    `json:"at"`
	Worker bool   `json:"worker"`
}

// build makes m distinct-tag shares (tags 0..255 possible) and mutates one.
func (c bigArb) build() [][]byte {
	r := prng(c.Seed)
	tags := r.Perm(256)
	in := make([][]byte, c.M)
	for i := range in {
		s := Data{Len: c.Len, Fill: c.Fill, Seed: r.Uint64()}.Bytes()
		if c.Len > 0 {
			s[c.Len-1] = byte(tags[i%256])
		}
		in[i] = s
	}
	if c.M == 0 {
		return in
	}
	if c.Fill == "lowdeg" && c.M <= 255 && c.Len > 1 {
		c.lowDegree(in, r.Uint64())
	}
	a := c.At % c.M
	b := (c.At/7 + a + 1) % c.M
	switch c.Mut {
	case "dup":
		in[a] = clone(in[b])
	case "duptag":
		if c.Len > 0 {
			in[a][c.Len-1] = in[b][c.Len-1]
		}
	case "alias":
		in[a] = in[b]
	case "short":
		if c.Len > 0 {
			in[a] = in[a][:c.Len-1]
		}
	case "long":
		in[a] = append(in[a], in[a][max(0, c.Len-1):]...)
	case "nil":
		in[a] = nil
	case "empty":
		in[a] = []byte{}
	case "zerotag":
		if c.Len > 0 {
			in[a][c.Len-1] = 0
		}
	case "nonzerotags":
		for i := range in {
			if c.Len > 0 && in[i][c.Len-1] == 0 && c.M < 256 {
				in[i][c.Len-1] = byte(tags[255])
			}
		}
	}
	return in
}

// lowDegree gives every column of the shares values of a polynomial of a
// degree of its own, often one far below the number of shares.
func (c bigArb) lowDegree(in [][]byte, seed uint64) {
	r := prng(seed)
	m := len(in)
	common := 1 + r.IntN(m)
	cf := make([]byte, m)
	for p := 0; p < c.Len-1; p++ {
		n := m // the number of coefficients
		switch k := r.IntN(10); {
		case k < 3:
			n = 1 + r.IntN(m)
		case k < 5:
			n = common
		case k < 6:
			n = max(1, m-1)
		case k < 7:
			n = 1
		}
		fillRandom(cf[:n], r.Uint64())
		for _, s := range in {
			s[p] = ref.Eval(cf[:n], s[c.Len-1])
		}
	}
}

func genLowDegree(t *rapid.T, cost int) bigArb {
	c := bigArb{M: eng.Pick(t, "mclass", 2, 3, 4, 8, 16, 17, 18, 32, 33, 64, 128, 254, 255), Seed: eng.Bits(t, 16, "seed"), Fill: "lowdeg", Worker: rapid.Bool().Draw(t, "worker")}
	if rapid.Bool().Draw(t, "anym") {
		c.M = eng.Uniform(t, 2, 255, "m")
	}
	c.Len = 2 + eng.Pick(t, "len", 0, 1, 3, 7, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300, 1000, 1023, 1024, 1100)
	c.Len = min(c.Len, max(70, cost/(c.M*c.M)))
	return c
}

func init() {
	eng.Add(eng.Sub{Prop: "C05", Name: "low-degree", Configs: with32("native", "noasm"), Quick: 1500, Thorough: 40000,
		Rule: "2..255 well-formed shares of 1 to 1100 bytes in which the bytes at a position lie on a polynomial of some lower degree, another for every position (as if more shares than needed were given, or as chance would have it); every case counts"},
		func(t *rapid.T) bigArb { return genLowDegree(t, 1_000_000) },
		func(o *eng.Obs, c bigArb) error {
			o.NonTrivial()
			return CheckCombine(o, c.build(), c.Worker)
		})
	eng.Add(eng.Sub{Prop: "C05", Name: "arbitrary-lists", Configs: with32("native"), Quick: 20000, Thorough: 600000,
		Rule: "lists of 0..8 byte strings of 0..12 bytes with tags from a small set, so that malformed lists, repeated tags and combinable lists all occur; non-trivial: at least two shares of at least two bytes"},
		func(t *rapid.T) arbCase {
			n := eng.Uniform(t, 0, 8, "n")
			l := eng.Uniform(t, 0, 6, "l")
			if eng.Uniform(t, 0, 5, "long") == 0 {
				l = eng.Uniform(t, 7, 12, "l2")
			}
			ragged := eng.Uniform(t, 0, 3, "ragged") == 0
			few := eng.Uniform(t, 0, 2, "fewtags") == 0
			c := arbCase{Worker: rapid.Bool().Draw(t, "worker")}
			for i := 0; i < n; i++ {
				m := l
				if ragged && eng.Uniform(t, 0, 3, "other") == 0 {
					m = eng.Uniform(t, 0, 8, "m")
				}
				if m == 0 && eng.Uniform(t, 0, 1, "nil") == 0 {
					c.Shares = append(c.Shares, nil)
					continue
				}
				s := rapid.SliceOfN(rapid.Byte(), m, m).Draw(t, "s")
				if m > 0 {
					if few {
						s[m-1] = byte(eng.Uniform(t, 0, 9, "tag"))
					} else {
						s[m-1] = byte(eng.Bits(t, 8, "tag"))
					}
				}
				c.Shares = append(c.Shares, s)
			}
			return c
		},
		func(o *eng.Obs, c arbCase) error {
			if len(c.Shares) >= 2 && len(c.Shares[0]) >= 2 {
				o.NonTrivial()
			}
			return CheckCombine(o, c.Shares, c.Worker)
		})
	eng.Add(eng.Sub{Prop: "C05", Name: "many-shares", Configs: with32("native", "noasm"), Quick: 1500, Thorough: 40000,
		Rule: "up to 256 (and a few more) shares of up to some thousand bytes with distinct tags, one of them mutated (copied, same tag, shorter, longer, nil, empty, tag 0, aliased); non-trivial: at least two shares of at least two bytes"},
		func(t *rapid.T) bigArb {
			c := bigArb{M: eng.Pick(t, "mclass", 2, 3, 5, 20, 64, 254, 255, 256, 257, 300), Seed: eng.Bits(t, 16, "seed"), Worker: rapid.Bool().Draw(t, "worker")}
			if rapid.Bool().Draw(t, "anym") {
				c.M = eng.Uniform(t, 0, 256, "m")
			}
			c.Len = capLen(genLen(t, 5000), c.M+1, 1e6)
			c.Fill = eng.Pick(t, "fill", fills...)
			if c.Fill == "lit" {
				c.Fill = "rand"
			}
			c.Mut = eng.Pick(t, "mut", "none", "none", "nonzerotags", "nonzerotags", "nonzerotags", "dup", "duptag", "alias", "short", "long", "nil", "empty", "zerotag")
			c.At = eng.Uniform(t, 0, 4000, "at")
			return c
		},
		func(o *eng.Obs, c bigArb) error {
			in := c.build()
			o.Class("mut %s", c.Mut)
			if c.M >= 2 && c.Len >= 2 {
				o.NonTrivial()
			}
			return CheckCombine(o, in, c.Worker)
		})

	type tagPairs struct {
		X1 int `json:"x1"`
		Y  int `json:"y"`
	}
	eng.AddEnum(eng.Sub{Prop: "C05", Name: "two-shares-exhaustive", Configs: []string{"native"},
		Rule: "all pairs of tags; per pair one list whose 256 byte positions run through all values of the first share against 3 (thorough: 32) values of the second; every (tags, y1, y2) counts, non-trivial with nonzero tags and y"},
		func(tier string) []tagPairs {
			var r []tagPairs
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					if (tier == "thorough" && y%8 == x%8) || y == x || y == 255-x || y == 1 {
						r = append(r, tagPairs{x, y})
					}
				}
			}
			return r
		},
		func(o *eng.Obs, c tagPairs) error {
			s1, s2 := make([]byte, 257), make([]byte, 257)
			for i := 0; i < 256; i++ {
				s1[i], s2[i] = byte(i), byte(c.Y)
			}
			s1[256] = byte(c.X1)
			for x2 := 0; x2 < 256; x2++ {
				s2[256] = byte(x2)
				if err := CheckCombine(o, [][]byte{s1, s2}, false); err != nil {
					return err
				}
			}
			o.Bulk(256*256, 254*255)
			return nil
		})
	type xlist struct {
		M    int    `json:"m"`
		Seed uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C05", Name: "every-count", Configs: []string{"native"},
		Rule: "every number of shares from 2 to 255 with random distinct nonzero tags and 24 random bytes; each counts"},
		func(tier string) []xlist {
			var r []xlist
			reps := 2
			if tier == "thorough" {
				reps = 40
			}
			for m := 2; m <= 255; m++ {
				for i := 0; i < reps; i++ {
					r = append(r, xlist{m, uint64(m*100 + i)})
				}
			}
			return r
		},
		func(o *eng.Obs, c xlist) error {
			b := bigArb{M: c.M, Len: 25, Fill: "rand", Seed: c.Seed ^ o.Seed, Mut: "nonzerotags"}
			o.Bulk(1, 1)
			return CheckCombine(o, b.build(), false)
		})
}
