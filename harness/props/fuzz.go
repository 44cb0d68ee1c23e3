package props

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
)

// FuzzCase is a byte string that a coverage-guided campaign found; it replays
// through the same oracle.
type FuzzCase struct {
	Hex string `json:"hex"`
}

// FuzzTarget decodes a byte string into a case of one property.
type FuzzTarget struct {
	Name, Prop string
	Seeds      [][]byte
	Run        func(o *eng.Obs, data []byte) error
}

// bytesrc hands out decisions from the fuzzer's input; it yields zeros at the
// end.
type bytesrc struct{ b []byte }

func (s *bytesrc) u8() int {
	if len(s.b) == 0 {
		return 0
	}
	v := s.b[0]
	s.b = s.b[1:]
	return int(v)
}

func (s *bytesrc) u16() int { return s.u8() | s.u8()<<8 }

func (s *bytesrc) take(n int) []byte {
	r := make([]byte, n)
	m := copy(r, s.b)
	s.b = s.b[m:]
	return r
}

func (s *bytesrc) rest() []byte {
	r := clone(s.b)
	s.b = nil
	return r
}

func (s *bytesrc) nk() (int, int) {
	n := 2 + s.u8()%254
	return n, 2 + s.u8()%(n-1)
}

// list makes a list of up to max byte strings: equal lengths, or each its own.
func (s *bytesrc) list(max int) [][]byte {
	mode, m := s.u8(), s.u8()%(max+1)
	l := s.u8() % 80
	r := make([][]byte, m)
	for i := range r {
		switch {
		case mode&1 == 1:
			c := s.u8()
			if c == 255 {
				continue // nil
			}
			r[i] = s.take(c % 90)
		case mode&2 == 2: // content repeats, tags differ
			r[i] = s.take(l)
			if l > 0 {
				r[i][l-1] += byte(i)
			}
		default:
			r[i] = s.take(l)
		}
	}
	return r
}

// FuzzTargets is filled below; harness/fuzz runs them under go test -fuzz.
var FuzzTargets = []FuzzTarget{
	{"FuzzShamirRoundtrip", "C01", [][]byte{{0, 3, 1, 7, 1, 2, 3}, append([]byte{1, 40, 30, 9}, make([]byte, 300)...), append([]byte{2, 0, 0, 1}, make([]byte, 1100)...)},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			v := shamirVariants[s.u8()%len(shamirVariants)]
			n, k := s.nk()
			seed := uint64(s.u16())
			secret := s.rest()
			if len(secret) == 0 || len(secret)*k*k > 3_000_000 {
				return nil
			}
			return fuzzRoundtrip(v, secret, n, k, seed)
		}},
	{"FuzzSSMSRoundtrip", "C07", [][]byte{{0, 3, 1, 7, 1, 2, 3}, append([]byte{1, 40, 30, 9}, make([]byte, 300)...), append([]byte{2, 0, 0, 1}, make([]byte, 1024)...)},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			v := ssmsVariants[s.u8()%len(ssmsVariants)]
			n, k := s.nk()
			seed := uint64(s.u16())
			secret := s.rest()
			if len(secret) == 0 {
				return nil
			}
			return fuzzRoundtrip(v, secret, n, k, seed)
		}},
	{"FuzzShamirCombine", "C05", [][]byte{{0, 3, 5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 9}, {2, 5, 3, 9, 9, 9}, {1, 2, 3, 1, 2}},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			via := s.u8()%2 == 1
			return CheckCombine(o, s.list(40), via)
		}},
	{"FuzzRegenerate", "C06", [][]byte{{3, 0, 3, 5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 9}, {200, 2, 5, 3, 9, 9, 9}, {0xff, 0x7f}},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			num := s.u8()
			if num > 250 {
				num = []int{-1, 256, 300, wide(1 << 40), wide(-1 << 40)}[num-251]
			}
			_, err := CheckRegenerate(o, s.list(40), num)
			return err
		}},
	{"FuzzSSMSCombine", "C09", [][]byte{{3, 2, 0, 2, 30, 1, 2, 3}, {5, 3, 1, 4, 3, 29, 2, 28, 1, 25}},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			n, k := s.u8(), s.u8()
			if n == 254 {
				n = -s.u8()
			}
			if k == 254 {
				k = 250 + s.u8()
			}
			_, _, err := CheckSSMSCombine(o, s.list(40), n, k, s.u8()%2 == 1)
			return err
		}},
	{"FuzzSSMSMutate", "C09", [][]byte{{0, 3, 1, 9, 10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 2, 1, 2, 3, 4, 5, 1, 2, 3, 4}, {1, 8, 3, 1, 3, 1, 1, 1, 6, 2, 2, 2, 2, 16, 1, 1, 1, 3, 2, 1, 4}},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			v := ssmsVariants[s.u8()%len(ssmsVariants)]
			n := 2 + s.u8()%30
			k := 2 + s.u8()%(n-1)
			seed := uint64(s.u16())
			secret := s.take(1 + s.u8())
			env := newEnv(RNG{Kind: "keyiv", Seed: seed})
			sh, err := env.splitOK(v, secret, n, k)
			if err != nil {
				return err
			}
			in := cloneAll(choose(sh, Subset{"some", seed}.pick(n, k)))
			for i := s.u8() % 8; i > 0; i-- {
				in = applyMutation(in, Mutation{mutOps[s.u8()%len(mutOps)], s.u8(), s.u16(), s.u8()})
			}
			cn, ck := n, k
			if s.u8()%3 == 2 {
				cn, ck = s.u8(), s.u8()
			}
			_, _, err = CheckSSMSCombine(o, in, cn, ck, v == "ssmsWorker")
			return err
		}},
	{"FuzzCSPRNG", "C10", [][]byte{append(make([]byte, 32), 3, 0, 16, 0, 17, 0), append(bytes.Repeat([]byte{0xff}, 32), 1, 1, 0, 2, 31, 0)},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			kv := s.take(32)
			given := clone(kv)
			r := csprng.NewCSPRNGWithKeyIV(given)
			pos := uint64(0)
			for i := 0; i < 20 && len(s.b) > 0; i++ {
				op := srcOp{Op: "read", N: s.u16() % 5000, Fill: []string{"zero", "ff", "allbytes"}[s.u8()%3], Off: i}
				b, err := readInto(r, op)
				if err != nil {
					return err
				}
				if !bytes.Equal(b, keystreamAt(kv, pos, op.N)) {
					return fmt.Errorf("read %d of %d bytes at position %d is not the keystream", i, op.N, pos)
				}
				pos += uint64(op.N)
				given[i] ^= 1
			}
			return nil
		}},
	{"FuzzVector", "C13", [][]byte{{0, 3, 0, 0, 1, 2, 3, 4}, append([]byte{1, 200, 1, 0}, make([]byte, 200)...), append([]byte{2, 200, 1, 5}, make([]byte, 520)...)},
		func(o *eng.Obs, data []byte) error {
			s := &bytesrc{data}
			op := []string{"mul", "add", "mulgeneric", "addgeneric", "addbatch"}[s.u8()%5]
			c := byte(s.u8())
			oa, ob := s.u8()-128, s.u8()-128
			a := s.rest()
			b := make([]byte, len(a))
			for i := range b {
				b[i] = a[len(a)-1-i] + byte(i)
			}
			return doVec(op, c, a, b, oa, ob, false)
		}},
}

func fuzzRoundtrip(v string, secret []byte, n, k int, seed uint64) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: seed})
	sh, err := env.splitOK(v, secret, n, k)
	if err != nil {
		return err
	}
	if !isSSMS(v) {
		if err := ref.CheckShares(secret, n, k, sh); err != nil {
			return err
		}
	}
	idx := Subset{"min", seed}.pick(n, k)
	got, err := env.combine(v, choose(sh, idx), n, k)
	if err != nil {
		return fmt.Errorf("combining %d of the %d shares of %s(%d bytes) failed: %v", k, n, v, len(secret), err)
	}
	return sameSecret(v, got, secret)
}

func init() {
	for _, ft := range FuzzTargets {
		eng.AddEnum(eng.Sub{Prop: ft.Prop, Name: ft.Name, Configs: []string{"native"}, ThoroughOnly: true, Shards: 1,
			Rule: "the start inputs of the coverage-guided campaign (its executions are reported apart); each counts"},
			func(tier string) []FuzzCase {
				var r []FuzzCase
				for _, s := range ft.Seeds {
					r = append(r, FuzzCase{hex.EncodeToString(s)})
				}
				return r
			},
			func(o *eng.Obs, c FuzzCase) error {
				b, err := hex.DecodeString(c.Hex)
				if err != nil {
					return &eng.HarnessError{Err: err}
				}
				o.NonTrivial()
				return ft.Run(o, b)
			})
	}
}
