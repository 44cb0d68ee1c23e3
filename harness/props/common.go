// Package props holds the executable form of the properties in
// /verif/properties.jsonl.
package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	randv2 "math/rand/v2"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

var allCPU = []string{"native", "ssse3", "sse2", "noasm"}

// ---- data -----------------------------------------------------------------

// Data describes a byte string compactly.
type Data struct {
	Len  int    `json:"len"`
	Fill string `json:"fill"`
	Seed uint64 `json:"seed,omitempty"`
	Lit  string `json:"lit,omitempty"` // hex, fill "lit"
}

func prng(seed uint64) *randv2.Rand {
	return randv2.New(randv2.NewPCG(seed, 0x9e3779b97f4a7c15))
}

func fillRandom(b []byte, seed uint64) {
	r := randv2.NewPCG(seed, 0x2545f4914f6cdd1d)
	i := 0
	for ; i+8 <= len(b); i += 8 {
		v := r.Uint64()
		for j := 0; j < 8; j++ {
			b[i+j] = byte(v >> (8 * j))
		}
	}
	if i < len(b) {
		v := r.Uint64()
		for ; i < len(b); i++ {
			b[i] = byte(v)
			v >>= 8
		}
	}
}

var fills = []string{"rand", "rand", "rand", "zero", "ff", "one", "leadzero", "trailzero", "trail1", "period16", "lowbits", "allbytes"}

// Bytes makes the described bytes.
func (d Data) Bytes() []byte {
	b := make([]byte, d.Len)
	switch d.Fill {
	case "lit":
		x, err := hex.DecodeString(d.Lit)
		if err != nil {
			panic(&eng.HarnessError{Err: err})
		}
		return x
	case "zero", "lowdeg":
	case "ff":
		for i := range b {
			b[i] = 0xff
		}
	case "one":
		for i := range b {
			b[i] = 1
		}
	case "rand":
		fillRandom(b, d.Seed)
	case "leadzero":
		fillRandom(b, d.Seed)
		clear(b[:min(len(b), 1+len(b)/3)])
	case "trailzero":
		fillRandom(b, d.Seed)
		clear(b[len(b)-min(len(b), 1+len(b)/3):])
	case "trail1":
		fillRandom(b, d.Seed)
		if len(b) > 0 {
			b[len(b)-1] = 0
		}
	case "period16":
		fillRandom(b[:min(16, len(b))], d.Seed)
		for i := 16; i < len(b); i++ {
			b[i] = b[i-16]
		}
	case "lowbits":
		fillRandom(b, d.Seed)
		for i := range b {
			b[i] &= 0x0f
		}
	case "allbytes":
		for i := range b {
			b[i] = byte(i)
		}
	default:
		panic(&eng.HarnessError{Err: fmt.Errorf("unknown fill %q", d.Fill)})
	}
	return b
}

// genLen draws a length in [1,maxLen] with weight on block boundaries.
func genLen(t *rapid.T, maxLen int) int {
	l := 1
	switch c := eng.Uniform(t, 0, 99, "lenclass"); {
	case c < 33:
		l = eng.Uniform(t, 1, 40, "len")
	case c < 60:
		l = eng.Pick(t, "block", 16, 32, 64, 128, 256)*eng.Uniform(t, 1, 12, "blocks") + eng.Uniform(t, -2, 2, "off")
	case c < 72:
		l = 1024*eng.Uniform(t, 1, 6, "kib") + eng.Uniform(t, -2, 2, "off")
	case c < 92:
		l = eng.Uniform(t, 1, 5000, "len")
	case c < 96:
		l = eng.Uniform(t, 5000, 40000, "len")
	case c < 98:
		l = 65536 + eng.Uniform(t, -2, 2, "off")
	default:
		l = eng.Uniform(t, 40000, 300000, "len")
	}
	if l > maxLen {
		l = 1 + l%maxLen
	}
	if l < 1 {
		l = 1
	}
	return l
}

func genData(t *rapid.T, maxLen int) Data {
	l := genLen(t, maxLen)
	if l <= 6 && eng.Uniform(t, 0, 3, "lit") == 0 {
		b := rapid.SliceOfN(rapid.Byte(), l, l).Draw(t, "bytes")
		return Data{Len: l, Fill: "lit", Lit: hex.EncodeToString(b)}
	}
	f := eng.Pick(t, "fill", fills...)
	d := Data{Len: l, Fill: f}
	switch f {
	case "zero", "ff", "one", "allbytes":
	default:
		d.Seed = eng.Bits(t, 24, "dataseed")
	}
	return d
}

// genNK draws 2 <= k <= n <= maxN.
func genNK(t *rapid.T, maxN int) (int, int) {
	n := 2
	switch c := eng.Uniform(t, 0, 99, "nclass"); {
	case c < 40:
		n = eng.Uniform(t, 2, 8, "n")
	case c < 55:
		n = eng.Uniform(t, 17, 22, "n")
	case c < 75:
		n = eng.Uniform(t, 2, 64, "n")
	case c < 90:
		n = eng.Uniform(t, 2, 255, "n")
	default:
		n = eng.Uniform(t, 253, 255, "n")
	}
	if n > maxN {
		n = 2 + n%(maxN-1)
	}
	k := 2
	switch c := eng.Uniform(t, 0, 9, "kclass"); {
	case c < 2:
		k = 2
	case c < 4:
		k = n
	case c < 5:
		k = max(2, n-1)
	case c < 7:
		k = min(n, eng.Uniform(t, 2, 5, "k"))
	default:
		k = eng.Uniform(t, 2, n, "k")
	}
	return n, k
}

func nkClass(o *eng.Obs, n, k int) {
	switch {
	case n == 255:
		o.Class("n=255")
	case n >= 200:
		o.Class("n>=200")
	case n >= 20:
		o.Class("n>=20")
	default:
		o.Class("n<20")
	}
	switch {
	case k == n:
		o.Class("k=n")
	case k == 2:
		o.Class("k=2")
	case k >= 128:
		o.Class("k>=128")
	}
}

func lenClass(o *eng.Obs, l int) {
	switch {
	case l > 1<<20:
		o.Class("len>1MiB")
	case l > 65536:
		o.Class("len>64KiB")
	case l > 4096:
		o.Class("len>4KiB")
	case l >= 1024:
		o.Class("len>=1KiB")
	case l >= 128:
		o.Class("len>=128")
	case l >= 16:
		o.Class("len>=16")
	default:
		o.Class("len<16")
	}
	if l%16 != 0 && l > 16 {
		o.Class("len with SIMD tail")
	}
}

// ---- random sources -------------------------------------------------------

// RNG describes a CSPRNG and what has already been drawn from it.
type RNG struct {
	Kind string `json:"kind"` // new, keyiv, ivlow, ivhigh
	Seed uint64 `json:"seed,omitempty"`
	Warm []int  `json:"warm,omitempty"` // reads; negative: -n is Perm(n)
}

func genRNG(t *rapid.T) RNG {
	r := RNG{Kind: eng.Pick(t, "rngkind", "new", "keyiv", "keyiv", "ivlow", "ivhigh"), Seed: eng.Bits(t, 16, "rngseed")}
	for i := eng.Uniform(t, 0, 3, "warm"); i > 0; i-- {
		r.Warm = append(r.Warm, eng.Pick(t, "warmread", 1, 3, 15, 16, 17, 100, 1000, 65536, -255, -20, -5))
	}
	return r
}

// KeyIV returns the 32 bytes of the source (not for kind "new").
func (r RNG) KeyIV() []byte {
	kv := make([]byte, 32)
	fillRandom(kv, r.Seed^0xabcdef)
	switch r.Kind {
	case "ivlow": // the 64 low counter bits are about to wrap
		for i := 24; i < 32; i++ {
			kv[i] = 0xff
		}
	case "ivhigh": // the whole counter is about to wrap
		for i := 16; i < 32; i++ {
			kv[i] = 0xff
		}
	}
	return kv
}

func (r RNG) New() *csprng.CSPRNG {
	var c *csprng.CSPRNG
	if r.Kind == "new" {
		c = csprng.NewCSPRNG()
	} else {
		c = csprng.NewCSPRNGWithKeyIV(r.KeyIV())
	}
	for _, w := range r.Warm {
		if w < 0 {
			c.Perm(byte(-w))
		} else {
			_, _ = c.Read(make([]byte, w))
		}
	}
	return c
}

// ---- split variants -------------------------------------------------------

// Variants of the two schemes.
var (
	shamirVariants = []string{"Split", "SplitGeneric", "SplitP", "SplitWithRandomizer", "SplitWithRandomizerOld", "worker"}
	ssmsVariants   = []string{"ssms", "ssmsR", "ssmsWorker"}
)

func isSSMS(v string) bool { return v == "ssms" || v == "ssmsR" || v == "ssmsWorker" }

// Env holds the sources a case's splits draw from.
type Env struct {
	R *csprng.CSPRNG
	W worker.Worker
}

func newEnv(r RNG) *Env { return &Env{R: r.New(), W: worker.NewWorker()} }

func (e *Env) split(v string, secret []byte, n, k int) ([][]byte, error) {
	switch v {
	case "Split":
		return shamir.Split(secret, n, k)
	case "SplitGeneric":
		return shamir.SplitGeneric(secret, n, k)
	case "SplitP":
		return shamir.SplitP(secret, n, k)
	case "SplitWithRandomizer":
		return shamir.SplitWithRandomizer(secret, n, k, e.R)
	case "SplitWithRandomizerOld":
		return shamir.SplitWithRandomizerOld(secret, n, k, e.R)
	case "worker":
		return e.W.Split(worker.AlgShamir, secret, n, k)
	case "ssms":
		return krawczyk.Split(secret, n, k)
	case "ssmsR":
		return krawczyk.SplitWithRandomizer(secret, n, k, e.R)
	case "ssmsWorker":
		return e.W.Split(worker.AlgSSMS, secret, n, k)
	}
	panic(&eng.HarnessError{Err: fmt.Errorf("unknown variant %q", v)})
}

// combine uses the counterpart of the split variant.
func (e *Env) combine(v string, shares [][]byte, n, k int) ([]byte, error) {
	switch v {
	case "worker":
		return e.W.Combine(worker.AlgShamir, shares, n, k)
	case "ssmsWorker":
		return e.W.Combine(worker.AlgSSMS, shares, n, k)
	case "ssms", "ssmsR":
		return krawczyk.Combine(shares, n, k)
	}
	return shamir.Combine(shares)
}

// splitOK is split for parameters that must be accepted; it checks the shape
// so that what follows can index safely.
func (e *Env) splitOK(v string, secret []byte, n, k int) ([][]byte, error) {
	keep := append([]byte(nil), secret...)
	sh, err := e.split(v, secret, n, k)
	if err != nil {
		return nil, fmt.Errorf("%s(%d bytes, %d, %d) failed: %v", v, len(secret), n, k, err)
	}
	if !bytes.Equal(keep, secret) {
		return nil, fmt.Errorf("%s(%d bytes, %d, %d) changed the secret", v, len(secret), n, k)
	}
	if len(sh) != n {
		return nil, fmt.Errorf("%s(%d bytes, %d, %d) returned %d shares", v, len(secret), n, k, len(sh))
	}
	want := len(secret) + 1
	if isSSMS(v) {
		want = ref.SSMSShareLen(len(secret), k)
	}
	for i, s := range sh {
		if len(s) != want {
			return nil, fmt.Errorf("%s(%d bytes, %d, %d): share %d has %d bytes, want %d", v, len(secret), n, k, i, len(s), want)
		}
	}
	return sh, nil
}

func sameSecret(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: got %d bytes, the secret has %d", what, len(got), len(want))
	}
	n, first := 0, -1
	for i := range got {
		if got[i] != want[i] {
			if first < 0 {
				first = i
			}
			n++
		}
	}
	return fmt.Errorf("%s: %d of %d bytes differ from the secret, the first at %d (%#02x, want %#02x)", what, n, len(got), first, got[first], want[first])
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func cloneAll(bs [][]byte) [][]byte {
	r := make([][]byte, len(bs))
	for i := range bs {
		if bs[i] != nil {
			r[i] = append([]byte{}, bs[i]...)
		}
	}
	return r
}

func sameAll(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Subset describes which shares of a split to use.
type Subset struct {
	Kind string `json:"kind"` // min, some, all, front, back, reverse
	Seed uint64 `json:"seed"`
}

func genSubset(t *rapid.T) Subset {
	return Subset{eng.Pick(t, "subset", "min", "min", "min", "some", "all", "front", "back", "reverse"), eng.Bits(t, 16, "subsetseed")}
}

// pick returns at least k of the n indices.
func (s Subset) pick(n, k int) []int {
	r := prng(s.Seed)
	perm := r.Perm(n)
	switch s.Kind {
	case "min":
		return perm[:k]
	case "some":
		return perm[:k+r.IntN(n-k+1)]
	case "front":
		x := make([]int, k)
		for i := range x {
			x[i] = i
		}
		return x
	case "back":
		x := make([]int, k)
		for i := range x {
			x[i] = n - 1 - i
		}
		return x
	case "reverse":
		x := make([]int, n)
		for i := range x {
			x[i] = n - 1 - i
		}
		return x
	}
	return perm
}

func choose(sh [][]byte, idx []int) [][]byte {
	r := make([][]byte, len(idx))
	for i, x := range idx {
		r[i] = sh[x]
	}
	return r
}

// combineBudget bounds the quadratic cost of combining m shares of L bytes.
func capLen(l, m int, budget int) int {
	c := max(32, budget/(m*m))
	if l > c {
		return 1 + l%c
	}
	return l
}

// wide is v in an int, cut to 32 bits where an int has no more.
func wide(v int64) int { return int(v) }

// everywhere adds the 32-bit build and the arm64 routines to them.
func everywhere(configs ...string) []string {
	return append(with32(configs...), "neon")
}

// with32 adds the 32-bit build to the configurations.
func with32(configs ...string) []string {
	return append(append([]string(nil), configs...), "386")
}
