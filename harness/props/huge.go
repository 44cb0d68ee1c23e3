package props

import (
	"bytes"
	"fmt"
	"time"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// hugeCase is one split of a very long secret. They run one at a time.
type hugeCase struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
	Zero bool   `json:"zero"` // the secret is zero but for some bytes: it takes less memory
	Part bool   `json:"part"` // combine and compare parts of the shares only
	// Wait, if not 0, is how many seconds to wait for the split; one that takes
	// longer is not judged (it goes on running: such a case must be the last).
	Wait int `json:"wait,omitempty"`
}

const hugeWindow = 1 << 16

// windows are the pieces of a long secret that are looked at: both ends, around
// every power of two and multiples of a gigabyte, and every so often.
func hugeWindows(n int) [][2]int {
	var r [][2]int
	add := func(at int) {
		lo, hi := max(at-hugeWindow/2, 0), min(at+hugeWindow/2, n)
		if hi > lo {
			r = append(r, [2]int{lo, hi})
		}
	}
	for p := 1 << 16; p < n; p <<= 1 {
		add(p)
	}
	for p := 1 << 30; p < n && p > 0; p += 1 << 30 {
		add(p)
	}
	for i := 0; i <= 64; i++ {
		add(n / 64 * i)
	}
	add(n)
	return r
}

func (c hugeCase) secret(seed uint64) []byte {
	s := make([]byte, c.Len)
	if !c.Zero {
		fillRandom(s, seed)
		return s
	}
	for i, w := range hugeWindows(c.Len) {
		// every window but the very ends gets some random bytes
		fillRandom(s[w[0]:min(w[1], w[0]+hugeWindow)], seed+uint64(i))
	}
	return s
}

// piece is bytes lo to hi of the shares, each with its tag.
func piece(sh [][]byte, lo, hi int) [][]byte {
	r := make([][]byte, len(sh))
	for i, s := range sh {
		r[i] = append(clone(s[lo:hi]), s[len(s)-1])
	}
	return r
}

func runHuge(o *eng.Obs, c hugeCase) error {
	c.Seed ^= o.Seed
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	secret := c.secret(c.Seed)
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, c.Len, c.N, c.K)
	o.Class(c.V)
	var sh [][]byte
	var err error
	if c.Wait == 0 {
		sh, err = env.split(c.V, secret, c.N, c.K)
	} else {
		done := make(chan bool, 1)
		go func() {
			sh, err = env.split(c.V, secret, c.N, c.K)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(time.Duration(c.Wait) * time.Second):
			o.Class("not finished in %d s", c.Wait)
			return nil
		}
	}
	o.NonTrivial()
	if err != nil {
		return fmt.Errorf("%s failed: %v", desc, err)
	}
	if len(sh) != c.N {
		return fmt.Errorf("%s returned %d shares", desc, len(sh))
	}
	for i, s := range sh {
		want := c.Len + 1
		if isSSMS(c.V) {
			want = ref.SSMSShareLen(c.Len, c.K)
		}
		if len(s) != want {
			return fmt.Errorf("%s: share %d has %d bytes, want %d", desc, i, len(s), want)
		}
	}
	if !isSSMS(c.V) {
		for _, w := range hugeWindows(c.Len) {
			p := piece(sh, w[0], w[1])
			if err := ref.CheckShares(secret[w[0]:w[1]], c.N, c.K, p); err != nil {
				return fmt.Errorf("%s, from byte %d on: %v", desc, w[0], err)
			}
			for i, s := range p {
				if b := s[:len(s)-1]; tooSimilar(b, secret[w[0]:w[1]]) && len(b) > 100 {
					return fmt.Errorf("%s: share %d agrees with the secret from byte %d on", desc, i, w[0])
				}
			}
		}
	}
	sel := sh[c.N-c.K:]
	if c.Part {
		for _, w := range hugeWindows(c.Len) {
			got, err := shamir.Combine(piece(sel, w[0], w[1]))
			if err != nil {
				return fmt.Errorf("%s: Combine of the bytes from %d on failed: %v", desc, w[0], err)
			}
			if err := sameSecret(fmt.Sprintf("%s, from byte %d on", desc, w[0]), got, secret[w[0]:w[1]]); err != nil {
				return err
			}
		}
		return nil
	}
	got, err := env.combine(c.V, sel, c.N, c.K)
	if err != nil {
		return fmt.Errorf("%s: combining failed: %v", desc, err)
	}
	if !bytes.Equal(got, secret) {
		return sameSecret(desc, got, secret)
	}
	return nil
}

// overflow32 appends a split of 4 GiB that only an implementation which
// truncates the length can end in time.
func overflow32(f func(tier string) []hugeCase) func(tier string) []hugeCase {
	return func(tier string) []hugeCase {
		return append(f(tier), hugeCase{V: "SplitP", N: 2, K: 2, Len: wide(1<<32 + 3000), Zero: true, Part: true, Wait: 2})
	}
}

func hugeCases(variants []string, quick, thorough []hugeCase) func(tier string) []hugeCase {
	return func(tier string) []hugeCase {
		l := quick
		if tier == "thorough" {
			l = append(append([]hugeCase{}, quick...), thorough...)
		}
		var r []hugeCase
		for _, c := range l {
			vs := variants
			if c.V != "" {
				vs = []string{c.V}
			}
			for i, v := range vs {
				c.V = v
				c.Len += 7 * i
				c.Seed++
				r = append(r, c)
			}
		}
		return r
	}
}

// longCase is thousands of small splits from one source.
type longCase struct {
	V     string `json:"v"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Calls int    `json:"calls"`
	Seed  uint64 `json:"seed"`
}

// runLongHistory makes very many splits from one source; no hidden bytes may
// come twice.
func runLongHistory(o *eng.Obs, c longCase) error {
	c.Seed ^= o.Seed
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	rep := newRepeats()
	r := prng(c.Seed)
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, c.Len, c.N, c.K)
	secret := make([]byte, c.Len)
	perCol := make([]histogram, c.K)
	for call := 0; call < c.Calls; call++ {
		fillRandom(secret, r.Uint64())
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return fmt.Errorf("call %d: %v", call, err)
		}
		first := 1
		if isSSMS(c.V) {
			first = 0
			for i := range sh {
				sh[i] = sh[i][:ref.MetaLen]
			}
		}
		if err := distinctTags(sh); err != nil {
			return fmt.Errorf("call %d of %s: %v", call, desc, err)
		}
		cols := ref.Columns(sh[:c.K])
		for j := first; j < c.K; j++ {
			col := clone(cols[j])
			if isSSMS(c.V) && j == 0 {
				col = col[:ref.KeyLen]
			}
			for _, b := range col {
				perCol[j].add(b)
			}
			if err := rep.add(func() string { return fmt.Sprintf("call %d, coefficient %d of the bytes (0: the SSMS key)", call, j) }, col); err != nil {
				return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
			}
		}
	}
	for j := range perCol {
		if err := perCol[j].check(); err != nil {
			return fmt.Errorf("%s, %d calls, coefficient %d: %v", desc, c.Calls, j, err)
		}
	}
	o.Class(c.V)
	o.Bulk(c.Calls, c.Calls)
	return nil
}

func longCases(vs []string) func(tier string) []longCase {
	return func(tier string) []longCase {
		var r []longCase
		calls := 70000
		if tier == "thorough" {
			calls = 600000
		}
		for i, v := range vs {
			r = append(r, longCase{v, 2, 2, 16 + i, calls, uint64(i)})
			if tier == "thorough" {
				r = append(r, longCase{v, 4, 3, 9 + i, calls / 2, uint64(100 + i)})
				r = append(r, longCase{v, 22, 2, 33 + i, calls / 4, uint64(100 + i)})
			}
		}
		return r
	}
}

type pairRow struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
}

// runPairFormat checks the SSMS format for one n and every k.
func runPairFormat(o *eng.Obs, c pairRow) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
	r := prng(c.Seed ^ o.Seed)
	n := 0
	for k := 2; k <= c.N; k++ {
		edge := k < 4 || k > c.N-2 || k == 16 || k == 32 || k >= 127 && k <= 129
		if o.Tier != "thorough" && c.N > 64 && !edge && (k*7+c.N)%8 != 0 {
			continue
		}
		n++
		secret := make([]byte, 1+r.IntN(2*k+3))
		fillRandom(secret, r.Uint64())
		sh, err := env.splitOK(c.V, secret, c.N, k)
		if err != nil {
			return err
		}
		if _, _, err := CheckSSMSFormat(secret, c.N, k, sh); err != nil {
			return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, len(secret), c.N, k, err)
		}
	}
	o.Bulk(n, n)
	return nil
}

// runManySSMS makes thousands of splits with the same parameters and combines
// each.
func runManySSMS(o *eng.Obs, c subsetCase) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
	r := prng(c.Seed ^ o.Seed)
	secret := make([]byte, c.Len)
	m := max(300, 3000*20/(c.N*c.K))
	m = min(m, 3000)
	for i := 0; i < m; i++ {
		fillRandom(secret, r.Uint64())
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return fmt.Errorf("split %d: %v", i, err)
		}
		idx := r.Perm(c.N)[:c.K]
		got, err := env.combine(c.V, choose(sh, idx), c.N, c.K)
		if err != nil {
			return fmt.Errorf("split %d: combining shares %v of %s(n=%d,k=%d) failed: %v", i, idx, c.V, c.N, c.K, err)
		}
		if err := sameSecret(fmt.Sprintf("split %d: %s(n=%d,k=%d), shares %v", i, c.V, c.N, c.K, idx), got, secret); err != nil {
			return err
		}
	}
	o.Bulk(m, m)
	return nil
}

type relKeyCase struct {
	Base uint64   `json:"base"`
	Keys []relKey `json:"keys"`
	Ops  []relOp  `json:"ops"`
}

// relKey is a key derived from the base key.
type relKey struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Bit  int    `json:"bit"`
}

type relOp struct {
	Gen int `json:"gen"`
	N   int `json:"n"`
}

func (k relKey) of(base uint64) []byte {
	kv := RNG{Kind: "keyiv", Seed: base}.KeyIV()
	other := RNG{Kind: "keyiv", Seed: base + 1 + uint64(k.At)}.KeyIV()
	switch k.Kind {
	case "bit":
		kv[k.At%32] ^= 1 << (k.Bit % 8)
	case "swap": // same multiset of bytes, same XOR
		a, b := k.At%32, (k.At+1+k.Bit)%32
		kv[a], kv[b] = kv[b], kv[a]
	case "prefix": // the same up to At
		copy(kv[k.At%32:], other[k.At%32:])
	case "suffix":
		copy(kv[:k.At%32], other)
	case "iv":
		copy(kv[16:], other[16:])
	case "key":
		copy(kv[:16], other)
	case "halves":
		a := clone(kv[:16])
		copy(kv, kv[16:])
		copy(kv[16:], a)
	case "next": // the IV is a block later
		for i := 31; i >= 16; i-- {
			kv[i]++
			if kv[i] != 0 {
				break
			}
		}
	}
	return kv
}

// runRelKeys reads from generators with related keys in turn: each must be its
// own keystream.
func runRelKeys(o *eng.Obs, c relKeyCase) error {
	gens := make([]*csprng.CSPRNG, len(c.Keys))
	pos := make([]uint64, len(c.Keys))
	kvs := make([][]byte, len(c.Keys))
	used := 0
	for _, op := range c.Ops {
		g := op.Gen % len(c.Keys)
		if gens[g] == nil {
			kvs[g] = c.Keys[g].of(c.Base)
			gens[g] = csprng.NewCSPRNGWithKeyIV(clone(kvs[g]))
			used++
		}
		b := make([]byte, op.N)
		if n, err := gens[g].Read(b); n != op.N || err != nil {
			return fmt.Errorf("Read of %d bytes returned %d, %v", op.N, n, err)
		}
		if want := keystreamAt(kvs[g], pos[g], op.N); !bytes.Equal(b, want) {
			return fmt.Errorf("generator %d (key+iv %x), read of %d bytes at %d: %x, the keystream is %x; other generators: %x", g, kvs[g], op.N, pos[g], head(b), head(want), kvs)
		}
		pos[g] += uint64(op.N)
	}
	o.Class("generators: %d", used)
	if used >= 2 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	const m = 1 << 20
	eng.AddEnum(eng.Sub{Prop: "C01", Name: "huge", Configs: []string{"native"}, Alone: true, LimitS: 1500,
		Rule: "every split function with secrets of 16 to 70 MiB (thorough: to 2 GiB, SplitP to 4 GiB): shares checked at both ends, around powers of two and at 64 more places, and combined; also 4 GiB of SplitP for 2 s, to see a truncated length; every case that ends counts"},
		overflow32(hugeCases(shamirVariants,
			[]hugeCase{{N: 2, K: 2, Len: 16*m + 1001, Part: true}, {N: 2, K: 2, Len: 65*m + 19, V: "SplitWithRandomizer"}, {N: 2, K: 2, Len: 65*m + 2, V: "Split", Part: true}},
			[]hugeCase{{N: 3, K: 2, Len: 70*m + 1}, {N: 3, K: 3, Len: 70*m + 1}, {N: 3, K: 2, Len: 257*m + 5},
				{N: 2, K: 2, Len: wide(1<<31 + 5), V: "Split", Zero: true, Part: true}, {N: 2, K: 2, Len: wide(1<<31 + 6), V: "SplitWithRandomizer", Zero: true, Part: true}, {N: 2, K: 2, Len: wide(1<<32 + 3000), V: "SplitP", Zero: true, Part: true}})),
		runHuge)
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "huge", Configs: []string{"native"}, Alone: true, LimitS: 700,
		Rule: "every SSMS split function with secrets of 64 MiB (thorough: to 2 GiB), combined; every case counts"},
		hugeCases(ssmsVariants,
			[]hugeCase{{N: 4, K: 3, Len: 65*m + 1001}},
			[]hugeCase{{N: 5, K: 2, Len: 257*m + 1001}, {N: 2, K: 2, Len: 1<<30 + 1001}, {N: 2, K: 2, Len: wide(1<<31 + 5), V: "ssms", Zero: true}}),
		runHuge)
	eng.AddEnum(eng.Sub{Prop: "C03", Name: "long-histories", Configs: []string{"native"},
		Rule: "70000 (thorough 600000) splits of short secrets per function from one source: no 8 hidden bytes come twice, uniform coefficients, distinct tags; every split counts"},
		longCases(shamirVariants), runLongHistory)
	eng.AddEnum(eng.Sub{Prop: "C08", Name: "long-histories", Configs: []string{"native"},
		Rule: "70000 (thorough 600000) SSMS splits of short secrets per function from one source: no 8 bytes of keys and metadata coefficients come twice, both uniform; every split counts"},
		longCases(ssmsVariants), runLongHistory)
	eng.AddEnum(eng.Sub{Prop: "C08", Name: "all-pairs", Configs: []string{"native"},
		Rule: "every 2<=k<=n<=255 (quick: from n=65 on every eighth k and the edges) with a short secret, SSMS split functions in rotation (thorough: all): the whole format; every pair counts"},
		func(tier string) []pairRow {
			var r []pairRow
			for n := 255; n >= 2; n-- {
				// reedsolomon.New takes milliseconds for large numbers
				for i, v := range ssmsVariants {
					if tier == "thorough" || n%3 == i {
						r = append(r, pairRow{v, n, uint64(n*10 + i)})
					}
				}
			}
			return r
		}, runPairFormat)
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "many-splits", Configs: []string{"native"},
		Rule: "hundreds to thousands of splits of short secrets per (SSMS function, n, k), each combined; every split counts"},
		func(tier string) []subsetCase {
			var r []subsetCase
			reps := 1
			if tier == "thorough" {
				reps = 20
			}
			for i := 0; i < reps; i++ {
				for vi, v := range ssmsVariants {
					for j, nk := range [][2]int{{2, 2}, {3, 2}, {5, 3}, {7, 7}, {20, 5}, {64, 40}} {
						r = append(r, subsetCase{v, nk[0], nk[1], 1 + (i+j)%5*9, uint64(i*1000 + nk[0] + vi)})
					}
				}
			}
			return r
		}, runManySSMS)
	eng.Add(eng.Sub{Prop: "C10", Name: "related-keys", Configs: []string{"native"}, Quick: 6000, Thorough: 200000,
		Rule: "2..8 generators whose keys and IVs are related (equal but for a bit, two bytes swapped, the same up to or from some byte on, the IV one block later, the same), read in turn and compared with their keystreams; non-trivial: at least two were read"},
		func(t *rapid.T) relKeyCase {
			c := relKeyCase{Base: eng.Bits(t, 20, "base")}
			one := rapid.Custom(func(t *rapid.T) relKey {
				return relKey{eng.Pick(t, "kind", "same", "bit", "swap", "prefix", "suffix", "iv", "key", "halves", "next"), eng.Uniform(t, 0, 31, "at"), eng.Uniform(t, 0, 30, "bit")}
			})
			c.Keys = rapid.SliceOfN(one, 2, 8).Draw(t, "keys")
			op := rapid.Custom(func(t *rapid.T) relOp {
				return relOp{eng.Uniform(t, 0, 7, "gen"), eng.Pick(t, "n", 1, 5, 15, 16, 17, 32, 64, 100, 1000)}
			})
			c.Ops = rapid.SliceOfN(op, 2, 30).Draw(t, "ops")
			return c
		}, runRelKeys)
}
