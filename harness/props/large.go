package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// The checks in this file repeat what the others do with few, much longer
// inputs: behaviour that starts at some size (another code path, a buffer that
// is full, a counter that wraps) shows there only.

// genBig draws a length between lo and hi, evenly over the magnitudes, with
// weight on powers of two and their neighbourhood.
func genBig(t *rapid.T, lo, hi int) int {
	oct := 0
	for lo<<(oct+1) <= hi {
		oct++
	}
	base := lo << eng.Uniform(t, 0, oct, "octave")
	l := 0
	switch eng.Uniform(t, 0, 3, "bigclass") {
	case 0:
		l = 1
		for l < base {
			l <<= 1
		}
		l += eng.Pick(t, "off", 0, 0, 1, -1, 16, -16, 17, 1024, 1000)
	default:
		l = base + eng.Uniform(t, 0, base, "more")
	}
	return max(1, min(l, hi))
}

func bigTop(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// ---- hidden bytes ---------------------------------------------------------

// runsOf finds strings of at least 40 bytes that occur twice in long streams.
type runsOf struct {
	seen map[uint64]repPos
	srcs [][]byte
	what []string
}

func newRunsOf() *runsOf { return &runsOf{seen: map[uint64]repPos{}} }

func (r *runsOf) add(what string, b []byte) error {
	src := int32(len(r.srcs))
	r.srcs = append(r.srcs, b)
	r.what = append(r.what, what)
	for i := 0; i+8 <= len(b); i++ {
		k := binary.LittleEndian.Uint64(b[i:])
		if p, ok := r.seen[k]; ok {
			o := r.srcs[p.src]
			lo, hi := 0, 8
			for int(p.off)-lo > 0 && i-lo > 0 && o[int(p.off)-lo-1] == b[i-lo-1] {
				lo++
			}
			for int(p.off)+hi < len(o) && i+hi < len(b) && o[int(p.off)+hi] == b[i+hi] {
				hi++
			}
			if lo+hi >= 14 {
				return fmt.Errorf("%d equal bytes in a row: %s from %d on, and %s from %d on (%x)", lo+hi, what, i-lo, r.what[p.src], int(p.off)-lo, head(b[i-lo:i+hi]))
			}
		}
		if i%32 == 0 {
			if _, ok := r.seen[k]; !ok {
				r.seen[k] = repPos{src, int32(i)}
			}
		}
	}
	return nil
}

// evenStream checks a long stream for uniformity, as a whole and in pieces.
func evenStream(what string, s []byte) error {
	var all histogram
	const piece = 4096
	for at := 0; at < len(s); at += piece {
		end := min(len(s), at+piece)
		var h histogram
		for _, b := range s[at:end] {
			h.add(b)
			all.c[b]++
		}
		all.n += end - at
		if err := h.check(); err != nil {
			return fmt.Errorf("%s, bytes %d to %d: %v", what, at, end, err)
		}
	}
	if err := all.check(); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if n := len(s); n >= 48 { // the end may be a short piece
		for _, part := range [][]byte{s[:min(n, 1500)], s[n-min(n, 1500):]} {
			var h histogram
			for _, b := range part {
				h.add(b)
			}
			if err := h.check(); err != nil {
				return fmt.Errorf("%s, at one end: %v", what, err)
			}
			for _, v := range []byte{0, 1, 0xff} {
				if m := h.c[v]; float64(m) > 24+float64(len(part))/20 {
					return fmt.Errorf("%s, at one end: %d of %d are %#02x", what, m, len(part), v)
				}
			}
		}
	}
	for _, w := range endWindows(len(s)) {
		part := s[w[0]:w[1]]
		if v, m := constantColumn(part); float64(m) > 10+float64(len(part))/8 {
			return fmt.Errorf("%s: %d of the bytes %d to %d are %#02x", what, m, w[0], w[1], v)
		}
	}
	return nil
}

// endWindows are short windows at both ends of n bytes, and around their last
// block borders.
func endWindows(n int) [][2]int {
	var r [][2]int
	for _, w := range []int{16, 32, 64, 256, 1024} {
		if w <= n {
			r = append(r, [2]int{0, w}, [2]int{n - w, n})
		}
		if at := n - n%w; at >= 0 && n-at >= 12 {
			r = append(r, [2]int{at, n})
		}
	}
	return r
}

// lagXors compares a stream with itself at many distances.
func lagXors(what string, s []byte) error {
	lags := map[int]bool{}
	for d := 1; d < len(s); d *= 2 {
		for _, l := range []int{d, d - 1, d + 1, 3 * d, len(s) / d} {
			if l > 0 && l < len(s)-2000 {
				lags[l] = true
			}
		}
	}
	check := func(d, from, to int) error {
		var h histogram
		for i := from; i < to; i++ {
			h.add(s[i] ^ s[i+d])
		}
		if err := h.check(); err != nil {
			return fmt.Errorf("%s: byte i XOR byte i+%d for i from %d to %d: %v", what, d, from, to, err)
		}
		return nil
	}
	for d := range lags {
		n := len(s) - d
		if err := check(d, 0, min(n, 20000)); err != nil {
			return err
		}
		if err := check(d, max(0, n-20000), n); err != nil {
			return err
		}
	}
	return nil
}

type largeCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Len    int    `json:"len"`
	Secret string `json:"secret"` // rand, zero, fixed
	Calls  int    `json:"calls"`
	RNG    RNG    `json:"rng"`
	Seed   uint64 `json:"seed"`
}

func genLarge(vs []string, top int) func(t *rapid.T) largeCase {
	return func(t *rapid.T) largeCase {
		c := largeCase{V: eng.Pick(t, "variant", vs...), Secret: eng.Pick(t, "secret", "rand", "zero", "fixed", "fixed"), Calls: 2, RNG: genRNG(t), Seed: eng.Bits(t, 16, "seed")}
		c.K = eng.Pick(t, "k", 2, 2, 3, 3, 4, 7)
		c.N = c.K + eng.Pick(t, "extra", 0, 0, 1, 3)
		c.Len = genBig(t, 8192, top)
		c.Len = max(8192, min(c.Len, 16<<20/(c.K*c.K)))
		return c
	}
}

// runLarge: the coefficients of long splits never repeat, are uniform
// everywhere and not tied to the secret.
func runLarge(o *eng.Obs, c largeCase) error {
	env := newEnv(c.RNG)
	secret := make([]byte, c.Len)
	fill := func(call int) {
		if c.Secret == "rand" {
			fillRandom(secret, c.Seed+uint64(call))
		}
	}
	if c.Secret == "fixed" {
		fillRandom(secret, c.Seed)
	}
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, c.Len, c.N, c.K)
	o.Class(c.V)
	o.Class("secret %s", c.Secret)
	lenClass(o, c.Len)
	o.NonTrivial()
	runs := newRunsOf()
	for call := 0; call < c.Calls; call++ {
		fill(call)
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		if err := distinctTags(sh); err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		cols := ref.Columns(sh[:c.K])
		flat := make([]byte, 0, c.Len*(c.K-1))
		if c.K > 2 {
			for p := 0; p < c.Len; p++ {
				for j := 1; j < c.K; j++ {
					flat = append(flat, cols[j][p])
				}
			}
			if err := runs.add(fmt.Sprintf("call %d, all coefficients in order", call), flat); err != nil {
				return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
			}
		}
		for j := 1; j < c.K; j++ {
			what := fmt.Sprintf("call %d, coefficient %d of the bytes", call, j)
			if err := runs.add(what, cols[j]); err != nil {
				return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
			}
			if err := evenStream(what, cols[j]); err != nil {
				return fmt.Errorf("%s: %v", desc, err)
			}
			if err := lagXors(what, cols[j]); err != nil {
				return fmt.Errorf("%s: %v", desc, err)
			}
			if c.Secret != "zero" {
				x := make([]byte, c.Len)
				for p := range x {
					x[p] = cols[j][p] ^ secret[p]
				}
				if err := evenStream(what+" XOR the secret", x); err != nil {
					return fmt.Errorf("%s: %v", desc, err)
				}
			}
		}
		for i, s := range sh {
			for at := 0; at < c.Len; at += 4096 {
				end := min(c.Len, at+4096)
				if tooSimilar(s[at:end], secret[at:end]) {
					return fmt.Errorf("%s: share %d (tag %d) agrees with the secret in bytes %d to %d", desc, i, s[c.Len], at, end)
				}
			}
			for _, w := range endWindows(c.Len) {
				if tooSimilar(s[w[0]:w[1]], secret[w[0]:w[1]]) {
					return fmt.Errorf("%s: share %d (tag %d) agrees with the secret in bytes %d to %d", desc, i, s[c.Len], w[0], w[1])
				}
			}
		}
	}
	return nil
}

// runLargePositions looks at every byte position of a long split over relCalls
// calls.
func runLargePositions(o *eng.Obs, c largeCase) error {
	env := newEnv(c.RNG)
	secret := make([]byte, c.Len)
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, c.Len, c.N, c.K)
	var cols [relCalls][][]byte
	tags := make([][]byte, c.N)
	for i := range tags {
		tags[i] = make([]byte, relCalls)
	}
	for call := range cols {
		fillRandom(secret, c.Seed+uint64(call))
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		if err := distinctTags(sh); err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		for i, s := range sh {
			tags[i][call] = s[c.Len]
		}
		cols[call] = ref.Columns(sh[:c.K])
	}
	var buf [relCalls]byte
	for j := 1; j < c.K; j++ {
		for p := 0; p < c.Len; p++ {
			for call := range buf {
				buf[call] = cols[call][j][p]
			}
			if v, m := constantColumn(buf[:]); m >= relLimit {
				return fmt.Errorf("%s: coefficient %d of byte %d is %#02x in %d of %d calls", desc, j, p, v, m, relCalls)
			}
		}
	}
	// the relations, at the borders of blocks
	var pos []int
	for _, b := range []int{0, 1024, 4096, 16384, 65536, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 2 << 20, c.Len / 4, c.Len / 2, c.Len} {
		for d := -9; d <= 9; d++ {
			if p := b + d; p >= 0 && p < c.Len {
				pos = append(pos, p)
			}
		}
	}
	var sel [][]byte
	var where []string
	for _, p := range pos {
		for j := 1; j < c.K; j++ {
			col := make([]byte, relCalls)
			for call := range col {
				col[call] = cols[call][j][p]
			}
			sel = append(sel, col)
			where = append(where, fmt.Sprintf("coefficient %d of byte %d", j, p))
		}
	}
	// distinct positions only: the borders may coincide
	uniq := map[string]bool{}
	n := 0
	for i := range sel {
		if uniq[where[i]] {
			continue
		}
		uniq[where[i]] = true
		sel[n], where[n] = sel[i], where[i]
		n++
	}
	sel, where = sel[:n], where[:n]
	for i := range sel {
		for j := range sel[:i] {
			if why := related(sel[j], sel[i]); why != "" {
				return fmt.Errorf("%s: %s depends on %s: %s", desc, where[i], where[j], why)
			}
		}
		for ti, tg := range tags {
			if why := related(tg, sel[i]); why != "" {
				return fmt.Errorf("%s: %s depends on the tag of share %d: %s", desc, where[i], ti, why)
			}
		}
	}
	o.Class(c.V)
	o.Bulk(c.Len*(c.K-1), c.Len*(c.K-1))
	return nil
}

// runLargeKeys: SSMS keys and metadata coefficients of long secrets.
func runLargeKeys(o *eng.Obs, c largeCase) error {
	env := newEnv(c.RNG)
	secret := make([]byte, c.Len)
	if c.Secret == "fixed" {
		fillRandom(secret, c.Seed)
	}
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, c.Len, c.N, c.K)
	rep := newRepeats()
	cols := make([][]byte, ref.KeyLen+(ref.KeyLen+ref.LenLen)*(c.K-1))
	for call := 0; call < c.Calls; call++ {
		if c.Secret == "rand" {
			fillRandom(secret, c.Seed+uint64(call))
		}
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		meta := make([][]byte, c.K)
		for i := range meta {
			meta[i] = sh[i][:ref.MetaLen]
		}
		if err := distinctTags(meta); err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		coef := ref.Columns(meta)
		for j, x := range coef {
			x = x[:ref.KeyLen] // the rest of coefficient 0 is the length
			name := "the key"
			if j > 0 {
				name = fmt.Sprintf("metadata coefficients %d", j)
			}
			if err := rep.add(func() string { return fmt.Sprintf("%s of call %d", name, call) }, clone(x)); err != nil {
				return fmt.Errorf("%s: %v", desc, err)
			}
			if bytes.Contains(secret, x) && c.Secret != "zero" {
				return fmt.Errorf("%s: %s is a piece of the secret", desc, name)
			}
		}
		at := 0
		for j, x := range coef {
			if j == 0 {
				x = x[:ref.KeyLen]
			}
			for _, v := range x {
				cols[at] = append(cols[at], v)
				at++
			}
		}
		if c.Secret == "zero" {
			// the pieces hold the bare keystream
			for i, s := range sh {
				body := s[ref.MetaLen : len(s)-1]
				if len(body) >= 4096 {
					if err := evenStream(fmt.Sprintf("piece %d", i), body); err != nil {
						return fmt.Errorf("%s: %v", desc, err)
					}
				}
			}
		}
	}
	for i, col := range cols {
		if v, m := constantColumn(col); m >= max(8, len(col)/4) {
			return fmt.Errorf("%s: byte %d of key and metadata coefficients is %#02x in %d of %d calls", desc, i, v, m, len(col))
		}
	}
	o.Class(c.V)
	o.Class("secret %s", c.Secret)
	lenClass(o, c.Len)
	o.NonTrivial()
	return nil
}

// runLargeReseed is runReseed for long secrets and reads.
func runLargeReseed(o *eng.Obs, c reseedCase) error {
	o.Class(c.Kind)
	lenClass(o, c.Len)
	runs := newRunsOf()
	keys := newRepeats()
	for i := 0; i < 2; i++ {
		mrand.Seed(c.Seed)
		for j := 0; j < c.Warm; j++ {
			mrand.Int63()
		}
		h, err := hidden(c.Kind, c.N, c.K, c.Len)
		if err != nil {
			return err
		}
		for part, x := range h {
			add := runs.add
			if len(x) < 1000 {
				add = func(what string, b []byte) error { return keys.add(func() string { return what }, b) }
			}
			if err := add(fmt.Sprintf("use %d, hidden bytes %d", i, part), x); err != nil {
				return fmt.Errorf("%s(%d bytes, n=%d, k=%d), each time after math/rand was reset to %d: %v", c.Kind, c.Len, c.N, c.K, c.Seed, err)
			}
			if c.K > 2 && len(x) >= 1000 {
				for j := 0; j < c.K-1; j++ {
					col := make([]byte, 0, len(x)/(c.K-1)+1)
					for p := j; p < len(x); p += c.K - 1 {
						col = append(col, x[p])
					}
					if err := runs.add(fmt.Sprintf("use %d, coefficient %d", i, j+1), col); err != nil {
						return fmt.Errorf("%s(%d bytes, n=%d, k=%d), each time after math/rand was reset to %d: %v", c.Kind, c.Len, c.N, c.K, c.Seed, err)
					}
				}
			}
		}
	}
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C03", Name: "large", Configs: []string{"native"}, Quick: 160, Thorough: 3000,
		Rule: "two splits of 8 KiB to 4 MiB with the same or different secrets: no string of hidden coefficients (by index, or all in order) occurs twice, every 4 KiB of them uniform, also XORed with the secret and with themselves at many distances; no share agrees with the secret; every case counts"},
		genLarge(shamirVariants, 4<<20), runLarge)
	eng.AddEnum(eng.Sub{Prop: "C03", Name: "large-positions", Configs: []string{"native"},
		Rule: "64 splits of 20 KB to 1.1 MB with equal parameters: no coefficient of any byte recurs, those at the borders of blocks and at the end are unrelated to each other and the tags; every coefficient counts"},
		func(tier string) []largeCase {
			var r []largeCase
			lens := []int{70001, 1<<18 + 5}
			if tier == "thorough" {
				lens = []int{20000, 70001, 1<<17 + 16, 1<<18 + 5, 600003, 1<<20 + 100}
			}
			for i, v := range shamirVariants {
				for j, l := range lens {
					k := 2 + (i+j)%2
					r = append(r, largeCase{V: v, N: k + i%2, K: k, Len: l + 37*i, RNG: RNG{Kind: "keyiv", Seed: uint64(i)}, Seed: uint64(i*100 + j)})
				}
			}
			return r
		},
		func(o *eng.Obs, c largeCase) error {
			c.RNG.Seed ^= o.Seed
			c.Seed ^= o.Seed
			return runLargePositions(o, c)
		})
	eng.Add(eng.Sub{Prop: "C08", Name: "large-keys", Configs: []string{"native"}, Quick: 240, Thorough: 4000,
		Rule: "4 to 40 SSMS splits of 2 KiB to 4 MiB with the same or different secrets: keys and metadata coefficients never repeat or recur and are no piece of the secret, the keystream is uniform; every case counts"},
		func(t *rapid.T) largeCase {
			c := genLarge(ssmsVariants, 4<<20)(t)
			if rapid.Bool().Draw(t, "shorter") {
				c.Len = genBig(t, 2048, 65536)
			}
			c.Calls = max(4, min(40, 8<<20/c.Len))
			if c.Calls < 10 {
				c.Calls = 10
				c.Len = min(c.Len, 1<<20)
			}
			return c
		}, runLargeKeys)
	eng.Add(eng.Sub{Prop: "C16", Name: "reseeded-large", Configs: []string{"native"}, RealEntropy: true, Quick: 200, Thorough: 3000,
		Rule: "every kind of split and fresh source with 6 KiB to 4 MiB, used twice after math/rand was reset to the same seed: no string of hidden bytes of one use occurs in the other (or twice in one); every case counts"},
		func(t *rapid.T) reseedCase {
			c := reseedCase{Kind: eng.Pick(t, "kind", hiddenKinds...), Warm: eng.Pick(t, "warm", 0, 0, 1, 17), Times: 2, Within: 1}
			c.Seed = eng.Pick(t, "seed", 0, 1, 42, -1, int64(eng.Bits(t, 40, "s")))
			c.K = eng.Pick(t, "k", 2, 2, 3, 5)
			c.N = c.K + eng.Pick(t, "extra", 0, 1, 4)
			c.Len = min(genBig(t, 6000, 4<<20), 12<<20/(c.K*c.K))
			return c
		}, runLargeReseed)

	// ---- values -----------------------------------------------------------
	eng.Add(eng.Sub{Prop: "C02", Name: "large", Configs: allCPU, Quick: 100, Thorough: 2000,
		Rule: "splits of 8 KiB to 4 MiB: all n shares on one polynomial through the secret, checked byte by byte; every case counts"},
		genLarge(shamirVariants, 4<<20),
		func(o *eng.Obs, c largeCase) error {
			env := newEnv(c.RNG)
			secret := make([]byte, c.Len)
			fillRandom(secret, c.Seed)
			o.Class(c.V)
			lenClass(o, c.Len)
			o.NonTrivial()
			sh, err := env.splitOK(c.V, secret, c.N, c.K)
			if err != nil {
				return err
			}
			if err := ref.CheckShares(secret, c.N, c.K, sh); err != nil {
				return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, c.Len, c.N, c.K, err)
			}
			return nil
		})
	eng.Add(eng.Sub{Prop: "C02", Name: "large-foreign", Configs: []string{"native"}, Quick: 100, Thorough: 2000,
		Rule: "shares of 8 KiB to 4 MiB made by the reference must combine; every case counts"},
		genLarge([]string{"Combine"}, 4<<20),
		func(o *eng.Obs, c largeCase) error {
			secret := make([]byte, c.Len)
			fillRandom(secret, c.Seed)
			coef := refCoef("rand", c.K, c.Len, c.Seed+1)
			for p := range secret {
				coef[p][0] = secret[p]
			}
			r := prng(c.Seed)
			tags := make([]byte, c.N)
			for i, x := range r.Perm(255)[:c.N] {
				tags[i] = byte(x + 1)
			}
			sh := choose(ref.Shares(coef, tags), r.Perm(c.N)[:c.K])
			lenClass(o, c.Len)
			o.NonTrivial()
			got, err := shamir.Combine(sh)
			if err != nil {
				return fmt.Errorf("Combine refused %d shares of %d bytes: %v", c.K, c.Len+1, err)
			}
			return sameSecret("Combine of independently made shares", got, secret)
		})
	eng.Add(eng.Sub{Prop: "C05", Name: "large", Configs: []string{"native", "noasm"}, Quick: 160, Thorough: 3000,
		Rule: "2..6 shares of 5 KB to 2 MiB with arbitrary content, some malformed (as many-shares); non-trivial: not malformed"},
		func(t *rapid.T) bigArb {
			c := bigArb{M: eng.Uniform(t, 2, 6, "m"), Len: genBig(t, 5000, 2<<20), Seed: eng.Bits(t, 16, "seed"), Worker: rapid.Bool().Draw(t, "worker"), Fill: eng.Pick(t, "fill", "rand", "rand", "zero", "ff", "period16")}
			c.Mut = eng.Pick(t, "mut", "nonzerotags", "nonzerotags", "nonzerotags", "dup", "duptag", "alias", "short", "long", "nil", "empty", "zerotag")
			c.At = eng.Uniform(t, 0, 4000, "at")
			return c
		},
		func(o *eng.Obs, c bigArb) error {
			o.Class("mut %s", c.Mut)
			lenClass(o, c.Len)
			if c.Mut == "nonzerotags" {
				o.NonTrivial()
			}
			return CheckCombine(o, c.build(), c.Worker)
		})
	eng.Add(eng.Sub{Prop: "C06", Name: "large", Configs: []string{"native"}, Quick: 120, Thorough: 2000,
		Rule: "sharings of 4 KiB to 2 MiB, one or two regenerations of 1..4 shares, then combinations of old and new ones; every case counts"},
		func(t *rapid.T) regenCase {
			c := regenCase{V: eng.Pick(t, "variant", shamirVariants...), RNG: genRNG(t), Final: genSubset(t)}
			c.K = eng.Pick(t, "k", 2, 2, 3, 4)
			c.N = c.K + eng.Pick(t, "extra", 0, 1, 2)
			for i := eng.Uniform(t, 1, 2, "steps"); i > 0; i-- {
				c.Steps = append(c.Steps, regenStep{Subset{eng.Pick(t, "subset", "min", "min", "all"), eng.Bits(t, 16, "ss")}, eng.Uniform(t, 1, 4, "num")})
			}
			c.Secret = Data{Len: min(genBig(t, 4096, 2<<20), 8<<20/(c.N*c.N)), Fill: "rand", Seed: eng.Bits(t, 16, "seed")}
			return c
		}, runRegen)
	eng.Add(eng.Sub{Prop: "C13", Name: "large", Configs: append([]string{"neon"}, vecConfigs...), Quick: 160, Thorough: 4000,
		Rule: "as vectors, with lengths from 64 KiB to 8 MiB; every case counts"},
		func(t *rapid.T) vecCase {
			c := genVec(t)
			c.A = Data{Len: genBig(t, 65536, 8<<20), Fill: eng.Pick(t, "afill", "rand", "allbytes"), Seed: eng.Bits(t, 16, "aseed")}
			if rapid.Bool().Draw(t, "shorter") {
				c.A.Len = genBig(t, 4096, 1<<18)
			}
			c.B.Len = c.A.Len
			return c
		},
		func(o *eng.Obs, c vecCase) error {
			o.Class(c.Op)
			lenClass(o, c.A.Len)
			o.NonTrivial()
			freeArenas()
			err := doVec(c.Op, c.C, c.A.Bytes(), c.B.Bytes(), c.OffA, c.OffB, c.Same)
			freeArenas()
			return err
		})
	eng.Add(eng.Sub{Prop: "C14", Name: "large", Configs: []string{"native", "noasm"}, Quick: 120, Thorough: 2000,
		Rule: "as histories, with secrets of 5 KB to 1 MiB and few shares; non-trivial: as there"},
		func(t *rapid.T) isoCase {
			c := genIso(t)
			c.Steps = c.Steps[:min(len(c.Steps), 7)]
			for i := range c.Steps {
				s := &c.Steps[i]
				if s.Op == "split" {
					s.N = eng.Uniform(t, 2, 4, "ln")
					s.K = eng.Uniform(t, 2, s.N, "lk")
					s.Len = genBig(t, 5000, 1<<20)
				}
			}
			return c
		}, runIso)
	eng.Add(eng.Sub{Prop: "C15", Name: "large", Configs: []string{"native"}, RealEntropy: true, Quick: 48, Thorough: 1000,
		Rule: "as mixed, with secrets of 16 KiB to 1 MiB and 2..8 goroutines; every case counts"},
		func(t *rapid.T) concCase {
			c := genConc(allVariants())(t)
			c.Ops = c.Ops[:min(2, len(c.Ops))]
			c.Goroutines = eng.Pick(t, "lg", 2, 4, 8)
			c.Rounds = eng.Uniform(t, 1, 2, "lr")
			for i := range c.Ops {
				op := &c.Ops[i]
				op.N = eng.Uniform(t, 2, 4, "ln")
				op.K = eng.Uniform(t, 2, min(3, op.N), "lk")
				op.Len = min(genBig(t, 16384, 1<<20), 3<<20/(c.Goroutines*c.Rounds))
			}
			return c
		}, runConc)
	eng.Add(eng.Sub{Prop: "C17", Name: "large", Configs: []string{"native"}, Quick: 120, Thorough: 2000,
		Rule: "as histories, with secrets of 8 KB to 2 MiB and few shares"},
		func(t *rapid.T) workCase {
			c := genWork(t)
			c.Steps = c.Steps[:min(len(c.Steps), 8)]
			for i := range c.Steps {
				s := &c.Steps[i]
				if s.Op == "split" {
					s.N = eng.Uniform(t, 2, 5, "ln")
					s.K = eng.Uniform(t, 2, min(3, s.N), "lk")
					s.Len = genBig(t, 8000, 2<<20)
				}
			}
			return c
		}, runWork)
	eng.Add(eng.Sub{Prop: "C19", Name: "large", Configs: everywhere(vecConfigs...), SameSeed: true, Digest: true, Quick: 100, Thorough: 2000,
		Rule: "as splits, with secrets of 16 KiB to 2 MiB and few shares; every case counts"},
		func(t *rapid.T) sameCase {
			c := sameCase{V: eng.Pick(t, "variant", append(append([]string{}, shamirVariants...), ssmsVariants...)...), RNG: genRNG(t), Sel: genSubset(t)}
			c.K = eng.Pick(t, "k", 2, 2, 3)
			c.N = c.K + eng.Pick(t, "extra", 0, 1, 2)
			c.Secret = Data{Len: genBig(t, 16384, 2<<20), Fill: "rand", Seed: eng.Bits(t, 16, "seed")}
			return c
		}, runSame)
	eng.Add(eng.Sub{Prop: "C21", Name: "large", Configs: []string{"native", "noasm"}, Quick: 100, Thorough: 2000,
		Rule: "as histories, with secrets from one byte to 4 MiB following each other, and few shares; non-trivial: as there"},
		func(t *rapid.T) mixCase {
			c := mixCase{RNG: genRNG(t), Steps: rapid.SliceOfN(genMixStep(), 4, 9).Draw(t, "steps")}
			for i := range c.Steps {
				s := &c.Steps[i]
				if s.Op == "split" && s.Len > 20 {
					s.N = eng.Uniform(t, 2, 4, "ln")
					s.K = eng.Uniform(t, 2, min(3, s.N), "lk")
					s.Len = genBig(t, 20000, 4<<20)
				}
			}
			return c
		}, runMix)
	eng.Add(eng.Sub{Prop: "C04", Name: "large", Configs: []string{"native"}, Quick: 400, Thorough: 5000,
		Rule: "impossible numbers with secrets of 5 KB to 4 MiB: an error and no shares from every split function; every case counts"},
		func(t *rapid.T) largeCase {
			c := largeCase{V: eng.Pick(t, "variant", append(append([]string{}, shamirVariants...), ssmsVariants...)...), RNG: RNG{Kind: "new"}}
			c.N, c.K = genOddInt(t, "n"), genOddInt(t, "k")
			if c.K >= 2 && c.K <= c.N && c.N <= 255 {
				c.N = c.K - 1
			}
			c.Len = genBig(t, 5000, 4<<20)
			return c
		},
		func(o *eng.Obs, c largeCase) error {
			o.NonTrivial()
			o.Class(c.V)
			sh, err := newEnv(c.RNG).split(c.V, make([]byte, c.Len), c.N, c.K)
			if err == nil || len(sh) != 0 {
				return fmt.Errorf("%s(%d bytes, %d, %d) returned %d shares, %v", c.V, c.Len, c.N, c.K, len(sh), err)
			}
			return nil
		})
	eng.Add(eng.Sub{Prop: "C09", Name: "large", Configs: []string{"native"}, Quick: 300, Thorough: 5000,
		Rule: "SSMS shares of 4 KB to 2 MiB secrets with up to 3 mutations: as mutated-shares; every case counts"},
		func(t *rapid.T) mutCase {
			c := mutCase{V: eng.Pick(t, "variant", ssmsVariants...), RNG: RNG{Kind: "keyiv", Seed: eng.Bits(t, 8, "rngseed")}}
			c.K = eng.Pick(t, "k", 2, 3, 4)
			c.N = c.K + eng.Uniform(t, 0, 2, "extra")
			c.Secret = Data{Len: genBig(t, 4096, 2<<20), Fill: eng.Pick(t, "fill", "rand", "zero", "trailzero"), Seed: eng.Bits(t, 16, "seed")}
			c.Sel = genSubset(t)
			c.Muts = rapid.SliceOfN(rapid.Custom(genMutation), 0, 3).Draw(t, "muts")
			c.CN, c.CK = c.N, c.K
			return c
		}, runMut)
}
