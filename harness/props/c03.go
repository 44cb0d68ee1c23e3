package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"pgregory.net/rapid"
)

type secCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Len    int    `json:"len"`
	Secret string `json:"secret"` // rand, zero, fixed
	RNG    RNG    `json:"rng"`
	Seed   uint64 `json:"seed"`
	Fresh  bool   `json:"fresh"` // a new source for every call
}

// runRelations makes relCalls splits with equal parameters and looks for
// anything that ties the hidden coefficients to public or other data.
func runRelations(o *eng.Obs, c secCase) error {
	env := newEnv(c.RNG)
	l, k := c.Len, c.K
	cols := make([][]byte, l*(k-1))
	for i := range cols {
		cols[i] = make([]byte, relCalls)
	}
	tags := make([][]byte, c.N)
	for i := range tags {
		tags[i] = make([]byte, relCalls)
	}
	secs := make([][]byte, l)
	for i := range secs {
		secs[i] = make([]byte, relCalls)
	}
	rep := newRepeats()
	r := prng(c.Seed)
	secret := make([]byte, l)
	if c.Secret == "fixed" {
		fillRandom(secret, r.Uint64())
	}
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, l, c.N, c.K)
	for call := 0; call < relCalls; call++ {
		if c.Secret == "rand" {
			fillRandom(secret, r.Uint64())
		}
		if c.Fresh {
			nr := c.RNG
			nr.Kind = "new"
			env = newEnv(nr)
		}
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		if err := distinctTags(sh[:k]); err != nil {
			return fmt.Errorf("%s: %v", desc, err)
		}
		coef := ref.Coefficients(sh[:k])
		for p := range coef {
			for j := 1; j < k; j++ {
				cols[p*(k-1)+j-1][call] = coef[p][j]
			}
			secs[p][call] = secret[p]
		}
		for i, s := range sh {
			tags[i][call] = s[l]
			if tooSimilar(s[:l], secret) {
				return fmt.Errorf("%s: share %d (tag %d) agrees with the secret: %x, %x", desc, i, s[l], head(s[:l]), head(secret))
			}
		}
		if k > 2 {
			idx := r.Perm(c.N)[:k-1]
			if got := ref.Combine(choose(sh, idx)); tooSimilar(got, secret) {
				return fmt.Errorf("%s: the %d shares %v give the secret away", desc, k-1, idx)
			}
		}
		if l*k <= 20000 || call < 8 {
			for p := range coef {
				if err := rep.add(func() string { return fmt.Sprintf("call %d, the coefficients of byte %d", call, p) }, coef[p][1:]); err != nil {
					return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
				}
			}
			for j := 1; j < k; j++ {
				col := make([]byte, l)
				for p := range coef {
					col[p] = coef[p][j]
				}
				if err := rep.add(func() string { return fmt.Sprintf("call %d, coefficient %d of the bytes", call, j) }, col); err != nil {
					return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
				}
			}
		}
	}
	o.Class(c.V)
	o.Class("secret %s", c.Secret)
	nkClass(o, c.N, c.K)
	lenClass(o, l)
	o.NonTrivial()
	name := func(i int) string {
		return fmt.Sprintf("coefficient %d of byte %d", i%(k-1)+1, i/(k-1))
	}
	var strides []int
	for _, d := range []int{1, 2, 4, 7, 8, 15, 16, 17, 31, 32, 64, 128, 255, 256, 512, 1023, 1024, 2048, 4096} {
		strides = append(strides, d)
		if k > 2 {
			strides = append(strides, d*(k-1))
		}
	}
	strides = append(strides, l/2*(k-1))
	ss := secs
	if c.Secret != "rand" {
		ss = nil
	}
	if err := checkColumns(columns{cols, name}, tags, ss, c.Seed, strides[:len(strides)-boolInt(l < 2)]); err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	// the same byte's own coefficients
	if ss != nil {
		for p := 0; p < l; p += max(1, l/300) {
			for j := 0; j < k-1; j += max(1, k/20) {
				if why := related(secs[p], cols[p*(k-1)+j]); why != "" {
					return fmt.Errorf("%s: %s depends on its secret byte: %s", desc, name(p*(k-1)+j), why)
				}
			}
		}
	}
	return nil
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func distinctTags(sh [][]byte) error {
	var seen [256]bool
	for i, s := range sh {
		t := s[len(s)-1]
		if t == 0 || seen[t] {
			return fmt.Errorf("share %d has tag %d, zero or taken", i, t)
		}
		seen[t] = true
	}
	return nil
}

type uniCase struct {
	V     string `json:"v"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Calls int    `json:"calls"`
	Fill  string `json:"fill"`
	Seed  uint64 `json:"seed"`
}

func uniCases(tier string) []uniCase {
	var r []uniCase
	reps := 1
	if tier == "thorough" {
		reps = 8
	}
	for i := 0; i < reps; i++ {
		for vi, v := range shamirVariants {
			s := uint64(i*100 + vi)
			r = append(r,
				uniCase{v, 2, 2, 1, 13000, "rand", s},
				uniCase{v, 3, 3, 2, 13000, "zero", s},
				uniCase{v, 21, 5, 1, 11500, "rand", s},
				uniCase{v, 5, 4, 33, 11500, "rand", s},
				uniCase{v, 3, 2, 40000 + 16*i, 4, "rand", s},
				uniCase{v, 5, 4, 40000 - 3, 4, "ff", s},
				uniCase{v, 40, 33, 4099, 10, "rand", s},
				uniCase{v, 6, 3, 1500 + 37*i, 90, "rand", s},
				uniCase{v, 255, 250, 70, 160, "rand", s},
			)
		}
	}
	return r
}

// runUniform pools coefficients by index and position and tests uniformity, and
// uniformity of what an attacker would combine them with.
func runUniform(o *eng.Obs, c uniCase) error {
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
	r := prng(c.Seed ^ o.Seed)
	hist := map[string]*histogram{}
	at := func(s string) *histogram {
		h := hist[s]
		if h == nil {
			h = &histogram{}
			hist[s] = h
		}
		return h
	}
	jh := make([]*histogram, c.K)
	jfirst := make([]*histogram, c.K)
	jlast := make([]*histogram, c.K)
	for j := 1; j < c.K; j++ {
		jh[j] = at(fmt.Sprintf("coefficient %d", j))
		jfirst[j] = at(fmt.Sprintf("coefficient %d of the first byte", j))
		jlast[j] = at(fmt.Sprintf("coefficient %d of the last byte", j))
	}
	xs, xt, xn, xp, bound := at("coefficient 1 XOR secret"), at("coefficient 1 XOR tag 0"), at("coefficient 1 XOR that of the next byte"), at("coefficient 1 XOR the last one"), at("coefficients at multiples of 1024")
	y0, y1 := at("share 0 XOR secret"), at("the last share XOR secret")
	block := at("coefficients at multiples of 16")
	secret := make([]byte, c.Len)
	switch c.Fill {
	case "ff":
		for i := range secret {
			secret[i] = 0xff
		}
	}
	seq := make([]byte, 0, c.Calls)
	for call := 0; call < c.Calls; call++ {
		if c.Fill == "rand" {
			fillRandom(secret, r.Uint64())
		}
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return err
		}
		if err := distinctTags(sh[:c.K]); err != nil {
			return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, c.Len, c.N, c.K, err)
		}
		coef := ref.Coefficients(sh[:c.K])
		seq = append(seq, coef[0][1])
		for p, cf := range coef {
			for j := 1; j < c.K; j++ {
				jh[j].add(cf[j])
			}
			xs.add(cf[1] ^ secret[p])
			xt.add(cf[1] ^ sh[0][c.Len])
			if c.K > 2 {
				xp.add(cf[1] ^ cf[c.K-1])
			}
			if p+1 < len(coef) {
				xn.add(cf[1] ^ coef[p+1][1])
			}
			if p%1024 == 0 || p%1024 == 1023 {
				for j := 1; j < c.K; j++ {
					bound.add(cf[j])
				}
			}
			if p%16 == 0 {
				for j := 1; j < c.K; j++ {
					block.add(cf[j])
				}
			}
			y0.add(sh[0][p] ^ secret[p])
			y1.add(sh[c.N-1][p] ^ secret[p])
		}
		for j := 1; j < c.K; j++ {
			jfirst[j].add(coef[0][j])
			jlast[j].add(coef[len(coef)-1][j])
		}
		if call < 1 && c.Len > 1000 {
			for j := 1; j < c.K; j += max(1, c.K/4) {
				col := make([]byte, 0, 6000)
				for p := 0; p < len(coef) && p < 6000; p++ {
					col = append(col, coef[p][j])
				}
				if err := lagMatches(col, 6000); err != nil {
					return fmt.Errorf("%s(%d bytes, n=%d, k=%d): coefficient %d: %v", c.V, c.Len, c.N, c.K, j, err)
				}
			}
		}
	}
	if len(seq) > 1000 {
		if err := lagMatches(seq[:min(len(seq), 6000)], 3000); err != nil {
			return fmt.Errorf("%s(%d bytes, n=%d, k=%d): coefficient 1 of successive calls: %v", c.V, c.Len, c.N, c.K, err)
		}
	}
	tests := 0
	for what, h := range hist {
		if h.n/256 < 5 {
			continue
		}
		tests++
		if err := h.check(); err != nil {
			return fmt.Errorf("%s(%d bytes, n=%d, k=%d), %d calls: %s: %v", c.V, c.Len, c.N, c.K, c.Calls, what, err)
		}
	}
	o.Class(c.V)
	o.Class("histograms checked: %d", tests/10*10)
	o.Bulk(c.Calls, c.Calls)
	return nil
}

type histOp struct {
	V   string `json:"v"` // a split variant, or read / perm of the shared source
	N   int    `json:"n"`
	K   int    `json:"k"`
	Len int    `json:"len"`
}

type histCase struct {
	RNG  RNG      `json:"rng"`
	Ops  []histOp `json:"ops"`
	Seed uint64   `json:"seed"`
}

func genHist(t *rapid.T) histCase {
	c := histCase{RNG: genRNG(t), Seed: eng.Bits(t, 16, "seed")}
	one := rapid.Custom(func(t *rapid.T) histOp {
		op := histOp{V: eng.Pick(t, "op", "Split", "SplitGeneric", "SplitP", "SplitWithRandomizer", "SplitWithRandomizer", "SplitWithRandomizerOld", "SplitWithRandomizerOld", "worker", "worker", "ssms", "ssmsR", "ssmsR", "ssmsWorker", "read", "read", "perm", "unique")}
		switch op.V {
		case "read":
			op.Len = eng.Pick(t, "len", 1, 7, 16, 32, 100, 1000)
		case "perm", "unique":
			op.N = eng.Uniform(t, 0, 255, "n")
		default:
			op.N, op.K = genNK(t, 60)
			op.Len = min(genLen(t, 2000), 6000/op.K+8)
			if eng.Uniform(t, 0, 2, "same") == 0 {
				op.N, op.K, op.Len = 3, 2, 16
			}
		}
		return op
	})
	c.Ops = rapid.SliceOfN(one, 2, 30).Draw(t, "ops")
	return c
}

// runHist looks for hidden bytes used twice across a history of different
// splits that share randomizers.
func runHist(o *eng.Obs, c histCase) error {
	env := newEnv(c.RNG)
	rep := newRepeats()
	r := prng(c.Seed)
	splits := 0
	for i, op := range c.Ops {
		what := func(s string) func() string {
			return func() string { return fmt.Sprintf("op %d %+v, %s", i, op, s) }
		}
		switch op.V {
		case "read":
			b := make([]byte, op.Len)
			_, _ = env.R.Read(b)
			if err := rep.add(what("bytes read"), b); err != nil {
				return fmt.Errorf("random bytes used twice: %v", err)
			}
			continue
		case "perm":
			env.R.Perm(byte(op.N))
			continue
		case "unique":
			env.R.GetUniqueBytes(byte(op.N))
			continue
		}
		splits++
		secret := make([]byte, op.Len)
		fillRandom(secret, r.Uint64())
		sh, err := env.splitOK(op.V, secret, op.N, op.K)
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		pts := sh[:op.K]
		if isSSMS(op.V) {
			pts = make([][]byte, op.K)
			for x := range pts {
				pts[x] = sh[x][:ref.MetaLen]
			}
		}
		if err := distinctTags(pts); err != nil {
			return fmt.Errorf("op %d %+v: %v", i, op, err)
		}
		coef := ref.Coefficients(pts)
		for p := range coef {
			if err := rep.add(what(fmt.Sprintf("the coefficients of byte %d", p)), coef[p][1:]); err != nil {
				return fmt.Errorf("hidden bytes used twice: %v", err)
			}
		}
		for j := 0; j < op.K; j++ {
			if j == 0 && !isSSMS(op.V) {
				continue
			}
			m := len(coef)
			if j == 0 {
				m = ref.KeyLen // the SSMS key
			}
			col := make([]byte, m)
			for p := range col {
				col[p] = coef[p][j]
			}
			if err := rep.add(what(fmt.Sprintf("coefficient %d of the bytes (0: the SSMS key)", j)), col); err != nil {
				return fmt.Errorf("hidden bytes used twice: %v", err)
			}
		}
	}
	o.Class("splits in history: %d..", splits/5*5)
	if splits >= 2 {
		o.NonTrivial()
	}
	return nil
}

type freshCase struct {
	Vs    []string `json:"vs"`
	N     int      `json:"n"`
	K     int      `json:"k"`
	Len   int      `json:"len"`
	Calls int      `json:"calls"`
	Keep  int      `json:"keep"` // splits with one source
	Seed  uint64   `json:"seed"`
}

// runFresh makes many splits, each (or each few) with a new source, in one
// process: nothing hidden may come back, and the key and coefficients must not
// be constant in part.
func runFresh(o *eng.Obs, c freshCase) error {
	rep := newRepeats()
	r := prng(c.Seed)
	var env *Env
	for i := 0; i < c.Calls; i++ {
		if i%c.Keep == 0 {
			env = newEnv(RNG{Kind: "new"})
		}
		v := c.Vs[i%len(c.Vs)]
		secret := make([]byte, c.Len)
		fillRandom(secret, r.Uint64())
		sh, err := env.splitOK(v, secret, c.N, c.K)
		if err != nil {
			return fmt.Errorf("split %d: %v", i, err)
		}
		pts := sh[:c.K]
		if isSSMS(v) {
			pts = make([][]byte, c.K)
			for x := range pts {
				pts[x] = sh[x][:ref.MetaLen]
			}
		}
		if err := distinctTags(pts); err != nil {
			return fmt.Errorf("split %d, %s: %v", i, v, err)
		}
		coef := ref.Coefficients(pts)
		for j := 0; j < c.K; j++ {
			if j == 0 && !isSSMS(v) {
				continue
			}
			m := len(coef)
			if j == 0 {
				m = ref.KeyLen
			}
			col := make([]byte, m)
			for p := range col {
				col[p] = coef[p][j]
			}
			if err := rep.add(func() string {
				return fmt.Sprintf("split %d (%s, %d bytes, %d, %d; a new source every %d), coefficient %d (0: the SSMS key)", i, v, c.Len, c.N, c.K, c.Keep, j)
			}, col); err != nil {
				return fmt.Errorf("hidden bytes used twice: %v", err)
			}
		}
	}
	o.Bulk(c.Calls, c.Calls)
	return nil
}

func freshCases(vs []string) func(string) []freshCase {
	return func(tier string) []freshCase {
		calls := 4500
		if tier == "thorough" {
			calls = 150_000
		}
		var r []freshCase
		seed := uint64(0)
		for _, keep := range []int{1, 1, 3} {
			for _, l := range []int{9, 24, 33} {
				seed++
				r = append(r, freshCase{vs, 3, 2, l, calls, keep, seed})
			}
		}
		for _, v := range vs {
			seed++
			r = append(r, freshCase{[]string{v}, 3, 3, 16, calls, 1, seed})
		}
		return r
	}
}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C03", Name: "many-sources", Configs: []string{"native"},
		Rule: "4500 (thorough 150000) splits in one process, every one (or every third) with a new randomizer and worker: no 8 bytes of coefficients may occur twice; every split counts"},
		freshCases(shamirVariants), runFresh)
	eng.AddEnum(eng.Sub{Prop: "C08", Name: "many-sources", Configs: []string{"native"},
		Rule: "4500 (thorough 150000) SSMS splits in one process, every one (or every third) with a new randomizer and worker: no 8 bytes of keys or metadata coefficients may occur twice; every split counts"},
		freshCases(ssmsVariants), runFresh)
	eng.Add(eng.Sub{Prop: "C03", Name: "relations", Configs: []string{"native"}, Quick: 1000, Thorough: 20000,
		Rule: "64 splits with the same random parameters from one source (or fresh ones); the recovered coefficients are tested for constant values, repeated 8-byte strings and fixed XOR/difference/quotient relations with tags, secret bytes, other coefficients and earlier calls, and k-1 shares for giving the secret away; every case is non-trivial"},
		func(t *rapid.T) secCase {
			c := secCase{V: eng.Pick(t, "variant", shamirVariants...), Secret: eng.Pick(t, "secret", "rand", "rand", "zero", "fixed"), Seed: eng.Bits(t, 16, "seed"), Fresh: eng.Uniform(t, 0, 5, "fresh") == 0}
			c.N, c.K = genNK(t, 255)
			c.Len = genLen(t, 6000)
			if top := max(3, 1_500_000/relCalls/c.N); c.Len > top {
				c.Len = 1 + c.Len%top
			}
			if top := max(1, 4_000_000/relCalls/(c.K*c.K)); c.Len > top {
				c.Len = 1 + c.Len%top
			}
			c.RNG = genRNG(t)
			return c
		}, runRelations)
	eng.AddEnum(eng.Sub{Prop: "C03", Name: "uniformity", Configs: []string{"native", "noasm"},
		Rule: "per split function and parameter set thousands of splits or tens of thousands of bytes: histograms of every coefficient index (also of the first and last byte, at chunk and block boundaries, XORed with secret, tag, neighbour) must be uniform without missing values; every split counts"},
		uniCases, runUniform)
	eng.Add(eng.Sub{Prop: "C03", Name: "histories", Configs: []string{"native"}, Quick: 2500, Thorough: 60000,
		Rule: "2 to 30 operations of all split functions with changing parameters, reads, permutations and unique-byte requests on shared randomizers; no 8 hidden or read bytes may occur twice; non-trivial: at least two splits"},
		genHist, runHist)
}
