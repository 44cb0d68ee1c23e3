package props

import (
	"bytes"
	"encoding/hex"
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

type ssmsCase struct {
	V       string   `json:"v"`
	N       int      `json:"n"`
	K       int      `json:"k"`
	Secret  Data     `json:"secret"`
	RNG     RNG      `json:"rng"`
	Subsets []Subset `json:"subsets"`
	Place   string   `json:"place"` // how missing shares are represented
}

func genSSMS(t *rapid.T) ssmsCase {
	c := ssmsCase{V: eng.Pick(t, "variant", ssmsVariants...)}
	maxN := 255
	if eng.Uniform(t, 0, 9, "big") < 8 {
		maxN = 40
	}
	c.N, c.K = genNK(t, maxN)
	c.Secret = genData(t, 1<<20)
	if c.Secret.Fill != "lit" && eng.Uniform(t, 0, 3, "multiple") == 0 {
		// exactly k blocks, one more or one less byte
		per := max(1, c.Secret.Len/c.K)
		c.Secret.Len = max(1, per*c.K+eng.Uniform(t, -1, 1, "off"))
	}
	if c.Secret.Len*c.N > 30_000_000 {
		c.Secret.Len = 1 + c.Secret.Len%(30_000_000/c.N)
		if c.Secret.Fill == "lit" {
			c.Secret.Len = len(c.Secret.Lit) / 2
		}
	}
	c.Subsets = rapid.SliceOfN(rapid.Custom(genSubset), 1, 3).Draw(t, "subsets")
	c.Place = eng.Pick(t, "place", "list", "list", "inplace", "nils")
	c.RNG = genRNG(t)
	return c
}

// arrange presents the chosen shares as a bare list, at their positions with
// nil for the missing ones, or in random order with nils strewn in.
func arrange(place string, sh [][]byte, idx []int, seed uint64) [][]byte {
	switch place {
	case "inplace":
		r := make([][]byte, len(sh))
		for _, i := range idx {
			r[i] = sh[i]
		}
		return r
	case "nils":
		p := prng(seed + 77)
		var r [][]byte
		for _, i := range idx {
			for p.IntN(2) == 0 {
				r = append(r, nil)
			}
			r = append(r, sh[i])
		}
		for p.IntN(2) == 0 {
			r = append(r, nil)
		}
		return r
	}
	return choose(sh, idx)
}

func runSSMS(o *eng.Obs, c ssmsCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	o.Class(c.V)
	o.Class("missing: %s", c.Place)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	if len(secret)%c.K == 0 {
		o.Class("k divides the length")
	}
	for _, s := range c.Subsets {
		idx := s.pick(c.N, c.K)
		if parity(idx, c.K) {
			o.Class("with parity shares")
			o.NonTrivial()
		}
		in := arrange(c.Place, sh, idx, s.Seed)
		keep := cloneAll(in)
		got, err := env.combine(c.V, in, c.N, c.K)
		if err != nil {
			return fmt.Errorf("combining shares %v (%s) of %s(%d bytes, n=%d, k=%d) failed: %v", idx, c.Place, c.V, len(secret), c.N, c.K, err)
		}
		if err := sameSecret(fmt.Sprintf("combining shares %v (%s) of %s(n=%d,k=%d)", idx, c.Place, c.V, c.N, c.K), got, secret); err != nil {
			return err
		}
		if !sameAll(keep, in) {
			return fmt.Errorf("combining shares %v of %s(%d bytes, n=%d, k=%d) changed the shares or the list", idx, c.V, len(secret), c.N, c.K)
		}
	}
	return nil
}

func parity(idx []int, k int) bool {
	for _, i := range idx {
		if i >= k {
			return true
		}
	}
	return false
}

// ---- C08 ------------------------------------------------------------------

// CheckSSMSFormat verifies a complete set of SSMS shares against the format and
// returns the key and the metadata coefficients.
func CheckSSMSFormat(secret []byte, n, k int, sh [][]byte) (key []byte, coef [][]byte, err error) {
	if len(sh) != n {
		return nil, nil, fmt.Errorf("%d shares", len(sh))
	}
	metas := make([][]byte, n)
	for i, s := range sh {
		if want := ref.SSMSShareLen(len(secret), k); len(s) != want {
			return nil, nil, fmt.Errorf("share %d has %d bytes, want %d", i, len(s), want)
		}
		metas[i] = s[:ref.MetaLen]
		if id := s[len(s)-1]; int(id) != i {
			return nil, nil, fmt.Errorf("share %d carries part number %d", i, id)
		}
	}
	if err := distinctTags(metas); err != nil {
		return nil, nil, err
	}
	coef = ref.Coefficients(metas[:k])
	keyLen := make([]byte, ref.KeyLen+ref.LenLen)
	for p := range keyLen {
		keyLen[p] = coef[p][0]
	}
	key = keyLen[:ref.KeyLen]
	l := len(secret)
	if want := []byte{byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)}; !bytes.Equal(keyLen[ref.KeyLen:], want) {
		return nil, nil, fmt.Errorf("the shared length is %x, want %x (%d, little endian)", keyLen[ref.KeyLen:], want, l)
	}
	if err := ref.CheckShares(keyLen, n, k, metas); err != nil {
		return nil, nil, fmt.Errorf("the sharing of key and length: %v", err)
	}
	per := (l + k - 1) / k
	ct := ref.OFB(key, secret)
	if len(ct) >= 32 && tooSimilar(ct, secret) {
		return nil, nil, fmt.Errorf("the encryption leaves the secret readable")
	}
	data := make([]byte, 0, per*k)
	for i := 0; i < k; i++ {
		data = append(data, sh[i][ref.MetaLen:ref.MetaLen+per]...)
	}
	if !bytes.Equal(data[:l], ct) {
		for i := range ct {
			if data[i] != ct[i] {
				return nil, nil, fmt.Errorf("the data parts are not the AES-128-OFB encryption of the secret under the shared key: byte %d is %#02x, want %#02x", i, data[i], ct[i])
			}
		}
	}
	for i, b := range data[l:] {
		if b != 0 {
			return nil, nil, fmt.Errorf("byte %d of the %d that pad the encrypted data is %#02x, want 0", i, len(data)-l, b)
		}
	}
	rows := make([][]byte, n)
	for i := range rows {
		rows[i] = sh[i][ref.MetaLen : ref.MetaLen+per]
	}
	if err := ref.CheckParity(rows, k); err != nil {
		return nil, nil, err
	}
	return key, coef, nil
}

func runSSMSFormat(o *eng.Obs, c splitCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	o.Class(c.V)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	if c.N > c.K || len(secret) > 1 {
		o.NonTrivial()
	}
	key, _, err := CheckSSMSFormat(secret, c.N, c.K, sh)
	if err != nil {
		return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %v", c.V, len(secret), c.N, c.K, err)
	}
	for i, s := range sh {
		if bytes.Contains(s, key) || bytes.Contains(s, key[:8]) || bytes.Contains(s, key[8:]) {
			return fmt.Errorf("%s(%d bytes, n=%d, k=%d): share %d contains the key", c.V, len(secret), c.N, c.K, i)
		}
		if len(secret) >= 12 {
			d := s[ref.MetaLen : len(s)-1]
			lo := min(len(secret), i*len(d))
			hi := min(len(secret), lo+len(d))
			if hi-lo >= 12 && tooSimilar(d[:hi-lo], secret[lo:hi]) {
				return fmt.Errorf("%s(%d bytes, n=%d, k=%d): share %d agrees with the secret", c.V, len(secret), c.N, c.K, i)
			}
		}
	}
	return nil
}

type ssmsRefCase struct {
	N      int      `json:"n"`
	K      int      `json:"k"`
	Secret Data     `json:"secret"`
	Seed   uint64   `json:"seed"`
	Use    []Subset `json:"use"`
	Place  string   `json:"place"`
	Key    string   `json:"key"` // rand, zero
}

func runSSMSRef(o *eng.Obs, c ssmsRefCase) error {
	secret := c.Secret.Bytes()
	r := prng(c.Seed)
	key := make([]byte, 16)
	if c.Key != "zero" {
		fillRandom(key, r.Uint64())
	}
	coef := refCoef("rand", c.K, ref.KeyLen+ref.LenLen, r.Uint64())
	tags := make([]byte, c.N)
	for i, x := range r.Perm(255)[:c.N] {
		tags[i] = byte(x + 1)
	}
	sh := ref.SSMSEncode(secret, c.N, c.K, key, coef, tags)
	nkClass(o, c.N, c.K)
	lenClass(o, len(secret))
	w := worker.NewWorker()
	for _, u := range c.Use {
		idx := u.pick(c.N, c.K)
		if parity(idx, c.K) {
			o.NonTrivial()
		}
		in := arrange(c.Place, sh, idx, u.Seed)
		got, err := krawczyk.Combine(in, c.N, c.K)
		if err != nil {
			return fmt.Errorf("Combine refused independently made shares %v (n=%d,k=%d, %d bytes): %v", idx, c.N, c.K, len(secret), err)
		}
		if err := sameSecret(fmt.Sprintf("Combine of independently made shares %v (n=%d,k=%d)", idx, c.N, c.K), got, secret); err != nil {
			return err
		}
		got, err = w.Combine(worker.AlgSSMS, in, c.N, c.K)
		if err != nil {
			return fmt.Errorf("worker.Combine refused independently made shares %v (n=%d,k=%d, %d bytes): %v", idx, c.N, c.K, len(secret), err)
		}
		if err := sameSecret("worker.Combine of independently made shares", got, secret); err != nil {
			return err
		}
	}
	return nil
}

// runSSMSRelations is runRelations for the key and the sharing of it.
func runSSMSRelations(o *eng.Obs, c secCase) error {
	env := newEnv(c.RNG)
	l, k := c.Len, c.K
	const kl = ref.KeyLen
	const ml = ref.KeyLen + ref.LenLen
	ncol := kl + ml*(k-1)
	cols := make([][]byte, ncol)
	for i := range cols {
		cols[i] = make([]byte, relCalls)
	}
	tags := make([][]byte, c.N)
	for i := range tags {
		tags[i] = make([]byte, relCalls)
	}
	secs := make([][]byte, min(l, 48))
	for i := range secs {
		secs[i] = make([]byte, relCalls)
	}
	rep := newRepeats()
	r := prng(c.Seed)
	secret := make([]byte, l)
	if c.Secret == "fixed" {
		fillRandom(secret, r.Uint64())
	}
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d)", c.V, l, c.N, k)
	for call := 0; call < relCalls; call++ {
		if c.Secret == "rand" {
			fillRandom(secret, r.Uint64())
		}
		if c.Fresh {
			nr := c.RNG
			nr.Kind = "new"
			env = newEnv(nr)
		}
		sh, err := env.splitOK(c.V, secret, c.N, k)
		if err != nil {
			return err
		}
		key, coef, err := CheckSSMSFormat(secret, c.N, k, sh)
		if err != nil {
			return fmt.Errorf("%s, call %d: %v", desc, call, err)
		}
		for p := 0; p < kl; p++ {
			cols[p][call] = key[p]
		}
		for p := 0; p < ml; p++ {
			for j := 1; j < k; j++ {
				cols[kl+p*(k-1)+j-1][call] = coef[p][j]
			}
		}
		for p := range secs {
			secs[p][call] = secret[p]
		}
		for i, s := range sh {
			tags[i][call] = s[ref.MetaLen-1]
		}
		if err := rep.add(func() string { return fmt.Sprintf("the key of call %d", call) }, clone(key)); err != nil {
			return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
		}
		for p := range coef {
			if err := rep.add(func() string { return fmt.Sprintf("call %d, the coefficients of metadata byte %d", call, p) }, coef[p][1:]); err != nil {
				return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
			}
		}
		for j := 1; j < k; j++ {
			col := make([]byte, ml)
			for p := range coef {
				col[p] = coef[p][j]
			}
			if err := rep.add(func() string { return fmt.Sprintf("call %d, coefficient %d of the metadata bytes", call, j) }, col); err != nil {
				return fmt.Errorf("%s: hidden bytes used twice: %v", desc, err)
			}
		}
	}
	o.Class(c.V)
	o.Class("secret %s", c.Secret)
	nkClass(o, c.N, c.K)
	o.NonTrivial()
	name := func(i int) string {
		if i < kl {
			return fmt.Sprintf("byte %d of the key", i)
		}
		i -= kl
		return fmt.Sprintf("coefficient %d of metadata byte %d", i%(k-1)+1, i/(k-1))
	}
	ss := secs
	if c.Secret != "rand" {
		ss = nil
	}
	if err := checkColumns(columns{cols, name}, tags, ss, c.Seed, []int{1, 2, 3, 4, 8, 15, 16, 17, 20, 21, 32, k - 1, 16 * (k - 1)}); err != nil {
		return fmt.Errorf("%s: %v", desc, err)
	}
	// the key against every metadata coefficient
	for p := 0; p < kl; p++ {
		for i := kl; i < ncol; i += max(1, ncol/1500) {
			if why := related(cols[p], cols[i]); why != "" {
				return fmt.Errorf("%s: %s depends on %s: %s", desc, name(i), name(p), why)
			}
		}
		for ti := range tags {
			if why := related(tags[ti], cols[p]); why != "" {
				return fmt.Errorf("%s: %s depends on the tag of share %d: %s", desc, name(p), ti, why)
			}
		}
	}
	return nil
}

// ---- C09 ------------------------------------------------------------------

// Mutation is one change to a list of shares.
type Mutation struct {
	Op string `json:"op"`
	I  int    `json:"i"`
	J  int    `json:"j"`
	V  int    `json:"v"`
}

type mutCase struct {
	V      string     `json:"v"`
	N      int        `json:"n"`
	K      int        `json:"k"`
	Secret Data       `json:"secret"`
	RNG    RNG        `json:"rng"`
	Sel    Subset     `json:"sel"`
	Muts   []Mutation `json:"muts"`
	CN     int        `json:"cn"` // the numbers given to Combine
	CK     int        `json:"ck"`
}

var mutOps = []string{"flip", "setbyte", "trunc", "truncfront", "extend", "nil", "empty", "dup", "dupclone", "drop", "partid", "tag", "zero", "garbage", "swap", "sametag", "samepart", "length", "append"}

func applyMutation(in [][]byte, m Mutation) [][]byte {
	if len(in) == 0 {
		if m.Op == "append" || m.Op == "garbage" {
			b := make([]byte, m.V%60)
			fillRandom(b, uint64(m.J))
			return append(in, b)
		}
		return in
	}
	i, j := m.I%len(in), m.J%len(in)
	s := in[i]
	at := func(x int) int { return x % len(s) }
	switch m.Op {
	case "flip":
		if len(s) > 0 {
			s[at(m.J)] ^= byte(1 << (m.V % 8))
		}
	case "setbyte":
		if len(s) > 0 {
			s[at(m.J)] = byte(m.V)
		}
	case "trunc":
		if len(s) > 0 {
			in[i] = s[:at(m.J)]
		}
	case "truncfront":
		if len(s) > 0 {
			in[i] = s[at(m.J):]
		}
	case "extend":
		x := make([]byte, m.V%40)
		fillRandom(x, uint64(m.J))
		in[i] = append(clone(s), x...)
	case "nil":
		in[i] = nil
	case "empty":
		in[i] = []byte{}
	case "dup":
		in = append(in, s)
	case "dupclone":
		in = append(in, clone(s))
	case "drop":
		in = append(in[:i], in[i+1:]...)
	case "partid":
		if len(s) > 0 {
			s[len(s)-1] = byte(m.V)
		}
	case "tag":
		if len(s) >= ref.MetaLen {
			s[ref.MetaLen-1] = byte(m.V)
		}
	case "zero":
		clear(s)
	case "garbage":
		fillRandom(s, uint64(m.V))
	case "swap":
		in[i], in[j] = in[j], in[i]
	case "sametag":
		if len(s) >= ref.MetaLen && len(in[j]) >= ref.MetaLen {
			s[ref.MetaLen-1] = in[j][ref.MetaLen-1]
		}
	case "samepart":
		if len(s) > 0 && len(in[j]) > 0 {
			s[len(s)-1] = in[j][len(in[j])-1]
		}
	case "length": // all shares' length field, so that the shared value changes
		for _, t := range in {
			if len(t) >= 20 {
				t[16+m.J%4] ^= byte(m.V)
			}
		}
	case "append":
		b := make([]byte, m.V%60)
		fillRandom(b, uint64(m.J))
		in = append(in, b)
	}
	return in
}

// CheckSSMSCombine is the oracle for Combine on arbitrary data.
func CheckSSMSCombine(o *eng.Obs, in [][]byte, n, k int, viaWorker bool) ([]byte, error, error) {
	keep := cloneAll(in)
	var got []byte
	var err error
	name := "Combine"
	if viaWorker {
		name = "worker.Combine"
		w := worker.NewWorker()
		got, err = w.Combine(worker.AlgSSMS, in, n, k)
	} else {
		got, err = krawczyk.Combine(in, n, k)
	}
	if !sameAll(keep, in) {
		return nil, nil, fmt.Errorf("%s(%d shares, %d, %d) changed what it was given", name, len(in), n, k)
	}
	why := ""
	present := 0
	for _, s := range in {
		if s != nil {
			present++
		}
	}
	switch {
	case k < 1 || k > n || n > 255:
		why = "impossible part and threshold numbers"
	case present == 0:
		why = "an empty list"
	case present < k:
		why = "fewer than threshold shares"
	default:
		var tags, parts [256]bool
		np := 0
		for si, s := range in {
			if s == nil {
				continue
			}
			if len(s) < ref.MetaLen+2 {
				why = "a share too short to be one"
				break
			}
			id := s[len(s)-1]
			if int(id) >= n {
				why = "a part number out of range"
				break
			}
			t := s[ref.MetaLen-1]
			if tags[t] && parts[id] {
				for ui, u := range in {
					if u != nil && ui != si && bytes.Equal(u, s) {
						why = "a repeated share"
					}
				}
				if why != "" {
					break
				}
			}
			if !parts[id] {
				np++
			}
			tags[t], parts[id] = true, true
		}
		if why == "" && np < k {
			why = "fewer than threshold different parts"
		}
	}
	if why != "" {
		o.Class("must refuse: %s", why)
		if err == nil {
			return nil, nil, fmt.Errorf("%s(%d shares, %d, %d) accepted %s and returned %d bytes", name, len(in), n, k, why, len(got))
		}
		if len(got) != 0 {
			return nil, nil, fmt.Errorf("%s returned an error and %d bytes", name, len(got))
		}
	} else if err == nil {
		o.Class("returned data")
	} else {
		o.Class("returned an error")
		if len(got) != 0 {
			return nil, nil, fmt.Errorf("%s returned an error and %d bytes", name, len(got))
		}
	}
	return got, err, nil
}

func runMut(o *eng.Obs, c mutCase) error {
	secret := c.Secret.Bytes()
	env := newEnv(c.RNG)
	sh, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	in := cloneAll(choose(sh, c.Sel.pick(c.N, min(c.K, c.N))))
	for _, m := range c.Muts {
		in = applyMutation(in, m)
	}
	o.NonTrivial()
	_, _, verr := CheckSSMSCombine(o, in, c.CN, c.CK, c.V == "ssmsWorker")
	return verr
}

type belowCase struct {
	V      string `json:"v"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	M      int    `json:"m"` // shares given, < k
	Secret Data   `json:"secret"`
	RNG    RNG    `json:"rng"`
	Seed   uint64 `json:"seed"`
	Place  string `json:"place"`
	Dup    int    `json:"dup"`
}

func init() {
	eng.Add(eng.Sub{Prop: "C07", Name: "roundtrip", Configs: with32("native", "ssse3", "noasm"), Quick: 3000, Thorough: 60000,
		Rule: "random SSMS split function, (n,k), secret, source and selections of >= k shares, given as a list, in place with nils, or in random order with nils; non-trivial: parity shares are used"},
		genSSMS, runSSMS)
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "all-pairs", Configs: []string{"native"},
		Rule: "every 2<=k<=n<=255 (quick: every k for n<=40, every third pair above, and all edges), k random shares; every pair counts"},
		func(tier string) []pairCase {
			var r []pairCase
			for n := 2; n <= 255; n++ {
				for k := 2; k <= n; k += 8 {
					r = append(r, pairCase{n, k, min(n, k+7), []int{1, 2, 5, 16, 40}, tier == "thorough", uint64(n*256 + k)})
				}
			}
			return r
		},
		func(o *eng.Obs, c pairCase) error {
			r := prng(c.Seed ^ o.Seed)
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
			evals := 0
			for k := c.Kmin; k <= c.Kmax; k++ {
				vs := ssmsVariants
				if !c.All {
					// coder set-up costs n*k*k
					if c.N > 40 && k != 2 && k != c.N && (k+c.N*7)%(1+c.N*k/900) != 0 {
						continue
					}
					vs = []string{ssmsVariants[(k+c.N)%3]}
				}
				for _, v := range vs {
					l := c.L[r.IntN(len(c.L))]
					if r.IntN(2) == 0 {
						l = k*(1+r.IntN(3)) - r.IntN(2)
					}
					secret := Data{Len: l, Fill: "rand", Seed: r.Uint64()}.Bytes()
					sh, err := env.splitOK(v, secret, c.N, k)
					if err != nil {
						return err
					}
					idx := r.Perm(c.N)[:k]
					got, err := env.combine(v, choose(sh, idx), c.N, k)
					if err != nil {
						return fmt.Errorf("combining shares %v of %s(%d bytes, n=%d,k=%d) failed: %v", idx, v, l, c.N, k, err)
					}
					if err := sameSecret(fmt.Sprintf("%s(n=%d,k=%d), shares %v", v, c.N, k, idx), got, secret); err != nil {
						return err
					}
					evals++
					o.Class(v)
				}
			}
			o.Bulk(evals, evals)
			return nil
		})
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "all-lengths", Configs: with32("native"),
		Rule: "every length up to 1200 (thorough 5000) and around powers of two to 128 KiB, every SSMS split function, k=n and k<n; each (length, function, k) counts"},
		lenCases, func(o *eng.Obs, c lenCase) error {
			r := prng(c.Seed ^ o.Seed)
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
			evals := 0
			for l := c.From; l <= c.To; l += c.Step {
				for _, v := range ssmsVariants {
					for rep := 0; rep < 2; rep++ {
						k := 2 + r.IntN(4)
						n := k + rep*(1+r.IntN(4))
						secret := Data{Len: l, Fill: "rand", Seed: r.Uint64()}.Bytes()
						sh, err := env.splitOK(v, secret, n, k)
						if err != nil {
							return err
						}
						idx := r.Perm(n)[:k]
						got, err := env.combine(v, choose(sh, idx), n, k)
						if err != nil {
							return fmt.Errorf("combining shares %v of %s(%d bytes, n=%d,k=%d) failed: %v", idx, v, l, n, k, err)
						}
						if err := sameSecret(fmt.Sprintf("%s(%d bytes, n=%d,k=%d), shares %v", v, l, n, k, idx), got, secret); err != nil {
							return err
						}
						evals++
					}
				}
			}
			o.Bulk(evals, evals)
			return nil
		})
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "all-subsets", Configs: []string{"native"},
		Rule: "every ordered selection of at least k shares for n<=5 (thorough 7); each selection counts"},
		subsetCases(ssmsVariants), runSubsets)
	eng.AddEnum(eng.Sub{Prop: "C07", Name: "long-secrets", Configs: []string{"native"}, Shards: 4,
		Rule: "secrets of about 1 and 16 MiB (thorough: up to 70 MiB), all SSMS split functions"},
		func(tier string) []bigCase {
			r := bigCases(ssmsVariants, []int{1<<20 + 1, 16<<20 + 3}, []int{1 << 20, 1<<20 + 1, 4<<20 - 1, 16<<20 + 17, 70<<20 + 1})(tier)
			return r
		}, runBig)

	eng.Add(eng.Sub{Prop: "C08", Name: "format", Configs: with32("native", "noasm"), Quick: 4000, Thorough: 30000,
		Rule: "random SSMS split; shares decoded independently: part numbers, shared key and length, OFB encryption of the data parts, parity of the others; no share contains the key or plaintext; non-trivial: parity shares or more than one byte"},
		func(t *rapid.T) splitCase {
			c := genSplit(ssmsVariants, 200000, 4e6)(t)
			if eng.Uniform(t, 0, 9, "big") < 8 && c.N > 64 {
				c.N = 2 + c.N%63
				c.K = 2 + c.K%(c.N-1)
			}
			return c
		}, runSSMSFormat)
	eng.Add(eng.Sub{Prop: "C08", Name: "foreign-shares", Configs: with32("native"), Quick: 4000, Thorough: 60000,
		Rule: "shares built by the reference encoder (chosen key, tags, coefficients) must combine from any >= k of them; non-trivial: parity shares are used"},
		func(t *rapid.T) ssmsRefCase {
			c := ssmsRefCase{Seed: eng.Bits(t, 16, "seed"), Place: eng.Pick(t, "place", "list", "inplace", "nils"), Key: eng.Pick(t, "key", "rand", "rand", "rand", "zero")}
			maxN := 255
			if eng.Uniform(t, 0, 9, "big") < 8 {
				maxN = 40
			}
			c.N, c.K = genNK(t, maxN)
			c.Secret = genData(t, 100000)
			if c.Secret.Fill != "lit" {
				if top := max(64, 4_000_000/(c.N*c.K)*c.K); c.Secret.Len > top {
					c.Secret.Len = 1 + c.Secret.Len%top
				}
			}
			c.Use = rapid.SliceOfN(rapid.Custom(genSubset), 1, 2).Draw(t, "use")
			return c
		}, runSSMSRef)
	eng.Add(eng.Sub{Prop: "C08", Name: "relations", Configs: []string{"native"}, Quick: 1500, Thorough: 20000,
		Rule: "64 SSMS splits with the same random parameters from one source (or fresh ones); key and metadata coefficients are recovered and tested for constant values, repeats and fixed relations with tags, secret, each other and earlier calls; every case is non-trivial"},
		func(t *rapid.T) secCase {
			c := secCase{V: eng.Pick(t, "variant", ssmsVariants...), Secret: eng.Pick(t, "secret", "rand", "rand", "zero", "fixed"), Seed: eng.Bits(t, 16, "seed"), Fresh: eng.Uniform(t, 0, 5, "fresh") == 0}
			maxN := 24
			if eng.Uniform(t, 0, 9, "big") == 0 {
				maxN = 90
			}
			c.N, c.K = genNK(t, maxN)
			c.Len = genLen(t, 2000)
			c.RNG = genRNG(t)
			return c
		}, runSSMSRelations)
	type keyCase struct {
		V     string `json:"v"`
		N     int    `json:"n"`
		K     int    `json:"k"`
		Calls int    `json:"calls"`
		Seed  uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C08", Name: "keys", Configs: []string{"native"},
		Rule: "thousands of SSMS splits per function and (n,k): all keys distinct, every key byte and metadata coefficient uniform without missing values; each split counts"},
		func(tier string) []keyCase {
			var r []keyCase
			reps := 1
			if tier == "thorough" {
				reps = 10
			}
			for i := 0; i < reps; i++ {
				for _, v := range ssmsVariants {
					r = append(r, keyCase{v, 2, 2, 12000, uint64(i)}, keyCase{v, 3, 2, 12000, uint64(i)}, keyCase{v, 21, 3, 4000, uint64(i)})
				}
			}
			return r
		},
		func(o *eng.Obs, c keyCase) error {
			env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed})
			rep := newRepeats()
			var pool histogram
			by := make([]histogram, ref.KeyLen+(ref.KeyLen+ref.LenLen)*(c.K-1))
			var first, top histogram
			secret := []byte("s")
			for i := 0; i < c.Calls; i++ {
				sh, err := env.splitOK(c.V, secret, c.N, c.K)
				if err != nil {
					return err
				}
				key, coef, err := CheckSSMSFormat(secret, c.N, c.K, sh)
				if err != nil {
					return fmt.Errorf("%s(1 byte, n=%d, k=%d), call %d: %v", c.V, c.N, c.K, i, err)
				}
				if err := rep.add(func() string { return fmt.Sprintf("the key of call %d", i) }, clone(key)); err != nil {
					return fmt.Errorf("%s: %v", c.V, err)
				}
				for p, b := range key {
					by[p].add(b)
					pool.add(b)
				}
				first.add(sh[0][ref.MetaLen] ^ 's')
				for p := range coef {
					for j := 1; j < c.K; j++ {
						by[ref.KeyLen+p*(c.K-1)+j-1].add(coef[p][j])
						if j == c.K-1 {
							top.add(coef[p][j])
						}
					}
				}
			}
			if err := pool.check(); err != nil {
				return fmt.Errorf("%s: key bytes: %v", c.V, err)
			}
			if err := top.check(); err != nil {
				return fmt.Errorf("%s: top metadata coefficients: %v", c.V, err)
			}
			if err := first.check(); err != nil {
				return fmt.Errorf("%s: keystream of the first byte: %v", c.V, err)
			}
			for i := range by {
				if err := by[i].check(); err != nil {
					return fmt.Errorf("%s: key byte or metadata coefficient %d: %v", c.V, i, err)
				}
			}
			o.Bulk(c.Calls, c.Calls)
			return nil
		})

	eng.Add(eng.Sub{Prop: "C09", Name: "mutated-shares", Configs: with32("native"), Quick: 40000, Thorough: 1000000,
		Rule: "a real split, a selection of its shares, up to 4 mutations (bytes, truncation, extension, nil, empty, duplicates, part numbers, tags, length field, garbage) and right, neighbouring or odd numbers for Combine; every case is non-trivial"},
		func(t *rapid.T) mutCase {
			c := mutCase{V: eng.Pick(t, "variant", ssmsVariants...), RNG: RNG{Kind: "keyiv", Seed: eng.Bits(t, 8, "rngseed")}}
			c.N, c.K = genNK(t, eng.Pick(t, "maxn", 5, 10, 24))
			c.Secret = genData(t, 600)
			c.Sel = genSubset(t)
			c.Muts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mutation {
				return Mutation{eng.Pick(t, "op", mutOps...), eng.Uniform(t, 0, 30, "i"), eng.Uniform(t, 0, 700, "j"), eng.Uniform(t, 0, 255, "v")}
			}), 0, 4).Draw(t, "muts")
			c.CN, c.CK = c.N, c.K
			switch eng.Uniform(t, 0, 5, "numbers") {
			case 0:
				c.CN = max(c.CK, c.N+eng.Uniform(t, -3, 3, "dn"))
			case 1:
				c.CK = max(1, min(c.CN, c.K+eng.Uniform(t, -3, 3, "dk")))
			case 2:
				c.CN, c.CK = genOddInt(t, "cn"), genOddInt(t, "ck")
				if c.CN > 64 && c.CN <= 255 && c.CK > 8 && c.CK < c.CN {
					c.CK = 8
				}
			}
			return c
		}, runMut)
	eng.Add(eng.Sub{Prop: "C09", Name: "arbitrary-lists", Configs: with32("native"), Quick: 60000, Thorough: 1500000,
		Rule: "lists of 0..6 arbitrary strings of 0..60 bytes (lengths around the 23-byte minimum), small part numbers and tags so that many get through, any numbers; non-trivial: at least one string of 23 bytes"},
		func(t *rapid.T) struct {
			S      []string
			N, K   int
			Worker bool
		} {
			var c struct {
				S      []string
				N, K   int
				Worker bool
			}
			c.Worker = rapid.Bool().Draw(t, "worker")
			n := eng.Uniform(t, 0, 6, "n")
			l := eng.Pick(t, "l", 22, 23, 24, 25, 30, 37)
			for i := 0; i < n; i++ {
				m := l
				if eng.Uniform(t, 0, 7, "odd") == 0 {
					m = eng.Uniform(t, 0, 60, "m")
				}
				if m == 0 && rapid.Bool().Draw(t, "nil") {
					c.S = append(c.S, "nil")
					continue
				}
				b := make([]byte, m)
				fillRandom(b, eng.Bits(t, 12, "seed"))
				if m > 20 {
					b[20] = byte(eng.Uniform(t, 0, 6, "tag"))
					if eng.Uniform(t, 0, 2, "len0") > 0 {
						b[17], b[18], b[19] = 0, 0, 0
					}
				}
				if m > 0 {
					b[m-1] = byte(eng.Uniform(t, 0, 6, "part"))
					if i > 0 && eng.Uniform(t, 0, 3, "distinct") > 0 {
						b[m-1] = byte(i)
					}
				}
				c.S = append(c.S, hex.EncodeToString(b))
			}
			switch eng.Uniform(t, 0, 2, "numbers") {
			case 0:
				c.N, c.K = genOddInt(t, "pn"), genOddInt(t, "pk")
				if c.N > 64 && c.N <= 255 && c.K > 8 && c.K < c.N {
					c.K = 8
				}
			default:
				c.N = eng.Uniform(t, 1, 8, "pn")
				c.K = eng.Uniform(t, 1, c.N, "pk")
			}
			return c
		},
		func(o *eng.Obs, c struct {
			S      []string
			N, K   int
			Worker bool
		}) error {
			in := make([][]byte, len(c.S))
			for i, s := range c.S {
				if s == "nil" {
					continue
				}
				b, err := hex.DecodeString(s)
				if err != nil {
					return &eng.HarnessError{Err: err}
				}
				if b == nil {
					b = []byte{}
				}
				in[i] = b
				if len(b) >= 23 {
					o.NonTrivial()
				}
			}
			_, _, err := CheckSSMSCombine(o, in, c.N, c.K, c.Worker)
			return err
		})
	eng.Add(eng.Sub{Prop: "C09", Name: "below-threshold", Configs: with32("native"), Quick: 10000, Thorough: 150000,
		Rule: "1..k-1 shares of a split, some repeated, as a list or with nils, must give an error; every case is non-trivial"},
		func(t *rapid.T) belowCase {
			c := belowCase{V: eng.Pick(t, "variant", ssmsVariants...), RNG: RNG{Kind: "new"}, Seed: eng.Bits(t, 16, "seed")}
			c.N, c.K = genNK(t, eng.Pick(t, "maxn", 6, 30, 30, 255))
			c.M = c.K - 1
			if rapid.Bool().Draw(t, "fewer") {
				c.M = eng.Uniform(t, 0, c.K-1, "m")
			}
			c.Secret = genData(t, 2000)
			c.Place = eng.Pick(t, "place", "list", "inplace", "nils")
			if eng.Uniform(t, 0, 3, "dups") == 0 {
				c.Dup = eng.Uniform(t, 1, 3, "dup")
			}
			return c
		},
		func(o *eng.Obs, c belowCase) error {
			secret := c.Secret.Bytes()
			env := newEnv(c.RNG)
			sh, err := env.splitOK(c.V, secret, c.N, c.K)
			if err != nil {
				return err
			}
			r := prng(c.Seed)
			idx := r.Perm(c.N)[:c.M]
			in := arrange(c.Place, sh, idx, c.Seed)
			for i := 0; i < c.Dup && c.M > 0; i++ {
				in = append(in, clone(sh[idx[r.IntN(c.M)]]))
			}
			o.NonTrivial()
			nkClass(o, c.N, c.K)
			o.Class("k-1 shares: %v, repeats: %v", c.M == c.K-1, c.Dup > 0)
			got, err := env.combine(c.V, in, c.N, c.K)
			if err == nil {
				return fmt.Errorf("%s(%d bytes, n=%d, k=%d): %d shares (%d entries) were combined to %d bytes (the secret: %v)", c.V, len(secret), c.N, c.K, c.M, len(in), len(got), bytes.Equal(got, secret))
			}
			if len(got) != 0 {
				return fmt.Errorf("%s: %d shares of threshold %d: an error and %d bytes", c.V, c.M, c.K, len(got))
			}
			return nil
		})
}
