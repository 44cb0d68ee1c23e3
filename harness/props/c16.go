package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	mrand "math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"sync"
	"time"

	"averif/aaacpumask"
	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

// Sources of hidden bytes: every way a user gets them without a key of his own.
var hiddenKinds = []string{"Split", "SplitGeneric", "SplitP", "worker", "ssms", "ssmsWorker", "SplitWithRandomizer", "SplitWithRandomizerOld", "ssmsR", "csprng", "randomizer"}

// hidden makes one fresh use of a kind and returns its hidden bytes, in the
// order (byte position, coefficient index) for Shamir splits.
func hidden(kind string, n, k, l int) ([][]byte, error) {
	switch kind {
	case "csprng":
		b := make([]byte, l)
		_, _ = csprng.NewCSPRNG().Read(b)
		return [][]byte{b}, nil
	case "randomizer":
		b := make([]byte, l)
		_, _ = randomizer.NewRandomizer().Read(b)
		return [][]byte{b}, nil
	}
	secret := make([]byte, l)
	var sh [][]byte
	var err error
	switch kind {
	case "worker", "ssmsWorker":
		w := worker.NewWorker()
		alg := worker.AlgShamir
		if kind == "ssmsWorker" {
			alg = worker.AlgSSMS
		}
		sh, err = w.Split(alg, secret, n, k)
	case "SplitWithRandomizer":
		sh, err = shamir.SplitWithRandomizer(secret, n, k, csprng.NewCSPRNG())
	case "SplitWithRandomizerOld":
		sh, err = shamir.SplitWithRandomizerOld(secret, n, k, csprng.NewCSPRNG())
	case "ssmsR":
		sh, err = krawczyk.SplitWithRandomizer(secret, n, k, csprng.NewCSPRNG())
	default:
		sh, err = (&Env{}).split(kind, secret, n, k)
	}
	if err != nil {
		return nil, fmt.Errorf("%s(%d bytes, %d, %d) failed: %v", kind, l, n, k, err)
	}
	want := l + 1
	if isSSMS(kind) {
		want = ref.SSMSShareLen(l, k)
	}
	if len(sh) != n {
		return nil, fmt.Errorf("%s returned %d shares", kind, len(sh))
	}
	for _, s := range sh {
		if len(s) != want {
			return nil, fmt.Errorf("%s: a share has %d bytes, want %d", kind, len(s), want)
		}
	}
	pts := cloneAll(sh[:k])
	if isSSMS(kind) {
		for i := range pts {
			pts[i] = pts[i][:ref.MetaLen]
		}
	}
	if err := distinctTags(pts); err != nil {
		return nil, err
	}
	cols := ref.Columns(pts)
	var out [][]byte
	if isSSMS(kind) {
		out = append(out, clone(cols[0][:ref.KeyLen]))
	}
	flat := make([]byte, 0, len(cols[0])*(k-1))
	for p := range cols[0] {
		for j := 1; j < k; j++ {
			flat = append(flat, cols[j][p])
		}
	}
	return append(out, flat), nil
}

type reseedCase struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Len    int    `json:"len"`
	Seed   int64  `json:"seed"`
	Warm   int    `json:"warm"`   // draws from math/rand before each use
	Times  int    `json:"times"`  // uses with the same seed
	Within int    `json:"within"` // uses per reset: the last one counts
}

// equalRun is where n bytes in a row are the same in a and b, or -1.
func equalRun(a, b []byte, n int) int {
	same := 0
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			same = 0
			continue
		}
		if same++; same == n {
			return i - n + 1
		}
	}
	return -1
}

// runReseed uses a kind several times, each time after the same reset of
// math/rand: the hidden bytes of the uses must not be related.
func runReseed(o *eng.Obs, c reseedCase) error {
	o.Class(c.Kind)
	var runs [][][]byte
	for i := 0; i < c.Times; i++ {
		mrand.Seed(c.Seed)
		for j := 0; j < c.Warm; j++ {
			mrand.Int63()
		}
		var h [][]byte
		var err error
		for j := 0; j < c.Within; j++ {
			if h, err = hidden(c.Kind, c.N, c.K, c.Len); err != nil {
				return err
			}
		}
		runs = append(runs, h)
	}
	for part := range runs[0] {
		name := "the hidden coefficients"
		switch {
		case c.Kind == "csprng" || c.Kind == "randomizer":
			name = "the first bytes of the stream"
		case len(runs[0]) == 2 && part == 0:
			name = "the SSMS key"
		}
		if len(runs[0][part]) >= 12 {
			for i := range runs {
				for j := 0; j < i; j++ {
					if tooSimilar(runs[i][part], runs[j][part]) {
						return fmt.Errorf("%s: %s are the same after math/rand was reset to %d (%x and %x)", c.Kind, name, c.Seed, head(runs[j][part]), head(runs[i][part]))
					}
				}
			}
			// a few bytes alone
			run := 6
			if name == "the SSMS key" {
				run = 4
			}
			for j, i := 0, 1; i < len(runs); i++ {
				if at := equalRun(runs[i][part], runs[j][part], run); at >= 0 {
					return fmt.Errorf("%s: bytes %d to %d of %s are the same after math/rand was reset to %d (%x)", c.Kind, at, at+run-1, name, c.Seed, runs[i][part][at:at+run])
				}
			}
			// one coefficient index alone may come from the weak source
			if part == len(runs[0])-1 && c.K > 2 && c.Kind != "csprng" && c.Kind != "randomizer" {
				m := len(runs[0][part]) / (c.K - 1)
				if m < 12 {
					continue
				}
				for d := 0; d < c.K-1; d++ {
					a, b := make([]byte, m), make([]byte, m)
					for p := range a {
						a[p], b[p] = runs[0][part][p*(c.K-1)+d], runs[1][part][p*(c.K-1)+d]
					}
					if tooSimilar(a, b) {
						return fmt.Errorf("%s: coefficient %d is the same after math/rand was reset to %d (%x and %x)", c.Kind, d+1, c.Seed, head(a), head(b))
					}
				}
			}
		} else if c.Times >= 32 {
			// few bytes: each must vary over many uses
			for p := range runs[0][part] {
				col := make([]byte, len(runs))
				for i := range runs {
					col[i] = runs[i][part][p]
				}
				if v, m := constantColumn(col); m >= 24 {
					return fmt.Errorf("%s: byte %d of %s is %#02x in %d of %d uses after math/rand was reset to %d", c.Kind, p, name, v, m, len(runs), c.Seed)
				}
			}
		}
	}
	o.NonTrivial()
	return nil
}

// ---- search for time-dependent seeds --------------------------------------

type shortCase struct {
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Times int    `json:"times"`
	Most  int    `json:"most"` // bytes per read of the source, at most
	Seed  uint64 `json:"seed"`
}

// shortReader gives fewer bytes at a time than it is asked for.
type shortReader struct {
	mu   sync.Mutex
	src  io.Reader
	most int
	r    *randv2.Rand
}

func (s *shortReader) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	return s.src.Read(b[:1+s.r.IntN(min(len(b), s.most))])
}

// runShort uses a kind while the entropy source gives few bytes at a time.
func runShort(o *eng.Obs, c shortCase) error {
	crand.Reader = &shortReader{src: eng.DetReader(c.Seed), most: c.Most, r: prng(c.Seed)}
	defer eng.FreeRandomness()
	o.Class("%s", c.Kind)
	o.NonTrivial()
	rep := newRepeats()
	for i := 0; i < c.Times; i++ {
		h, err := hidden(c.Kind, c.N, c.K, c.Len)
		if err != nil {
			return fmt.Errorf("with an entropy source that gives up to %d bytes at a time: %v", c.Most, err)
		}
		for part, x := range h {
			if at := equalRun(x, make([]byte, len(x)), 8); at >= 0 {
				return fmt.Errorf("%s: with an entropy source that gives up to %d bytes at a time, hidden bytes %d to %d are zero", c.Kind, c.Most, at, at+7)
			}
			if err := rep.add(func() string { return fmt.Sprintf("use %d, part %d", i, part) }, x); err != nil {
				return fmt.Errorf("%s: with an entropy source that gives up to %d bytes at a time: hidden bytes used twice: %v", c.Kind, c.Most, err)
			}
		}
	}
	return nil
}

type attackCase struct {
	Kind string `json:"kind"`
	Perm bool   `json:"perm"` // the generator was used for the tags first
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
}

const (
	weakLen = 112 // bytes of every weak stream that are compared
	weakHit = 8   // hidden bytes in a row that must be found in it
)

// weakBuf holds what a math/rand generator gives, drawn in different ways.
type weakBuf struct {
	src  mrand.Source64
	gen  *mrand.Rand
	bufs [7][weakLen]byte
}

var weakNames = [...]string{"Read", "byte(Int())", "byte(Uint32())", "Intn(256)", "Intn(255)", "Uint64", "hash"}

func newWeakBuf() *weakBuf {
	src := mrand.NewSource(1).(mrand.Source64)
	return &weakBuf{src: src, gen: mrand.New(src)}
}

// fill draws from the generator with this seed; all ways of drawing are
// derived from one run of it (see TestWeak in c16_test.go).
func (w *weakBuf) fill(seed int64, perm bool) {
	w.src.Seed(seed)
	if perm {
		w.gen.Perm(255)
	}
	var read uint64
	left := 0
	for i := 0; i < weakLen; i++ {
		u := w.src.Uint64()
		v := u &^ (1 << 63)
		w.bufs[1][i] = byte(v)
		w.bufs[2][i] = byte(v >> 31)
		w.bufs[3][i] = byte(v >> 32)
		w.bufs[4][i] = byte((v >> 32) % 255)
		if i < weakLen/8 {
			binary.LittleEndian.PutUint64(w.bufs[5][8*i:], u)
		}
		if left = i * 7; left < weakLen {
			read = v
			for j := 0; j < 7 && left+j < weakLen; j++ {
				w.bufs[0][left+j] = byte(read >> (8 * j))
			}
		}
	}
	// digests of the number itself
	var le, be [8]byte
	binary.LittleEndian.PutUint64(le[:], uint64(seed))
	binary.BigEndian.PutUint64(be[:], uint64(seed))
	h := w.bufs[6][:0]
	a, b := sha256.Sum256(le[:]), sha256.Sum256(be[:])
	c, d := md5.Sum(le[:]), md5.Sum(be[:])
	h = append(append(append(append(h, a[:]...), b[:]...), c[:]...), d[:]...)
	_ = h
}

// weakTargets picks the stretches of hidden bytes to look for: the first ones,
// by position and by coefficient, and those at the borders of blocks.
func weakTargets(h [][]byte, k int) [][]byte {
	var r [][]byte
	add := func(x []byte, at int) {
		if at+weakHit <= len(x) {
			r = append(r, x[at:at+weakHit])
		}
	}
	for i, x := range h {
		add(x, 0)
		if i < len(h)-1 || k == 0 { // a key
			if len(x) == 16 {
				add(x, 8)
			}
			continue
		}
		for _, p := range []int{1 << 10, 1 << 12, 1 << 14, 1 << 16, 1 << 17} {
			add(x, p)
			add(x, p*(k-1))
		}
		if k > 2 {
			for _, j := range []int{0, k - 2} {
				col := make([]byte, 0, weakHit)
				for p := j; p < len(x) && len(col) < weakHit; p += k - 1 {
					col = append(col, x[p])
				}
				add(col, 0)
			}
		}
	}
	return r
}

// matchWeak says whether the hidden bytes come from the generator w, in one of
// the layouts that the splits use.
func (w *weakBuf) matchWeak(targets [][]byte, k int) string {
	var every [weakLen]byte
	for i := range w.bufs {
		buf := w.bufs[i][:]
		n := 0
		if k >= 2 { // a slot for the intercept before the coefficients
			for j := range buf {
				if j%k != 0 {
					every[n] = buf[j]
					n++
				}
			}
		}
		for _, x := range targets {
			if bytes.Contains(buf, x) {
				return weakNames[i]
			}
			if bytes.Contains(every[:n], x) {
				return weakNames[i] + " with a slot for the intercept"
			}
		}
		// AES-CTR keyed from the generator
		for _, o := range []int{0, 16} {
			blk, err := aes.NewCipher(buf[o : o+16])
			if err != nil {
				panic(&eng.HarnessError{Err: err})
			}
			for _, iv := range [][]byte{buf[16-o : 32-o], make([]byte, 16)} {
				var ks [96]byte
				cipher.NewCTR(blk, iv).XORKeyStream(ks[:], ks[:])
				for _, x := range targets {
					if bytes.Contains(ks[:], x) {
						return "AES-CTR keyed with " + weakNames[i]
					}
				}
			}
		}
	}
	return ""
}

func runAttack(o *eng.Obs, c attackCase) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	// the call with the smallest window
	var h [][]byte
	var t0, t1 time.Time
	for i := 0; i < 60; i++ {
		a := time.Now()
		x, err := hidden(c.Kind, c.N, c.K, c.Len)
		b := time.Now()
		if err != nil {
			return err
		}
		if h == nil || b.Sub(a) < t1.Sub(t0) {
			h, t0, t1 = x, a, b
		}
	}
	w := newWeakBuf()
	k := c.K
	if c.Kind == "csprng" || c.Kind == "randomizer" {
		k = 0
	}
	targets := weakTargets(h, k)
	if len(targets) == 0 {
		return &eng.HarnessError{Err: fmt.Errorf("nothing to look for")}
	}
	tried := 0
	try := func(seed int64, what string) error {
		tried++
		w.fill(seed, c.Perm)
		if how := w.matchWeak(targets, k); how != "" {
			return fmt.Errorf("%s: the hidden bytes are those of math/rand (%s) seeded with %s = %d", c.Kind, how, what, seed)
		}
		return nil
	}
	limit := 30000
	if o.Tier == "thorough" {
		limit = 300000
	}
	span := t1.Sub(t0).Nanoseconds()
	if span > int64(limit) {
		o.Class("window cut")
		span = int64(limit)
	}
	for d := int64(0); d <= span; d++ {
		if err := try(t0.UnixNano()+d, "the time in ns"); err != nil {
			return err
		}
	}
	pid := int64(os.Getpid())
	for d := int64(0); d <= span && d < 8000 && !c.Perm; d++ {
		t := t0.UnixNano() + d
		for _, x := range []int64{t ^ pid, t + pid, t ^ pid<<16} {
			if err := try(x, "the time in ns with the process number"); err != nil {
				return err
			}
		}
	}
	for d := int64(0); d <= 1+span/1000; d++ {
		if err := try(t0.UnixMicro()+d, "the time in us"); err != nil {
			return err
		}
	}
	for _, s := range []int64{t0.UnixMilli(), t1.UnixMilli(), t0.Unix(), t1.Unix(), int64(t0.Nanosecond()), int64(os.Getpid()), int64(os.Getppid()), 42, 1234, 12345, 0xdeadbeef, 0x5eed} {
		if err := try(s, "a guess"); err != nil {
			return err
		}
	}
	for s := int64(-2); s <= 300; s++ {
		if err := try(s, "a small number"); err != nil {
			return err
		}
	}
	o.Class("%s", c.Kind)
	o.Bulk(tried, tried)
	return nil
}

type startCase struct {
	Kind string `json:"kind"`
}

// processStart uses the first split of this process: a package-level generator
// seeded when the process started is recognised by its first bytes.
func runStart(o *eng.Obs, c startCase) error {
	h, err := hidden(c.Kind, 3, 2, 24)
	if err != nil {
		return err
	}
	from, to := aaacpumask.Start.UnixNano(), initDone.UnixNano()
	limit := int64(120000)
	if o.Tier == "thorough" {
		limit = 3000000
	}
	src := mrand.NewSource(1)
	n := 0
	for s := to; s >= from && to-s < limit; s-- {
		n++
		for _, perm := range []bool{false, true} {
			if how := matchStart(h, s, src, perm); how != "" {
				return fmt.Errorf("%s: the first hidden bytes of the process are those of math/rand (%s) seeded with the time in ns at start-up", c.Kind, how)
			}
		}
	}
	o.Class("%s", c.Kind)
	o.Bulk(n, n)
	return nil
}

// matchStart is the short version of matchWeak.
func matchStart(h [][]byte, seed int64, src mrand.Source, perm bool) string {
	gen := mrand.New(src)
	src.Seed(seed)
	if perm {
		gen.Perm(255)
	}
	var buf [96]byte
	gen.Read(buf[:])
	for _, x := range h {
		if bytes.Contains(buf[:], x[:6]) {
			return "Read"
		}
		var every [48]byte
		for i := range every {
			every[i] = buf[2*i+1]
		}
		if bytes.Contains(every[:], x[:6]) {
			return "Read with a slot for the intercept"
		}
	}
	return ""
}

var initDone = time.Now()

func init() {
	eng.Add(eng.Sub{Prop: "C16", Name: "reseeded", Configs: []string{"native"}, RealEntropy: true, Quick: 6000, Thorough: 100000,
		Rule: "every kind of split and fresh source is used 2 to 40 times, each time after math/rand was reset to the same seed (and drawn from equally often): the hidden coefficients, SSMS keys and streams must not repeat; every case counts"},
		func(t *rapid.T) reseedCase {
			c := reseedCase{Kind: eng.Pick(t, "kind", hiddenKinds...), Warm: eng.Pick(t, "warm", 0, 0, 1, 17), Times: 2, Within: eng.Pick(t, "within", 1, 1, 1, 2, 3)}
			c.Seed = eng.Pick(t, "seed", 0, 1, 42, -1, int64(eng.Bits(t, 40, "s")))
			c.N, c.K = genNK(t, 255)
			c.Len = genLen(t, 6000)
			if eng.Uniform(t, 0, 5, "short") == 0 {
				c.Times, c.Len = 40, eng.Uniform(t, 1, 11, "len")
				c.N, c.K = min(c.N, 20), min(c.K, 4, c.N)
			}
			c.Len = max(1, min(c.Len, 600_000/c.N, 4_000_000/(c.K*c.K)))
			return c
		}, runReseed)
	eng.AddEnum(eng.Sub{Prop: "C16", Name: "seed-search", Configs: []string{"native"}, RealEntropy: true,
		Rule: "for each kind, with short, longer and long secrets and two thresholds, the shortest of 60 calls: every math/rand seed that is a time (ns, us, ms, s) during the call (its first 0.03 ms if it is longer; thorough 0.3 ms), the pid or a small number, with six ways of drawing bytes, digests of the number, the layouts of the splits and AES-CTR keyed by them, is compared with the hidden bytes; every seed tried counts"},
		func(tier string) []attackCase {
			var r []attackCase
			for _, perm := range []bool{false, true} {
				for _, k := range hiddenKinds {
					for _, x := range [][3]int{{3, 2, 24}, {9, 5, 1500}, {3, 2, 70000}, {21, 3, 100}} {
						r = append(r, attackCase{k, perm, x[0], x[1], x[2]})
					}
				}
			}
			return r
		}, runAttack)
	eng.AddEnum(eng.Sub{Prop: "C16", Name: "start-search", Configs: []string{"native"}, RealEntropy: true, Shards: 5,
		Rule: "in fresh processes the first split of each kind: every math/rand seed that is a time in ns between process start and the end of initialisation (the last 0.12 ms, thorough 3 ms); every seed tried counts"},
		func(tier string) []startCase {
			return []startCase{{"Split"}, {"SplitGeneric"}, {"SplitP"}, {"ssms"}, {"csprng"}}
		}, runStart)
	eng.Add(eng.Sub{Prop: "C16", Name: "short-reads", Configs: []string{"native"}, RealEntropy: true, Quick: 3000, Thorough: 60000,
		Rule: "every kind of split and fresh source, two or three uses while the system's entropy source returns one to 1000 bytes at a time: no eight hidden bytes in a row are zero, or the same as others; every case counts"},
		func(t *rapid.T) shortCase {
			c := shortCase{Kind: eng.Pick(t, "kind", hiddenKinds...), Times: eng.Uniform(t, 2, 3, "times"), Most: eng.Pick(t, "most", 1, 2, 5, 15, 16, 17, 31, 100, 256, 1000), Seed: eng.Bits(t, 30, "seed")}
			c.N, c.K = genNK(t, 60)
			c.Len = max(1, min(genLen(t, 6000), 20000/c.K, 60000/c.N))
			return c
		}, runShort)
}
