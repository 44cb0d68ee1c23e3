// Package eng is the harness's engine: it registers sub-checks, generates
// their cases (with rapid, or by enumeration), runs them one at a time with
// all randomness pinned, records what was generated, and turns a failure into
// a replay file.
package eng

import (
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	mrand "math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Sub is one executable check of one property.
type Sub struct {
	Prop string
	Name string
	// Rule says how cases are made and which count as non-trivial.
	Rule string
	// Configs are the CPU/build configurations to run it in.
	Configs []string
	// Quick and Thorough are case counts per configuration (ignored for
	// enumerations).
	Quick, Thorough int
	// Shards splits the work over processes (0: decided by the driver).
	Shards int
	// SameSeed gives every configuration the same cases.
	SameSeed bool
	// RealEntropy leaves crypto/rand alone (the case is then not
	// byte-for-byte reproducible, its verdict must not depend on that).
	RealEntropy bool
	// ThoroughOnly drops it from the quick tier.
	ThoroughOnly bool
	// Alone makes the driver run it when nothing else runs (it needs memory).
	Alone bool
	// LimitS is the time in seconds one case may take, if more than usual.
	LimitS int
	// Digest makes the driver compare what Run passes to Obs.Digest between
	// configurations.
	Digest bool

	IsEnum bool

	gen  func(t *rapid.T) any
	enum func(tier string) []any
	run  func(o *Obs, raw json.RawMessage) error
}

var Subs []*Sub

// Add registers a generated sub-check.
func Add[C any](s Sub, gen func(t *rapid.T) C, run func(o *Obs, c C) error) {
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.run = wrap(run)
	Subs = append(Subs, &s)
}

// AddEnum registers a sub-check over an enumerated list of cases.
func AddEnum[C any](s Sub, enum func(tier string) []C, run func(o *Obs, c C) error) {
	s.IsEnum = true
	s.enum = func(tier string) []any {
		l := enum(tier)
		r := make([]any, len(l))
		for i := range l {
			r[i] = l[i]
		}
		return r
	}
	s.run = wrap(run)
	Subs = append(Subs, &s)
}

func wrap[C any](run func(o *Obs, c C) error) func(o *Obs, raw json.RawMessage) error {
	return func(o *Obs, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return &HarnessError{fmt.Errorf("case %s: %v", raw, err)}
		}
		return run(o, c)
	}
}

// HarnessError is an error of the harness, never a violation.
type HarnessError struct{ Err error }

func (e *HarnessError) Error() string { return "harness: " + e.Err.Error() }

// Obs is what a running case reports about itself.
type Obs struct {
	Config string
	Tier   string
	// Seed is the case's randomness seed, for further choices of an
	// enumerated case.
	Seed uint64

	classes    map[string]int
	nontrivial bool
	bulkEvals  int
	bulkNT     int
	digest     []byte
	noDigest   bool
}

// Class labels the case.
func (o *Obs) Class(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	o.classes[format]++
}

// NonTrivial marks the case non-trivial by the sub-check's rule.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Bulk reports that the case itself enumerated `evals` distinct inputs, `nt` of
// them non-trivial.
func (o *Obs) Bulk(evals, nt int) { o.bulkEvals += evals; o.bulkNT += nt }

// Digest adds to the case's digest, compared across configurations.
func (o *Obs) Digest(bs ...[]byte) {
	h := fnv.New64a()
	h.Write(o.digest)
	for _, b := range bs {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(b)))
		h.Write(l[:])
		h.Write(b)
	}
	o.digest = h.Sum(nil)
}

// NoDigest takes the case out of the comparison.
func (o *Obs) NoDigest() { o.noDigest = true }

// Envelope is a case as it is written to current-case and replay files.
type Envelope struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Config   string          `json:"config"`
	Tier     string          `json:"tier"`
	Seed     uint64          `json:"seed"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
	Kind     string          `json:"kind,omitempty"`
	Note     string          `json:"note,omitempty"`
}

// Result is what one worker process reports.
type Result struct {
	Property    string         `json:"property"`
	Sub         string         `json:"sub"`
	Config      string         `json:"config"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	BulkNT      int            `json:"bulk_nontrivial"`
	Hashes      []string       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Violation   *Envelope      `json:"violation,omitempty"`
	HarnessErr  string         `json:"harness_error,omitempty"`
	Digests     []string       `json:"digests,omitempty"`
	Cases       []string       `json:"cases,omitempty"`
	WallS       float64        `json:"wall_s"`
	MaxCaseS    float64        `json:"max_case_s"`
}

type detReader struct {
	mu sync.Mutex
	c  *randv2.ChaCha8
}

func (d *detReader) Read(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.c.Read(b)
}

// DetReader is a deterministic stand-in for the system's entropy.
func DetReader(seed uint64) io.Reader {
	var s [32]byte
	binary.LittleEndian.PutUint64(s[:], seed)
	copy(s[8:], "averif deterministic ent")
	return &detReader{c: randv2.NewChaCha8(s)}
}

var realReader = crand.Reader

// PinRandomness makes the code under test draw from streams fixed by seed.
func PinRandomness(seed uint64) {
	mrand.Seed(int64(seed ^ 0x5bd1e995))
	crand.Reader = DetReader(seed)
}

// FreeRandomness restores the system's entropy.
func FreeRandomness() { crand.Reader = realReader }

// Runner runs the cases of one sub-check in this process.
type Runner struct {
	S          *Sub
	Config     string
	Tier       string
	CurPath    string
	CaseLimit  time.Duration
	res        *Result
	hashes     map[uint64]bool
	cur        *os.File
	caseStart  atomic.Int64
	lastFail   *Envelope
	harnessErr error
	counting   bool
}

func NewRunner(s *Sub, config, tier, curPath string, limit time.Duration) *Runner {
	limit = max(limit, time.Duration(s.LimitS)*time.Second)
	r := &Runner{S: s, Config: config, Tier: tier, CurPath: curPath, CaseLimit: limit, counting: true}
	r.res = &Result{Property: s.Prop, Sub: s.Name, Config: config, Rule: s.Rule, Classes: map[string]int{}}
	r.hashes = map[uint64]bool{}
	if curPath != "" {
		f, err := os.OpenFile(curPath, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			panic(err)
		}
		r.cur = f
	}
	go r.watchdog()
	return r
}

// HangExit is the exit code for a case that ran over its limit.
const HangExit = 97

func (r *Runner) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		st := r.caseStart.Load()
		if st != 0 && time.Since(time.Unix(0, st)) > r.CaseLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: the case in %s ran for more than %v\n%s\n", r.CurPath, r.CaseLimit, buf[:n])
			os.Exit(HangExit)
		}
	}
}

// RunCase runs one case and returns its error (nil: the property held).
func (r *Runner) RunCase(seed uint64, raw json.RawMessage) (err error) {
	env := Envelope{Property: r.S.Prop, Sub: r.S.Name, Config: r.Config, Tier: r.Tier, Seed: seed, Case: raw}
	if r.cur != nil {
		b, _ := json.Marshal(env)
		b = append(b, '\n')
		_, _ = r.cur.WriteAt(b, 0)
		_ = r.cur.Truncate(int64(len(b)))
	}
	o := &Obs{Config: r.Config, Tier: r.Tier, Seed: seed, classes: map[string]int{}}
	start := time.Now()
	r.caseStart.Store(start.UnixNano())
	func() {
		defer func() {
			if p := recover(); p != nil {
				st := string(debug.Stack())
				if re, ok := p.(*HarnessError); ok {
					err = re
					return
				}
				kind := "panic"
				if !strings.Contains(afterPanic(st), "github.com/fadhilkurnia/shamir") {
					err = &HarnessError{fmt.Errorf("panic outside the code under test: %v\n%s", p, st)}
					return
				}
				err = fmt.Errorf("%s: %v\n%s", kind, p, trimStack(st))
			}
		}()
		if r.S.RealEntropy {
			FreeRandomness()
		} else {
			PinRandomness(seed)
		}
		err = r.S.run(o, raw)
	}()
	r.caseStart.Store(0)
	d := time.Since(start).Seconds()
	if he, ok := err.(*HarnessError); ok {
		r.harnessErr = he
		r.res.HarnessErr = he.Error() + "\ncase: " + clip(string(raw), 2000)
		return nil
	}
	if err != nil {
		env.Error = err.Error()
		r.lastFail = &env
		r.counting = false // what follows are shrinking attempts
	}
	if r.counting {
		if d > r.res.MaxCaseS {
			r.res.MaxCaseS = d
		}
		r.res.Evaluations += max(1, o.bulkEvals)
		for k, v := range o.classes {
			r.res.Classes[k] += v
		}
		r.res.BulkNT += o.bulkNT
		if o.nontrivial {
			h := fnv.New64a()
			h.Write([]byte(r.S.Name))
			h.Write(raw)
			if !r.S.IsEnum {
				var sb [8]byte
				binary.LittleEndian.PutUint64(sb[:], seed)
				h.Write(sb[:])
			}
			r.hashes[h.Sum64()] = true
		}
		n := r.res.Evaluations
		if len(r.res.Samples) < 3 || (n&(n-1)) == 0 && len(r.res.Samples) < 8 {
			r.res.Samples = append(r.res.Samples, clip(string(raw), 700))
		}
		if r.S.Digest {
			d := fmt.Sprintf("%x", o.digest)
			if o.noDigest {
				d = "-"
			}
			r.res.Digests = append(r.res.Digests, d)
			b, _ := json.Marshal(env)
			r.res.Cases = append(r.res.Cases, string(b))
		}
	}
	return err
}

// HarnessErr is the harness's own error, if there was one.
func (r *Runner) HarnessErr() string {
	if r.harnessErr == nil {
		return ""
	}
	return r.harnessErr.Error()
}

func afterPanic(st string) string {
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		st = st[i:]
		// only the frames down to the harness's runner
		if j := strings.Index(st, "averif/eng.(*Runner).RunCase"); j >= 0 {
			st = st[:j]
		}
	}
	return st
}

func trimStack(st string) string {
	st = afterPanic(st)
	return clip(st, 3000)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Finish completes the result.
func (r *Runner) Finish(start time.Time) *Result {
	for h := range r.hashes {
		r.res.Hashes = append(r.res.Hashes, fmt.Sprintf("%x", h))
	}
	sort.Strings(r.res.Hashes)
	r.res.WallS = time.Since(start).Seconds()
	if r.harnessErr == nil {
		r.res.Violation = r.lastFail
	}
	return r.res
}

// Enumerate runs every shards-th case of the enumeration.
func (r *Runner) Enumerate(seed uint64, shard, shards int) {
	cases := r.S.enum(r.Tier)
	for i, c := range cases {
		if i%shards != shard {
			continue
		}
		raw, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if r.RunCase(Mix(seed, uint64(i)), raw) != nil || r.harnessErr != nil {
			return
		}
	}
}

// Generate runs n generated cases and shrinks the first failure.
func (r *Runner) Generate(t rapid.TB) {
	rapid.Check(t, func(t *rapid.T) {
		if r.harnessErr != nil {
			return
		}
		c := r.S.gen(t)
		seed := Bits(t, 32, "rng")
		raw, err := json.Marshal(c)
		if err != nil {
			panic(&HarnessError{err})
		}
		if err := r.RunCase(seed, raw); err != nil {
			t.Fatalf("%v", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Mix hashes its arguments to a nonzero 63-bit seed.
func Mix(vs ...uint64) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x &= 1<<63 - 1
	if x == 0 {
		x = 1
	}
	return x
}

func MixString(seed uint64, s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return Mix(seed, h.Sum64())
}

// Bits draws n uniform bits (rapid's own integers are biased to small ones).
func Bits(t *rapid.T, n int, label string) uint64 {
	bs := rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, label)
	var v uint64
	for _, b := range bs {
		v <<= 1
		if b {
			v |= 1
		}
	}
	return v
}

// Uniform draws an integer in [lo,hi], nearly uniformly.
func Uniform(t *rapid.T, lo, hi int, label string) int {
	if hi <= lo {
		return lo
	}
	return lo + int(Bits(t, 24, label)%uint64(hi-lo+1))
}

// Pick draws one of the values, uniformly.
func Pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[Uniform(t, 0, len(vs)-1, label)]
}
