package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"expvar"
	"fmt"
	"log"
	"os"
	"regexp"
	"strings"
	"syscall"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

// ---- C03, C08: two runs with the same random bytes and different secrets ---

type twinCase struct {
	V      string   `json:"v"`
	N      int      `json:"n"`
	K      int      `json:"k"`
	Len    int      `json:"len"`
	A      Data     `json:"a"`
	B      string   `json:"b"` // what the second secret is
	At     int      `json:"at"`
	RNG    RNG      `json:"rng"`
	Before []string `json:"before,omitempty"` // splits of the same secret before it
}

var otherSecrets = []string{"random", "zero", "flip", "byte", "first", "last", "reverse", "swapped-halves"}

// other makes the second secret.
func (c twinCase) other(a []byte, seed uint64) []byte {
	b := clone(a)
	at := c.At % len(a)
	switch c.B {
	case "random":
		fillRandom(b, seed)
	case "zero":
		clear(b)
	case "flip":
		b[at] ^= 1 << (c.At % 8)
	case "byte":
		b[at] += byte(1 + c.At%254)
	case "first":
		b[0]++
	case "last":
		b[len(b)-1] ^= 0x80
	case "reverse":
		for i := range b {
			b[i] = a[len(a)-1-i]
		}
	case "swapped-halves":
		b = append(clone(a[len(a)/2:]), a[:len(a)/2]...)
	}
	return b
}

func genTwin(vs []string) func(t *rapid.T) twinCase {
	return func(t *rapid.T) twinCase {
		c := twinCase{V: eng.Pick(t, "variant", vs...)}
		c.N, c.K = genNK(t, 255)
		top := max(20, 40000/(c.K*c.N)) * 4
		if c.V == "SplitP" {
			top = min(top, 1024) // more are split in parallel, in any order
		}
		c.A = genData(t, top)
		c.Len = c.A.Len
		c.B = eng.Pick(t, "other", otherSecrets...)
		c.At = eng.Uniform(t, 0, 100000, "at")
		c.RNG = genRNG(t)
		for i := eng.Uniform(t, 0, 2, "before"); i > 0; i-- {
			v := eng.Pick(t, "beforev", vs...)
			if v != "SplitP" || c.Len <= 1024 {
				c.Before = append(c.Before, v)
			}
		}
		return c
	}
}

// hiddenOf returns the public tags, and everything that has to be random:
// coefficients, for SSMS those of the metadata and the key.
func hiddenOf(v string, n, k int, secret []byte, sh [][]byte) (tags, hidden []byte, err error) {
	if isSSMS(v) {
		key, coef, err := CheckSSMSFormat(secret, n, k, sh)
		if err != nil {
			return nil, nil, err
		}
		for _, s := range sh {
			tags = append(tags, s[ref.MetaLen-1])
		}
		hidden = append(hidden, key...)
		for _, c := range coef {
			hidden = append(hidden, c[1:]...)
		}
		return tags, hidden, nil
	}
	for _, s := range sh {
		tags = append(tags, s[len(s)-1])
	}
	if err := distinctTags(sh[:k]); err != nil {
		return nil, nil, err
	}
	for _, c := range ref.Coefficients(sh[:k]) {
		hidden = append(hidden, c[1:]...)
	}
	return tags, hidden, nil
}

// confirmed reports whether xa, made from a, and xb, made from b, differ, and
// keep doing so: where the random bytes are not the same every time, a single
// short result may be so by chance.
func confirmed(one func([]byte) ([]byte, error), a, b, xa, xb []byte) (bool, error) {
	if bytes.Equal(xa, xb) {
		return false, nil
	}
	for i := 0; i < 6; i++ {
		ya, err := one(a)
		if err != nil {
			return false, err
		}
		yb, err := one(b)
		if err != nil {
			return false, err
		}
		if !bytes.Equal(xa, ya) || !bytes.Equal(xb, yb) {
			return false, nil
		}
	}
	return true, nil
}

func runTwin(o *eng.Obs, c twinCase) error {
	a := c.A.Bytes()
	b := c.other(a, o.Seed)
	seed := eng.Mix(o.Seed, 77)
	one := func(secret []byte) (tags, hidden []byte, err error) {
		eng.PinRandomness(seed)
		env := newEnv(c.RNG)
		for _, v := range c.Before {
			if _, err := env.splitOK(v, secret, 3, 2); err != nil {
				return nil, nil, err
			}
		}
		sh, err := env.splitOK(c.V, secret, c.N, c.K)
		if err != nil {
			return nil, nil, err
		}
		return hiddenOf(c.V, c.N, c.K, secret, sh)
	}
	ta, ha, err := one(a)
	if err != nil {
		return err
	}
	ta2, ha2, err := one(a)
	if err != nil {
		return err
	}
	tb, hb, err := one(b)
	if err != nil {
		return err
	}
	o.Class(c.V)
	o.Class("%s", c.B)
	desc := fmt.Sprintf("%s(%d bytes, n=%d, k=%d) twice with the same random bytes", c.V, len(a), c.N, c.K)
	if bytes.Equal(ta, ta2) {
		if diff, err := confirmed(func(s []byte) ([]byte, error) { t, _, err := one(s); return t, err }, a, b, ta, tb); err != nil || diff {
			if err != nil {
				return err
			}
			return fmt.Errorf("%s: the public tags depend on the secret (%x, with another secret %x)", desc, head(ta), head(tb))
		}
	} else {
		o.Class("tags not replayable")
	}
	if bytes.Equal(ha, ha2) {
		if diff, err := confirmed(func(s []byte) ([]byte, error) { _, h, err := one(s); return h, err }, a, b, ha, hb); err != nil || diff {
			if err != nil {
				return err
			}
			i := 0
			for ha[i] == hb[i] {
				i++
			}
			what := "coefficients depend"
			if isSSMS(c.V) && i < ref.KeyLen {
				what = "key depends"
			} else if isSSMS(c.V) {
				what = "coefficients of the shared key depend"
			}
			return fmt.Errorf("%s: the %s on the secret (hidden byte %d is %#02x, with another secret %#02x)", desc, what, i, ha[i], hb[i])
		}
		if !bytes.Equal(a, b) {
			o.NonTrivial()
		}
	} else {
		o.Class("coefficients not replayable")
	}
	return nil
}

// ---- C23 ------------------------------------------------------------------

type quietStep struct {
	Op   string     `json:"op"` // split, badsplit, badalg, combine, badname, regenerate
	V    string     `json:"v"`
	N    int        `json:"n"`
	K    int        `json:"k"`
	Sel  Subset     `json:"sel"`
	Few  bool       `json:"few,omitempty"`
	Muts []Mutation `json:"muts,omitempty"`
	CN   int        `json:"cn"`
	CK   int        `json:"ck"`
	Num  int        `json:"num,omitempty"`
}

type quietCase struct {
	A     Data        `json:"a"`
	B     string      `json:"b"`
	At    int         `json:"at"`
	RNG   RNG         `json:"rng"`
	Steps []quietStep `json:"steps"`
}

func genQuiet(t *rapid.T) quietCase {
	c := quietCase{A: genData(t, 3000), B: eng.Pick(t, "other", otherSecrets...), At: eng.Uniform(t, 0, 100000, "at"), RNG: genRNG(t)}
	one := rapid.Custom(func(t *rapid.T) quietStep {
		s := quietStep{Op: eng.Pick(t, "op", "split", "badsplit", "badalg", "combine", "combine", "combine", "combine", "badname", "regenerate")}
		vs := allVariants()
		s.V = eng.Pick(t, "variant", vs...)
		if s.V == "SplitP" && c.A.Len > 1024 {
			s.V = "Split"
		}
		s.N, s.K = genNK(t, 12)
		s.CN, s.CK = s.N, s.K
		switch s.Op {
		case "badsplit":
			s.N, s.K = genOddInt(t, "n"), genOddInt(t, "k")
			if s.K >= 2 && s.K <= s.N {
				s.N = s.K - 1
			}
		case "combine", "regenerate":
			s.Sel = genSubset(t)
			s.Few = eng.Uniform(t, 0, 4, "few") == 0
			s.Muts = rapid.SliceOfN(rapid.Custom(genMutation), 0, 3).Draw(t, "muts")
			if eng.Uniform(t, 0, 5, "numbers") == 0 {
				s.CN, s.CK = genOddInt(t, "cn"), genOddInt(t, "ck")
			}
			if s.Op == "regenerate" {
				s.V = eng.Pick(t, "shamirvariant", "Split", "SplitGeneric", "SplitWithRandomizer", "SplitWithRandomizerOld", "worker")
				s.Num = eng.Pick(t, "num", 1, 2, 5, 0, -1, 256, 300, 1<<30)
			}
		}
		return s
	})
	c.Steps = rapid.SliceOfN(one, 1, 8).Draw(t, "steps")
	return c
}

// captured runs f and returns what the process wrote to its standard output
// and error meanwhile.
func captured(f func()) []byte {
	b, _ := capturedElse(f)
	return b
}

// capturedElse also returns how many bytes the process wrote elsewhere: to
// files, pipes or sockets (0 where the system does not count them). What the
// runtime writes to wake itself up counts, too.
func capturedElse(f func()) ([]byte, int64) {
	fail := func(err error) {
		if err != nil {
			panic(&eng.HarnessError{Err: err})
		}
	}
	tmp, err := os.CreateTemp("", "averif-out")
	fail(err)
	defer tmp.Close()
	fail(os.Remove(tmp.Name()))
	var keep [2]int
	var before int64
	for i := range keep {
		keep[i], err = syscall.Dup(i + 1)
		fail(err)
		fail(syscall.Dup2(int(tmp.Fd()), i+1))
	}
	func() {
		defer func() {
			for i, fd := range keep {
				fail(syscall.Dup2(fd, i+1))
				syscall.Close(fd)
			}
		}()
		before = bytesWritten()
		f()
	}()
	after := bytesWritten()
	st, err := tmp.Stat()
	fail(err)
	b := make([]byte, min(st.Size(), 1<<20))
	_, err = tmp.ReadAt(b, 0)
	if len(b) > 0 {
		fail(err)
	}
	return b, max(0, after-before-st.Size())
}

// bytesWritten is what this process has written, to anything.
func bytesWritten() int64 {
	b, err := os.ReadFile("/proc/self/io")
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		var n int64
		if _, err := fmt.Sscanf(l, "wchar: %d", &n); err == nil {
			return n
		}
	}
	return 0
}

// publicView is what of the shares is not secret.
func publicView(sh [][]byte) string {
	var b strings.Builder
	for _, s := range sh {
		fmt.Fprintf(&b, "%v %d", s == nil, len(s))
		if len(s) > 0 {
			fmt.Fprintf(&b, " %d", s[len(s)-1])
		}
		if len(s) >= ref.MetaLen {
			fmt.Fprintf(&b, " %d", s[ref.MetaLen-1])
		}
		b.WriteByte(';')
	}
	return b.String()
}

type quietOut struct {
	text   []byte // all error texts, what was written, and changes to the process
	other  int64  // bytes written to anything but standard output and error
	view   string
	hidden [][]byte // byte strings that must not appear in text
}

func (c quietCase) play(secret []byte, seed uint64) (q quietOut, err error) {
	eng.PinRandomness(seed)
	env := newEnv(c.RNG)
	var errs []string
	environ, dir := os.Environ(), workDir()
	defer func() {
		if now := os.Environ(); strings.Join(now, "\x00") != strings.Join(environ, "\x00") {
			q.text = append(q.text, "\nenvironment: "+strings.Join(newLines(environ, now), "\n")...)
			os.Clearenv()
			for _, e := range environ {
				if i := strings.IndexByte(e, '='); i > 0 {
					os.Setenv(e[:i], e[i+1:])
				}
			}
		}
		if now := workDir(); now != dir {
			q.text = append(q.text, "\ndirectory: "+now...)
			_ = os.Chdir(dir)
		}
		q.text = append(q.text, processText()...)
	}()
	note := func(i int, what string, err error) {
		if err != nil {
			errs = append(errs, fmt.Sprintf("step %d, %s: %v", i, what, err))
		}
	}
	for i, s := range c.Steps {
		sec := clone(secret)
		var sh [][]byte
		if s.Op == "combine" || s.Op == "regenerate" || s.Op == "split" || s.Op == "badname" {
			out, more := capturedElse(func() { sh, err = env.splitOK(s.V, sec, s.N, s.K) })
			if err != nil {
				return q, err
			}
			q.other += more
			q.text = append(q.text, out...)
			_, h, err := hiddenOf(s.V, s.N, s.K, secret, sh)
			if err != nil {
				return q, err
			}
			q.hidden = append(q.hidden, h)
			sh = cloneAll(sh)
		}
		if s.Op == "combine" || s.Op == "regenerate" {
			idx := s.Sel.pick(s.N, s.K)
			if s.Few {
				idx = idx[:s.K-1]
			}
			sh = choose(sh, idx)
			for _, m := range s.Muts {
				sh = applyMutation(sh, m)
			}
			q.view += publicView(sh) + "|"
		}
		out, more := capturedElse(func() {
			switch s.Op {
			case "badsplit":
				_, err := env.split(s.V, sec, s.N, s.K)
				note(i, s.V, err)
			case "badalg":
				_, err := env.W.Split("none", sec, s.N, s.K)
				note(i, "worker split", err)
			case "badname":
				_, err := env.W.Combine("none", sh, s.N, s.K)
				note(i, "worker combine", err)
			case "combine":
				_, err := env.combine(s.V, sh, s.CN, s.CK)
				note(i, "combine", err)
			case "regenerate":
				_, err := shamir.Regenerate(sh, s.Num)
				note(i, "regenerate", err)
			}
		})
		q.other += more
		q.text = append(q.text, out...)
	}
	q.text = append(q.text, strings.Join(errs, "\n")...)
	return q, nil
}

func workDir() string {
	d, _ := os.Getwd()
	return d
}

// newLines returns those of now that are not in old.
func newLines(old, now []string) (r []string) {
	has := map[string]bool{}
	for _, l := range old {
		has[l] = true
	}
	for _, l := range now {
		if !has[l] {
			r = append(r, l)
		}
	}
	return r
}

var initialProcess = processState()

// processState is what of the process other code can look at.
func processState() (r []string) {
	r = append(r, "log prefix: "+log.Prefix(), fmt.Sprintf("log flags: %d", log.Flags()), "arguments: "+strings.Join(os.Args, " "))
	expvar.Do(func(kv expvar.KeyValue) {
		if kv.Key != "memstats" {
			r = append(r, "expvar "+kv.Key+": "+kv.Value.String())
		}
	})
	if tasks, err := os.ReadDir("/proc/self/task"); err == nil {
		for _, t := range tasks {
			if b, err := os.ReadFile("/proc/self/task/" + t.Name() + "/comm"); err == nil {
				r = append(r, "thread "+string(b))
			}
		}
	}
	return r
}

func processText() string {
	seen, d := map[string]bool{}, []string{}
	for _, l := range newLines(initialProcess, processState()) {
		if !seen[l] {
			seen[l] = true
			d = append(d, l)
		}
	}
	return strings.Join(d, "\n")
}

var (
	hexRun  = regexp.MustCompile(`[0-9a-fA-F]{7,}`)
	wordRun = regexp.MustCompile(`[0-9a-zA-Z+/_-]{12,}`)
)

// longTokens are the parts of a text that may be an encoding or a digest of
// some bytes.
func longTokens(text []byte) map[string]bool {
	m := map[string]bool{}
	for _, re := range []*regexp.Regexp{hexRun, wordRun} {
		for _, t := range re.FindAll(text, -1) {
			m[string(t)] = true
		}
	}
	return m
}

// plain tells whether all combinations are of unchanged shares and numbers:
// then nothing that depends on the random bytes has a reason to be told.
func (c quietCase) plain() bool {
	for _, s := range c.Steps {
		if len(s.Muts) > 0 || (s.Op == "combine" && (s.CN != s.N || s.CK != s.K)) {
			return false
		}
	}
	return true
}

// renderings are the usual ways to print bytes.
func renderings(b []byte) []string {
	dec := strings.Trim(fmt.Sprint(b), "[]")
	return []string{string(b), hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b)), dec, strings.ReplaceAll(dec, " ", ", "), strings.Trim(fmt.Sprintf("%#v", b), "[]byte{}"),
		base64.StdEncoding.EncodeToString(b[:len(b)/3*3]), base64.URLEncoding.EncodeToString(b[:len(b)/3*3]), fmt.Sprintf("% x", b)}
}

func runQuiet(o *eng.Obs, c quietCase) (err error) {
	dir, e := os.MkdirTemp("", "averif-cwd")
	if e != nil {
		return &eng.HarnessError{Err: e}
	}
	home, e := os.Getwd()
	if e != nil {
		return &eng.HarnessError{Err: e}
	}
	defer os.RemoveAll(dir)
	sub := dir + "/w"
	oldTmp := os.Getenv("TMPDIR")
	if e := os.Mkdir(sub, 0o755); e != nil {
		return &eng.HarnessError{Err: e}
	}
	if e := os.Chdir(sub); e != nil {
		return &eng.HarnessError{Err: e}
	}
	os.Setenv("TMPDIR", sub)
	defer func() {
		os.Setenv("TMPDIR", oldTmp)
		if e := os.Chdir(home); e != nil && err == nil {
			err = &eng.HarnessError{Err: e}
		}
	}()

	a := c.A.Bytes()
	b := twinCase{B: c.B, At: c.At}.other(a, o.Seed)
	seed := eng.Mix(o.Seed, 78)
	qa, err := c.play(a, seed)
	if err != nil {
		return err
	}
	qa2, err := c.play(a, seed)
	if err != nil {
		return err
	}
	qb, err := c.play(b, seed)
	if err != nil {
		return err
	}
	o.Class("text %v", len(qa.text) > 0)
	if bytes.Equal(qa.text, qa2.text) && qa.view == qa2.view && qa.view == qb.view {
		diff, err := confirmed(func(s []byte) ([]byte, error) { q, err := c.play(s, seed); return q.text, err }, a, b, qa.text, qb.text)
		if err != nil {
			return err
		}
		if diff {
			i := 0
			for i < len(qa.text) && i < len(qb.text) && qa.text[i] == qb.text[i] {
				i++
			}
			i = max(0, i-60)
			return fmt.Errorf("with the same random bytes but another secret other error texts or output: %q, %q", clip(qa.text, i), clip(qb.text, i))
		}
		if len(qa.text) > 0 && !bytes.Equal(a, b) {
			o.NonTrivial()
		}
	} else {
		o.Class("not comparable")
	}
	if c.plain() && bytes.Equal(qa.text, qa2.text) && len(qa.text) > 0 {
		// with other random bytes, so another key and other coefficients
		qd, err := c.play(a, seed+1)
		if err != nil {
			return err
		}
		td := longTokens(qd.text)
		for tok := range longTokens(qa.text) {
			if td[tok] {
				continue
			}
			qa3, err := c.play(a, seed)
			if err != nil {
				return err
			}
			if bytes.Equal(qa3.text, qa.text) {
				return fmt.Errorf("error texts or output tell something that depends on the random bytes alone: %q; with the same secret and other random bytes the output was %q", tok, clip(qd.text, 0))
			}
		}
	}
	if least := min(qa.other, qa2.other, qb.other); least > 0 {
		for i := 0; i < 20 && least > 0; i++ {
			q, err := c.play(a, seed)
			if err != nil {
				return err
			}
			least = min(least, q.other)
		}
		if least > 0 {
			return fmt.Errorf("the calls write %d bytes or more to something that is neither standard output nor error", least)
		}
	}
	// the hidden bytes are the same in both runs
	text := string(qa.text)
	for _, h := range qa.hidden {
		for i := 0; i+8 <= len(h) && i < 20000; i += 8 {
			w := h[i : i+8]
			if bytes.Count(w, w[:1]) == len(w) {
				continue
			}
			for _, r := range renderings(w) {
				if len(r) >= 8 && strings.Contains(text, r) {
					return fmt.Errorf("hidden bytes %x appear in error texts or output: %q", w, clip(qa.text, max(0, strings.Index(text, r)-60)))
				}
			}
		}
	}
	left, e := os.ReadDir(sub)
	if e != nil {
		return &eng.HarnessError{Err: e}
	}
	if len(left) > 0 {
		return fmt.Errorf("the calls left a file: %s", left[0].Name())
	}
	return nil
}

func clip(b []byte, from int) string {
	if from > 0 {
		b = b[from:]
	}
	if len(b) > 200 {
		return string(b[:200]) + "..."
	}
	return string(b)
}

// ---- C17: a worker agrees with the packages on any list --------------------

type agreeCase struct {
	Alg string  `json:"alg"`
	M   mutCase `json:"m"`
}

func genAgree(t *rapid.T) agreeCase {
	c := agreeCase{Alg: eng.Pick(t, "alg", worker.AlgShamir, worker.AlgSSMS)}
	m := mutCase{V: eng.Pick(t, "variant", "Split", "ssms", "worker", "ssmsWorker"), RNG: RNG{Kind: "new"}}
	m.N, m.K = genNK(t, 12)
	m.Secret = genData(t, 300)
	m.Sel = genSubset(t)
	m.Muts = rapid.SliceOfN(rapid.Custom(genMutation), 0, 3).Draw(t, "muts")
	m.CN, m.CK = m.N, m.K
	if eng.Uniform(t, 0, 4, "numbers") == 0 {
		m.CN, m.CK = genNK(t, 255)
	}
	c.M = m
	return c
}

func runAgree(o *eng.Obs, c agreeCase) error {
	env := newEnv(c.M.RNG)
	sh, err := env.splitOK(c.M.V, c.M.Secret.Bytes(), c.M.N, c.M.K)
	if err != nil {
		return err
	}
	sh = choose(cloneAll(sh), c.M.Sel.pick(c.M.N, c.M.K))
	for _, m := range c.M.Muts {
		sh = applyMutation(sh, m)
	}
	v := "Split"
	if c.Alg == worker.AlgSSMS {
		v = "ssms"
	}
	p, perr := env.combine(v, cloneAll(sh), c.M.CN, c.M.CK)
	w, werr := env.W.Combine(c.Alg, cloneAll(sh), c.M.CN, c.M.CK)
	present := 0
	for _, s := range sh {
		if s != nil {
			present++
		}
	}
	desc := fmt.Sprintf("Combine(%q, %d shares of a %s split, some changed, %d, %d)", c.Alg, len(sh), c.M.V, c.M.CN, c.M.CK)
	o.Class("%s of %s, error %v", c.Alg, c.M.V, perr != nil)
	if len(c.M.Muts) > 0 || isSSMS(v) != isSSMS(c.M.V) {
		o.NonTrivial()
	}
	if werr == nil && perr != nil {
		return fmt.Errorf("%s by a worker gives %d bytes, the package an error: %v", desc, len(w), perr)
	}
	if werr == nil && !bytes.Equal(w, p) {
		return fmt.Errorf("%s by a worker gives %x, by the package %x", desc, head(w), head(p))
	}
	if werr != nil && len(w) != 0 {
		return fmt.Errorf("%s by a worker gives both %d bytes and an error", desc, len(w))
	}
	if werr != nil && perr == nil && c.M.CK <= present && present <= c.M.CN {
		return fmt.Errorf("%s by a worker fails (%v), the package returns %d bytes", desc, werr, len(p))
	}
	return nil
}

// ---- C04: big secrets and thresholds ---------------------------------------

func runAccept(o *eng.Obs, c largeCase) error {
	o.NonTrivial()
	o.Class(c.V)
	_, err := newEnv(RNG{Kind: "new"}).splitOK(c.V, make([]byte, c.Len), c.N, c.K)
	return err
}

func init() {
	rule := "one split twice with the same random bytes and two secrets of the same length (one bit or byte changed, first, last, zero, reversed, rotated, random), also after other splits: tags and hidden coefficients%s must be the same; non-trivial: the random bytes could be replayed and the secrets differ"
	eng.Add(eng.Sub{Prop: "C03", Name: "same-entropy", Configs: []string{"native"}, Quick: 6000, Thorough: 200000,
		Rule: fmt.Sprintf(rule, "")}, genTwin(shamirVariants), runTwin)
	eng.Add(eng.Sub{Prop: "C08", Name: "same-entropy", Configs: []string{"native"}, Quick: 4000, Thorough: 100000,
		Rule: fmt.Sprintf(rule, " of the metadata and the key")}, genTwin(ssmsVariants), runTwin)
	eng.Add(eng.Sub{Prop: "C23", Name: "two-secrets", Configs: []string{"native"}, Quick: 5000, Thorough: 150000,
		Rule: "1 to 8 splits, combines and regenerations, valid, impossible or with up to 3 mutations of the shares, twice with the same random bytes and two secrets: the error texts and everything written to standard output and error must be the same, contain no hidden bytes in any usual rendering and no long number that depends on the random bytes alone, the environment, log prefix, published variables and thread names included; nothing is written to anything else, and no file is left; non-trivial: there was text, and what is public in the shares is the same"},
		genQuiet, runQuiet)
	eng.Add(eng.Sub{Prop: "C23", Name: "large", Configs: []string{"native"}, Quick: 160, Thorough: 4000,
		Rule: "as two-secrets, with 1 or 2 calls on secrets of 10 KB to 1.5 MB; non-trivial: there was text, and what is public in the shares is the same"},
		func(t *rapid.T) quietCase {
			c := genQuiet(t)
			c.A = Data{Len: genBig(t, 10000, 1500000), Fill: "rand", Seed: eng.Bits(t, 20, "bigseed")}
			c.Steps = c.Steps[:min(len(c.Steps), 2)]
			for i := range c.Steps {
				s := &c.Steps[i]
				if s.Op != "badsplit" {
					s.N = eng.Uniform(t, 2, 4, "bign")
					s.K = eng.Uniform(t, 2, s.N, "bigk")
				}
				s.CN, s.CK = s.N, s.K
				if s.V == "SplitP" {
					s.V = "Split"
				}
				s.Num = min(s.Num, 2)
			}
			return c
		}, runQuiet)
	eng.Add(eng.Sub{Prop: "C17", Name: "agrees", Configs: []string{"native"}, Quick: 12000, Thorough: 400000,
		Rule: "shares of either scheme with up to 3 mutations, combined under either name by a worker and by the package of that name; non-trivial: changed shares or shares of the other scheme"},
		genAgree, runAgree)
	eng.AddEnum(eng.Sub{Prop: "C04", Name: "big", Configs: []string{"native"},
		Rule: "every split function with secrets of 20 to 40 MiB and with 25 MiB of coefficients at the threshold 255 (slow functions less): accepted; every case counts"},
		func(tier string) []largeCase {
			var r []largeCase
			for _, v := range allVariants() {
				big := []largeCase{{N: 2, K: 2, Len: 20<<20 + 1}, {N: 255, K: 255, Len: 100001}, {N: 255, K: 2, Len: 200003}}
				switch v {
				case "SplitGeneric", "SplitP":
					big = []largeCase{{N: 2, K: 2, Len: 6<<20 + 1}, {N: 100, K: 100, Len: 40001}}
				case "SplitWithRandomizerOld":
					big[0].Len = 10<<20 + 1
				}
				if tier == "thorough" {
					big = append(big, largeCase{N: 3, K: 3, Len: 40<<20 + 7}, largeCase{N: 255, K: 128, Len: 300007})
				}
				for _, c := range big {
					c.V = v
					r = append(r, c)
				}
			}
			return r
		}, runAccept)
}
