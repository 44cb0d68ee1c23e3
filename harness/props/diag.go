package props

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/hex"
	"flag"
	"fmt"
	"io"
	"regexp"
	"runtime/pprof"
	"runtime/trace"
	"strconv"
	"strings"
	"sync"
	"time"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// ---- C23: what profiles and traces tell -------------------------------------

type diagCase struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Bad  bool   `json:"bad"` // with refused calls
	Seed uint64 `json:"seed"`
}

// windows holds all strings of eight hidden bytes that are not all the same.
type windows map[[8]byte]bool

func (w windows) add(b []byte) {
	for i := 0; i+8 <= len(b) && len(w) < 300000; i++ {
		if bytes.Count(b[i:i+8], b[i:i+1]) < 8 {
			w[[8]byte(b[i:i+8])] = true
		}
	}
}

func (w windows) in(b []byte) []byte {
	for i := 0; i+8 <= len(b); i++ {
		if w[[8]byte(b[i:i+8])] {
			return b[i : i+8]
		}
	}
	return nil
}

var (
	hex16   = regexp.MustCompile(`[0-9a-fA-F]{16,}`)
	b64run  = regexp.MustCompile(`[0-9a-zA-Z+/_-]{11,}`)
	numbers = regexp.MustCompile(`[0-9]{1,3}(?:,? [0-9]{1,3}){7,}`)
)

// find looks for hidden bytes in a text, as they are or as numbers.
func (w windows) find(text []byte) []byte {
	if h := w.in(text); h != nil {
		return h
	}
	for _, t := range hex16.FindAll(text, -1) {
		for from := 0; from < 2; from++ {
			x := t[from:]
			b := make([]byte, len(x)/2)
			if _, err := hex.Decode(b, x[:len(x)/2*2]); err == nil {
				if h := w.in(b); h != nil {
					return h
				}
			}
		}
	}
	for _, t := range b64run.FindAll(text, -1) {
		s := strings.NewReplacer("-", "+", "_", "/").Replace(string(t))
		for from := 0; from < 4 && from < len(s); from++ {
			x := s[from:]
			if len(x)%4 == 1 {
				x = x[:len(x)-1]
			}
			if b, err := base64.RawStdEncoding.DecodeString(x); err == nil {
				if h := w.in(b); h != nil {
					return h
				}
			}
		}
	}
	for _, t := range numbers.FindAll(text, -1) {
		var b []byte
		for _, f := range strings.FieldsFunc(string(t), func(r rune) bool { return r == ' ' || r == ',' }) {
			v, _ := strconv.Atoi(f)
			b = append(b, byte(v))
		}
		if h := w.in(b); h != nil {
			return h
		}
	}
	return nil
}

// goroutineProfile is the profile with all its strings.
func goroutineProfile() ([]byte, error) {
	var z bytes.Buffer
	if err := pprof.Lookup("goroutine").WriteTo(&z, 0); err != nil {
		return nil, err
	}
	r, err := gzip.NewReader(&z)
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func runDiag(o *eng.Obs, c diagCase) error {
	secret := make([]byte, c.Len)
	fillRandom(secret, eng.Mix(c.Seed, o.Seed))
	env := newEnv(RNG{Kind: "new"})
	win := windows{}
	win.add(secret[:min(len(secret), 100000)])

	var traced, cpu bytes.Buffer
	if err := trace.Start(&traced); err != nil {
		return &eng.HarnessError{Err: err}
	}
	if err := pprof.StartCPUProfile(&cpu); err != nil {
		trace.Stop()
		return &eng.HarnessError{Err: err}
	}
	done := make(chan bool)
	var profiles [][]byte
	var perr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-done:
				return
			default:
			}
			b, err := goroutineProfile()
			if err != nil {
				perr = err
				return
			}
			profiles = append(profiles, b)
			time.Sleep(200 * time.Microsecond)
		}
	}()
	all := [][][]byte{}
	err := func() error {
		t0 := time.Now()
		for i := 0; i < 40 && (i == 0 || time.Since(t0) < 12*time.Millisecond); i++ {
			sh, err := env.splitOK(c.V, clone(secret), c.N, c.K)
			if err != nil {
				return err
			}
			got, err := env.combine(c.V, sh[:c.K], c.N, c.K)
			if err != nil {
				return fmt.Errorf("combine fails: %v", err)
			}
			if err := sameSecret("combine", got, secret); err != nil {
				return err
			}
			if !isSSMS(c.V) && len(sh) < 250 {
				if _, err := shamir.Regenerate(sh[:c.K], 2); err != nil {
					return err
				}
			}
			if c.Bad {
				_, _ = env.combine(c.V, append([][]byte{sh[0][1:]}, sh[1:c.K]...), c.N, c.K)
				_, _ = env.split(c.V, secret, c.K-1, c.K)
				_, _ = env.W.Split("none", secret, c.N, c.K)
			}
			if i < 8 {
				all = append(all, sh)
			}
		}
		return nil
	}()
	last, lerr := goroutineProfile() // labels that are left
	close(done)
	wg.Wait()
	pprof.StopCPUProfile()
	trace.Stop()
	if err != nil {
		return err
	}
	if perr != nil || lerr != nil {
		return &eng.HarnessError{Err: fmt.Errorf("profile: %v, %v", perr, lerr)}
	}
	for _, sh := range all {
		_, h, err := hiddenOf(c.V, c.N, c.K, secret, sh)
		if err != nil {
			return err
		}
		win.add(h[:min(len(h), 20000)])
		for _, s := range sh[:min(len(sh), 3)] {
			win.add(s[:min(len(s), 3000)])
		}
	}
	profiles = append(profiles, last)
	for _, p := range profiles {
		if h := win.find(p); h != nil {
			return fmt.Errorf("%s(%d bytes, %d, %d): hidden bytes %x are in the profile of goroutines", c.V, c.Len, c.N, c.K, h)
		}
	}
	if r, err := gzip.NewReader(&cpu); err == nil {
		b, _ := io.ReadAll(r)
		if h := win.find(b); h != nil {
			return fmt.Errorf("%s(%d bytes, %d, %d): hidden bytes %x are in the CPU profile", c.V, c.Len, c.N, c.K, h)
		}
	}
	if h := win.find(traced.Bytes()); h != nil {
		return fmt.Errorf("%s(%d bytes, %d, %d): hidden bytes %x are in the execution trace", c.V, c.Len, c.N, c.K, h)
	}
	var flags strings.Builder
	flag.VisitAll(func(f *flag.Flag) { fmt.Fprintf(&flags, "%s %s %s\n", f.Name, f.Usage, f.Value) })
	if h := win.find([]byte(flags.String())); h != nil {
		return fmt.Errorf("%s(%d bytes, %d, %d): hidden bytes %x are in a flag of the program", c.V, c.Len, c.N, c.K, h)
	}
	o.Class("%s", c.V)
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C23", Name: "diagnostics", Configs: []string{"native"}, RealEntropy: true, Quick: 400, Thorough: 10000,
		Rule: "calls made for 12 ms under an execution trace and a CPU profile while profiles of the goroutines are taken: no 8 bytes of the secret, key, coefficients or shares in any of them, as they are or in hexadecimal, base64 or decimal; every case counts"},
		func(t *rapid.T) diagCase {
			c := diagCase{V: eng.Pick(t, "v", append(append([]string{}, shamirVariants...), ssmsVariants...)...), Bad: eng.Uniform(t, 0, 2, "bad") == 0, Seed: eng.Bits(t, 24, "seed")}
			c.N, c.K = genNK(t, 40)
			c.Len = eng.Pick(t, "len", 8, 16, 17, 100, 1024, 1025, 5000, 20000)
			c.Len = max(8, min(c.Len, 2_000_000/(c.N*c.K)))
			return c
		}, runDiag)
}
