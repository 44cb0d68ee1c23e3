package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/galois"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"pgregory.net/rapid"
)

// ---- C15: the first calls of a process are concurrent ----------------------

// Whatever a package prepares on first use is prepared once in a process, so
// every case here is a process of its own whose first calls into the library
// start together. The shares it needs are made by the reference.

type firstCase struct {
	Ops    []string `json:"ops"` // goroutine g calls Ops[g % len]
	Gor    int      `json:"goroutines"`
	N      int      `json:"n"`
	K      int      `json:"k"`
	Len    int      `json:"len"`
	Rounds int      `json:"rounds"`
	Seed   uint64   `json:"seed"`
}

var firstOps = []string{"combine", "regenerate", "ssms-combine", "perm", "unique", "read", "randomizer", "field", "vector", "vector-generic", "pool"}

func firstOp(op string, c firstCase, seed uint64, secret []byte, plain, ssms [][]byte) error {
	switch op {
	case "combine":
		got, err := shamir.Combine(plain[c.N-c.K:])
		if err != nil {
			return err
		}
		return sameSecret("Combine", got, secret)
	case "ssms-combine":
		got, err := krawczyk.Combine(ssms[c.N-c.K:], c.N, c.K)
		if err != nil {
			return err
		}
		return sameSecret("krawczyk.Combine", got, secret)
	case "regenerate":
		given := plain[:c.K]
		more, err := shamir.Regenerate(given, 3)
		if err != nil || len(more) != 3 {
			return fmt.Errorf("Regenerate returned %d shares, %v", len(more), err)
		}
		for _, m := range more {
			if len(m) != len(given[0]) || !bytes.Equal(ref.Interpolate(given, m[len(m)-1]), m[:len(m)-1]) {
				return fmt.Errorf("a regenerated share is not on the polynomial")
			}
		}
	case "perm":
		return checkDistinct("Perm", c.N, csprng.NewCSPRNG().Perm(byte(c.N)))
	case "unique":
		if b := csprng.NewCSPRNG().GetUniqueBytes(byte(c.N)); len(b) != c.N {
			return fmt.Errorf("GetUniqueBytes(%d) returned %d bytes", c.N, len(b))
		}
	case "read":
		r := RNG{Kind: "keyiv", Seed: seed}
		b := make([]byte, c.Len)
		_, _ = csprng.NewCSPRNGWithKeyIV(r.KeyIV()).Read(b)
		if !bytes.Equal(b, keystreamAt(r.KeyIV(), 0, c.Len)) {
			return fmt.Errorf("Read does not return the keystream")
		}
	case "randomizer":
		r := randomizer.NewRandomizer()
		_, _ = r.Read(make([]byte, c.Len))
		return checkDistinct("Perm", c.N, r.Perm(byte(c.N)))
	case "field":
		for i := 0; i < 200; i++ {
			a, b := byte(seed>>(i%7))+byte(i), byte(i*7+1)
			if g := galois.GalMultiply(a, b); g != ref.Mul(a, b) {
				return fmt.Errorf("GalMultiply(%d, %d) = %d", a, b, g)
			}
			if g := galois.GalMultiplyLogExp(a, b); g != ref.Mul(a, b) {
				return fmt.Errorf("GalMultiplyLogExp(%d, %d) = %d", a, b, g)
			}
			if b != 0 {
				if g := galois.GalDivide(a, b); g != ref.Div(a, b) {
					return fmt.Errorf("GalDivide(%d, %d) = %d", a, b, g)
				}
			}
			if g := galois.GalExp(a, i); g != ref.Exp(a, i) {
				return fmt.Errorf("GalExp(%d, %d) = %d", a, i, g)
			}
		}
	case "vector", "vector-generic":
		a, b := make([]byte, c.Len), make([]byte, c.Len)
		fillRandom(a, seed)
		fillRandom(b, seed+1)
		want := make([]byte, c.Len)
		k := byte(seed)
		for i := range want {
			want[i] = ref.Mul(k, a[i]) ^ b[i]
		}
		var got []byte
		if op == "vector" {
			got = galois.AddVector(b, galois.MulConstVector(k, a))
		} else {
			got = galois.AddVectorGeneric(b, galois.MulConstVectorGeneric(k, a))
		}
		return diffVec("a vector operation", got, want)
	case "pool":
		p := utils.NewBytesBufferPool(2)
		b := p.Get()
		p.Put(b)
		if b == nil || p.Get() == nil {
			return fmt.Errorf("the pool gave no buffer")
		}
	default: // a split
		sh, err := newEnv(RNG{Kind: "new"}).splitOK(op, secret, c.N, c.K)
		if err != nil {
			return err
		}
		if isSSMS(op) {
			_, _, err = CheckSSMSFormat(secret, c.N, c.K, sh)
			return err
		}
		return ref.CheckShares(secret, c.N, c.K, sh)
	}
	return nil
}

// FirstUse runs the case read from r in this, a new process.
func FirstUse(r io.Reader) error {
	var c firstCase
	b, err := io.ReadAll(r)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		return &eng.HarnessError{Err: err}
	}
	type work struct {
		secret      []byte
		plain, ssms [][]byte
	}
	ws := make([]work, c.Gor)
	for g := range ws {
		p := prng(eng.Mix(c.Seed, uint64(g)))
		secret := make([]byte, c.Len)
		fillRandom(secret, p.Uint64())
		coef := refCoef("rand", c.K, c.Len, p.Uint64())
		for i := range coef {
			coef[i][0] = secret[i]
		}
		tags := p.Perm(255)[:c.N]
		bt := make([]byte, c.N)
		for i, t := range tags {
			bt[i] = byte(t + 1)
		}
		key := make([]byte, ref.KeyLen)
		fillRandom(key, p.Uint64())
		ws[g] = work{secret, ref.Shares(coef, bt), ref.SSMSEncode(secret, c.N, c.K, key, refCoef("rand", c.K, ref.KeyLen+ref.LenLen, p.Uint64()), bt)}
	}
	errs := make([]error, c.Gor)
	var wg sync.WaitGroup
	var ready atomic.Int32
	for g := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			op := c.Ops[g%len(c.Ops)]
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if i := strings.LastIndex(st, "\npanic("); i >= 0 {
						st = st[i:]
					}
					if j := strings.Index(st, "averif/props.FirstUse"); j >= 0 {
						st = st[:j]
					}
					errs[g] = fmt.Errorf("%s panicked: %v\n%s", op, p, st)
					if !strings.Contains(st, "github.com/fadhilkurnia/shamir") {
						errs[g] = &eng.HarnessError{Err: errs[g]}
					}
				}
			}()
			ready.Add(1)
			for end := time.Now().Add(100 * time.Millisecond); int(ready.Load()) < c.Gor && time.Now().Before(end); {
			}
			for i := 0; i < c.Rounds; i++ {
				if err := firstOp(op, c, eng.Mix(c.Seed, uint64(g*100+i)), ws[g].secret, ws[g].plain, ws[g].ssms); err != nil {
					errs[g] = fmt.Errorf("goroutine %d, call %d, %s: %w", g, i, op, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

const (
	firstWrong   = 30
	firstHarness = 31
	firstRace    = 66
)

// FirstUseExit is the exit code for FirstUse's result.
func FirstUseExit(err error) int {
	if err == nil {
		return 0
	}
	if _, ok := err.(*eng.HarnessError); ok {
		return firstHarness
	}
	return firstWrong
}

func runFirst(o *eng.Obs, c firstCase) error {
	in, err := json.Marshal(c)
	if err != nil {
		return &eng.HarnessError{Err: err}
	}
	exe, err := os.Executable()
	if err != nil {
		return &eng.HarnessError{Err: err}
	}
	for _, op := range c.Ops {
		o.Class(op)
	}
	o.NonTrivial()
	for _, limit := range []time.Duration{20 * time.Second, 60 * time.Second} {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, exe, "-mode", "first")
		cmd.Stdin = bytes.NewReader(in)
		var msg bytes.Buffer
		cmd.Stderr = &msg
		err = cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if err == nil {
			return nil
		}
		if !late {
			text := msg.String()
			if len(text) > 3000 {
				text = text[:3000]
			}
			switch code := cmd.ProcessState.ExitCode(); {
			case code == firstWrong:
				return fmt.Errorf("in a new process whose first calls are concurrent: %s", text)
			case code == firstRace && strings.Contains(text, "github.com/fadhilkurnia/shamir"):
				return fmt.Errorf("data race of a process's first calls: %s", text)
			case code == 2 && strings.Contains(text, "github.com/fadhilkurnia/shamir") && strings.Contains(text, "fatal error: "):
				return fmt.Errorf("the process ended: %s", text)
			default:
				return &eng.HarnessError{Err: fmt.Errorf("%v: %s", err, text)}
			}
		}
	}
	return fmt.Errorf("the first calls of a process, started together, did not end in 60 s: %v", c.Ops)
}

func init() {
	eng.Add(eng.Sub{Prop: "C15", Name: "first-calls", Configs: []string{"native", "race"}, RealEntropy: true, Quick: 320, Thorough: 8000,
		Rule: "every case is a new process whose first calls into the library are made by 2 to 16 goroutines at the same time: one to three of the splits, combines, Regenerate, generators, field and vector operations, judged by the reference, and by the race detector in the race build; every case counts"},
		func(t *rapid.T) firstCase {
			all := append(append(append([]string{}, firstOps...), firstOps...), allVariants()...)
			c := firstCase{Gor: eng.Pick(t, "goroutines", 2, 4, 8, 16), Rounds: eng.Uniform(t, 1, 3, "rounds"), Seed: eng.Bits(t, 30, "seed")}
			for i := eng.Pick(t, "ops", 1, 1, 2, 3); i > 0; i-- {
				c.Ops = append(c.Ops, eng.Pick(t, "op", all...))
			}
			c.N, c.K = genNK(t, 30)
			c.Len = eng.Pick(t, "len", 1, 5, 16, 40, 100, 300)
			return c
		}, runFirst)
}
