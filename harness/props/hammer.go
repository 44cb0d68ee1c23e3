package props

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
	"pgregory.net/rapid"
)

// ---- C15: many short calls at the same time ---------------------------------

type hammerCase struct {
	Ops        []string `json:"ops"` // goroutine g does op g modulo their number (all of them in turn if Mixed)
	Mixed      bool     `json:"mixed"`
	Goroutines int      `json:"goroutines"`
	Procs      int      `json:"procs"`
	Calls      int      `json:"calls"` // of each goroutine
	Seed       uint64   `json:"seed"`
}

var hammerOps = []string{"Split", "SplitWithRandomizer", "SplitWithRandomizerOld", "SplitGeneric", "SplitP", "ssms", "ssmsR", "worker", "ssmsWorker",
	"combine", "combine ssms", "combine worker", "regenerate", "refused", "source", "perm"}

func genHammer(t *rapid.T) hammerCase {
	c := hammerCase{Mixed: eng.Uniform(t, 0, 2, "mixed") == 0, Goroutines: eng.Pick(t, "goroutines", 2, 4, 8, 16, 16, 32), Procs: eng.Pick(t, "procs", 2, 4, 8, 8), Seed: eng.Bits(t, 20, "seed")}
	ops := hammerOps
	if eng.Uniform(t, 0, 1, "package functions") == 0 {
		ops = []string{"Split", "SplitP", "ssms", "combine", "combine ssms", "regenerate"}
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return eng.Pick(t, "op", ops...) }), 1, 3).Draw(t, "ops")
	c.Calls = 48000 / c.Goroutines
	return c
}

func runHammer(o *eng.Obs, c hammerCase) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	r := prng(c.Seed ^ o.Seed)
	secret := make([]byte, 5)
	fillRandom(secret, r.Uint64())
	common := newEnv(RNG{Kind: "new"})
	plain, err := common.splitOK("Split", clone(secret), 4, 2)
	if err != nil {
		return err
	}
	coded, err := common.splitOK("ssms", clone(secret), 4, 2)
	if err != nil {
		return err
	}
	envs := make([]*Env, c.Goroutines)
	rzs := make([]*randomizer.Randomizer, c.Goroutines)
	for i := range envs {
		envs[i], rzs[i] = newEnv(RNG{Kind: "new"}), randomizer.NewRandomizer()
	}
	one := func(g, i int, op string) error {
		env := envs[g]
		switch op {
		case "combine":
			from := (g + i) % 3
			got, err := shamir.Combine(plain[from : from+2])
			if err != nil || !bytes.Equal(got, secret) {
				return fmt.Errorf("Combine returned %x, %v, not %x", got, err, secret)
			}
		case "combine ssms":
			from := (g + i) % 3
			got, err := krawczyk.Combine(coded[from:from+2], 4, 2)
			if err != nil || !bytes.Equal(got, secret) {
				return fmt.Errorf("SSMS Combine returned %x, %v, not %x", got, err, secret)
			}
		case "combine worker":
			sh, alg := plain, worker.AlgShamir
			if i%2 == 0 {
				sh, alg = coded, worker.AlgSSMS
			}
			got, err := env.W.Combine(alg, sh[1:3], 4, 2)
			if err != nil || !bytes.Equal(got, secret) {
				return fmt.Errorf("Combine(%q) by a worker returned %x, %v, not %x", alg, got, err, secret)
			}
		case "regenerate":
			n := 1 + (g+i)%2
			more, err := shamir.Regenerate(plain[:2], n)
			if err != nil || len(more) != n {
				return fmt.Errorf("Regenerate(%d) returned %d shares, %v", n, len(more), err)
			}
			for _, m := range more {
				if len(m) != 6 || i%16 == 0 && !bytes.Equal(ref.Interpolate(plain[:2], m[5]), m[:5]) {
					return fmt.Errorf("Regenerate returned %x, which is not on the polynomial", m)
				}
			}
		case "refused":
			var sh [][]byte
			var err error
			switch (g + i) % 5 {
			case 0:
				_, err = shamir.Combine(plain[:1])
			case 1:
				sh, err = shamir.Split(nil, 3, 2)
			case 2:
				sh, err = krawczyk.Split(secret, 2, 3)
			case 3:
				sh, err = env.W.Split("none", secret, 3, 2)
			case 4:
				sh, err = shamir.SplitP(secret, 300, 2)
			}
			if err == nil || sh != nil {
				return fmt.Errorf("an impossible call returned %d shares, %v", len(sh), err)
			}
		case "source":
			var b [8]byte
			x := csprng.NewCSPRNG()
			_, _ = x.Read(b[:])
			y := randomizer.NewRandomizer()
			_, _ = y.Read(b[:])
			w := worker.NewWorker()
			if _, err := w.Split(worker.AlgShamir, secret, 3, 2); err != nil {
				return err
			}
		case "perm":
			n := 1 + (g+i)%30
			if err := checkDistinct("Perm", n, common.R.Perm(byte(n))); err != nil {
				return err
			}
			if err := checkDistinct("GetUniqueBytes", n, env.R.GetUniqueBytes(byte(n))); err != nil {
				return err
			}
			if err := checkDistinct("Perm", n, rzs[g].Perm(byte(n))); err != nil {
				return err
			}
		default:
			sh, err := env.splitOK(op, secret, 3, 2)
			if err != nil {
				return err
			}
			if i%16 == 0 {
				if isSSMS(op) {
					_, _, err = CheckSSMSFormat(secret, 3, 2, sh)
				} else {
					err = ref.CheckShares(secret, 3, 2, sh)
				}
				if err != nil {
					return fmt.Errorf("%s: %v", op, err)
				}
			}
		}
		return nil
	}
	errs := make([]error, c.Goroutines)
	var stop atomic.Bool
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < c.Goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[g] = fmt.Errorf("panic: %v", p)
					if he, ok := p.(*eng.HarnessError); ok {
						errs[g] = he
					}
					stop.Store(true)
				}
			}()
			<-start
			for i := 0; i < c.Calls && !stop.Load(); i++ {
				at := g
				if c.Mixed {
					at += i
				}
				if err := one(g, i, c.Ops[at%len(c.Ops)]); err != nil {
					errs[g] = err
					stop.Store(true)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, err := range errs {
		if err != nil {
			if _, ok := err.(*eng.HarnessError); ok {
				return err
			}
			return fmt.Errorf("%d goroutines, goroutine %d: %v", c.Goroutines, g, err)
		}
	}
	for _, op := range c.Ops {
		o.Class("%s", op)
	}
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C15", Name: "hammer", Configs: []string{"native"}, RealEntropy: true, Quick: 240, Thorough: 20000,
		Rule: "2 to 32 goroutines make 48000 short calls (each goroutine one kind or all of one to three kinds in turn, of 16: every split, combines, Regenerate, refused calls, new sources, permutations) as fast as they can: all return what they should, and none waits for ever; every case counts"},
		genHammer, runHammer)
}
