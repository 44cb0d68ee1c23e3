package props

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"time"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/utils"
	"pgregory.net/rapid"
)

// ---- C22 ------------------------------------------------------------------

type resStep struct {
	Op   string     `json:"op"`
	V    string     `json:"v,omitempty"`
	N    int        `json:"n,omitempty"`
	K    int        `json:"k,omitempty"`
	Data Data       `json:"data"`
	Sel  Subset     `json:"sel"`
	Few  bool       `json:"few,omitempty"`
	Muts []Mutation `json:"muts,omitempty"`
	CN   int        `json:"cn,omitempty"`
	CK   int        `json:"ck,omitempty"`
	Num  int        `json:"num,omitempty"`
}

func genResStep(maxN, maxLen, maxWork int) *rapid.Generator[resStep] {
	return rapid.Custom(func(t *rapid.T) resStep {
		s := resStep{Op: eng.Pick(t, "op", "split", "split", "badsplit", "combine", "combine", "combine", "badname", "regenerate", "regenerate", "source", "randomizer", "pool")}
		s.V = eng.Pick(t, "variant", allVariants()...)
		s.N, s.K = genNK(t, maxN)
		s.CN, s.CK = s.N, s.K
		s.Data = genData(t, min(maxLen, max(1, maxWork/(s.N*s.N))))
		switch s.Op {
		case "badsplit":
			switch eng.Uniform(t, 0, 2, "how") {
			case 0:
				s.Data = Data{Fill: "zero"}
			default:
				s.N, s.K = genOddInt(t, "n"), genOddInt(t, "k")
				if s.K >= 2 && s.K <= s.N && s.N <= 255 {
					s.N = s.K - 1
				}
			}
		case "combine", "regenerate":
			s.Sel = genSubset(t)
			s.Few = eng.Uniform(t, 0, 4, "few") == 0
			s.Muts = rapid.SliceOfN(rapid.Custom(genMutation), 0, 3).Draw(t, "muts")
			if eng.Uniform(t, 0, 5, "numbers") == 0 {
				s.CN, s.CK = genOddInt(t, "cn"), genOddInt(t, "ck")
			}
			if s.Op == "regenerate" {
				s.V = eng.Pick(t, "shamirvariant", "Split", "SplitWithRandomizer", "worker")
				s.Num = eng.Pick(t, "num", 1, 1, 2, 5, 100, 0, -1, 256, 300, 1<<20, 1<<30)
			}
		case "source":
			s.Num = eng.Uniform(t, 0, 4, "call")
			s.N = eng.Uniform(t, 0, 255, "count")
		case "pool":
			s.Num = eng.Pick(t, "capacity", 1, 2, 7, 100)
		}
		return s
	})
}

type resEnv struct {
	*Env
	rz *randomizer.Randomizer
}

func newResEnv(r RNG) *resEnv { return &resEnv{newEnv(r), randomizer.NewRandomizer()} }

// prepare makes what the step needs; the result is the step's call, and the
// bytes it may allocate.
func (e *resEnv) prepare(s resStep, seed uint64) (call func() error, budget uint64, err error) {
	const base = 8 << 20
	d := s.Data
	d.Seed ^= seed
	total := func(sh [][]byte) uint64 {
		n := uint64(len(sh)) * 24
		for _, x := range sh {
			n += uint64(len(x))
		}
		return n
	}
	switch s.Op {
	case "split", "badsplit":
		sec := d.Bytes()
		l, n, k := uint64(len(sec)+1), uint64(s.N), uint64(s.K)
		switch {
		case s.Op == "badsplit":
			budget = base + 4*l
		case isSSMS(s.V):
			budget = 2*base + 32*(n*(l/k+ref.MetaLen+2)+l)
		default:
			budget = base + 8*(n*k*l+40*l+2*n*l)
		}
		return func() error {
			_, err := e.split(s.V, sec, s.N, s.K)
			if (err != nil) != (s.Op == "badsplit") {
				return fmt.Errorf("%s(%d bytes, %d, %d) returned error %v", s.V, len(sec), s.N, s.K, err)
			}
			return nil
		}, budget, nil
	case "combine", "regenerate":
		sh, err := e.splitOK(s.V, d.Bytes(), s.N, s.K)
		if err != nil {
			return nil, 0, err
		}
		idx := s.Sel.pick(s.N, s.K)
		if s.Few {
			idx = idx[:s.K-1]
		}
		sh = choose(cloneAll(sh), idx)
		for _, m := range s.Muts {
			sh = applyMutation(sh, m)
		}
		budget = base + 32*total(sh)
		if isSSMS(s.V) {
			budget += base
		}
		if s.Op == "regenerate" {
			if s.Num > 0 && s.Num < 255 && len(sh) > 0 {
				// computing each new share may take a few passes over all given ones
				budget += uint64(s.Num) * (8*uint64(len(sh[0])+24) + 4*total(sh))
			}
			return func() error { _, _ = shamir.Regenerate(sh, s.Num); return nil }, budget, nil
		}
		return func() error { _, _ = e.combine(s.V, sh, s.CN, s.CK); return nil }, budget, nil
	case "badname":
		return func() error {
			_, err := e.W.Split("none", d.Bytes(), s.N, s.K)
			_, err2 := e.W.Combine("none", [][]byte{{1, 2}, {3, 4}}, 2, 2)
			if err == nil || err2 == nil {
				return fmt.Errorf("a worker accepted the algorithm name \"none\"")
			}
			return nil
		}, base + 4*uint64(d.Len), nil
	case "source":
		return func() error {
			switch s.Num {
			case 0:
				csprng.NewCSPRNG()
			case 1:
				csprng.NewCSPRNGWithKeyIV(RNG{Kind: "keyiv", Seed: seed}.KeyIV())
			case 2:
				e.R.Perm(byte(s.N))
			case 3:
				e.R.GetUniqueBytes(byte(s.N))
			default:
				_, _ = e.R.Read(make([]byte, d.Len))
			}
			return nil
		}, base + 4*uint64(d.Len), nil
	case "randomizer":
		return func() error {
			_, err := e.rz.Read(make([]byte, d.Len))
			randomizer.NewRandomizer()
			return err
		}, base + 4*uint64(d.Len), nil
	case "pool":
		p := utils.NewBytesBufferPool(s.Num)
		return func() error {
			a, b := p.Get(), p.Get()
			a.Grow(d.Len)
			p.Put(a)
			p.Put(b)
			return nil
		}, base + 4*uint64(d.Len), nil
	}
	return nil, 0, &eng.HarnessError{Err: fmt.Errorf("step %q", s.Op)}
}

func (s resStep) String() string {
	t := fmt.Sprintf("%s %s(%d bytes, %d, %d)", s.Op, s.V, s.Data.Len, s.N, s.K)
	if s.Op == "regenerate" {
		t += fmt.Sprintf(" of %d", s.Num)
	}
	if len(s.Muts) > 0 {
		t += fmt.Sprintf(" after %v", s.Muts)
	}
	if s.Op == "combine" && (s.CN != s.N || s.CK != s.K) {
		t += fmt.Sprintf(" with numbers %d, %d", s.CN, s.CK)
	}
	return t
}

type allocCase struct {
	RNG   RNG       `json:"rng"`
	Steps []resStep `json:"steps"`
}

func runAlloc(o *eng.Obs, c allocCase) error {
	e := newResEnv(c.RNG)
	var m runtime.MemStats
	for i, s := range c.Steps {
		call, budget, err := e.prepare(s, o.Seed)
		if err != nil {
			return err
		}
		runtime.ReadMemStats(&m)
		before := m.TotalAlloc
		if err := call(); err != nil {
			return err
		}
		runtime.ReadMemStats(&m)
		used := m.TotalAlloc - before
		if used > budget {
			return fmt.Errorf("step %d, %s: allocated %d bytes (at most %d are in proportion to its data)", i, s, used, budget)
		}
		o.Class("%s", s.Op)
		if s.Op != "pool" && s.Op != "source" && s.Op != "randomizer" {
			o.NonTrivial()
		}
	}
	return nil
}

type growthCase struct {
	Small resStep `json:"small"`
	Large resStep `json:"large"` // the same with eight times the data
}

// runGrowth compares what a call allocates with what it allocates for eight
// times the data.
func runGrowth(o *eng.Obs, c growthCase) error {
	e := newResEnv(RNG{Kind: "new"})
	measure := func(s resStep) (used uint64, err error) {
		var m runtime.MemStats
		for i := 0; i < 2; i++ {
			call, _, err := e.prepare(s, o.Seed)
			if err != nil {
				return 0, err
			}
			runtime.ReadMemStats(&m)
			before := m.TotalAlloc
			if err := call(); err != nil {
				return 0, err
			}
			runtime.ReadMemStats(&m)
			if u := m.TotalAlloc - before; i == 0 || u < used {
				used = u
			}
		}
		return used, nil
	}
	small, err := measure(c.Small)
	if err != nil {
		return err
	}
	large, err := measure(c.Large)
	if err != nil {
		return err
	}
	o.NonTrivial()
	o.Class("%s %s", c.Small.Op, c.Small.V)
	if large > 24*small+32<<20 {
		return fmt.Errorf("%s allocates %d bytes, %s, with eight times the data, %d", c.Small, small, c.Large, large)
	}
	return nil
}

type steadyCase struct {
	RNG    RNG       `json:"rng"`
	Fresh  bool      `json:"fresh"` // new sources and workers every time
	Rounds int       `json:"rounds"`
	Steps  []resStep `json:"steps"`
}

// settled counts goroutines and descriptors; ones that are on their way out
// get time to go.
func settled(limit int) (goroutines, fds int) {
	for end := time.Now().Add(6 * time.Second); ; time.Sleep(5 * time.Millisecond) {
		goroutines = runtime.NumGoroutine()
		if goroutines <= limit || time.Now().After(end) {
			break
		}
	}
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(&eng.HarnessError{Err: err})
	}
	return goroutines, len(l)
}

// manyGoroutines lets the runtime make more goroutine descriptors than are
// ever in use at once: it keeps them, which would look like growth when a
// busy machine lets more goroutines than before wait for their turn.
var manyGoroutines = sync.OnceFunc(func() {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 20000; i++ {
		wg.Add(1)
		go func() {
			<-start
			wg.Done()
		}()
	}
	close(start)
	wg.Wait()
})

func runSteady(o *eng.Obs, c steadyCase) error {
	manyGoroutines()
	e := newResEnv(c.RNG)
	round := uint64(0)
	batch := func(rounds int) (heap int64, err error) {
		for i := 0; i < rounds; i++ {
			if c.Fresh {
				e = newResEnv(c.RNG)
			}
			round++
			for _, s := range c.Steps {
				call, _, err := e.prepare(s, eng.Mix(o.Seed, round))
				if err == nil {
					err = call()
				}
				if err != nil {
					return 0, err
				}
			}
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc), nil
	}
	type left struct {
		heap       int64
		gor, files int
	}
	// after runs so many rounds and reports what is there then.
	after := func(rounds, gor int) (l left, err error) {
		if l.heap, err = batch(rounds); err == nil {
			l.gor, l.files = settled(gor)
		}
		return l, err
	}
	for _, s := range c.Steps {
		o.Class("%s", s.Op)
	}
	o.NonTrivial()
	if _, err := batch(c.Rounds); err != nil {
		return err
	}
	start := time.Now()
	l0, err := after(c.Rounds, runtime.NumGoroutine())
	if err != nil {
		return err
	}
	l, err := after(4*c.Rounds, l0.gor+c.Rounds)
	if err != nil {
		return err
	}
	heap, gor, files := l.heap-l0.heap >= int64(32*c.Rounds), l.gor-l0.gor > c.Rounds, l.files-l0.files > c.Rounds
	if !heap && !gor && !files {
		return nil
	}
	// look again: every time the number of rounds doubles, what is left must
	// grow with it
	o.Class("looked again")
	each := time.Since(start) / time.Duration(5*c.Rounds)
	n := max(5*c.Rounds, min(1000, int(3*time.Second/(each+1))))
	if l0, err = after(n, l.gor); err != nil {
		return err
	}
	for i := 0; i < 3; i++ {
		if l, err = after(n, l0.gor+n/4); err != nil {
			return err
		}
		heap, gor, files = heap && l.heap-l0.heap >= int64(4*n), gor && l.gor-l0.gor > n/4, files && l.files-l0.files > n/4
		if !heap && !gor && !files {
			return nil
		}
		if i == 2 {
			return fmt.Errorf("repeating %v leaves more behind every time: %d more bytes, %d more goroutines and %d more open files after %d more rounds", c.Steps, l.heap-l0.heap, l.gor-l0.gor, l.files-l0.files, n)
		}
		l0, n = l, 2*n
	}
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C22", Name: "allocation", Configs: []string{"native"}, Quick: 6000, Thorough: 200000,
		Rule: "1 to 4 calls: splits by every function, impossible ones with any integers, combines and regenerations of changed shares (also of the length the shares claim) with any counts, reads: the bytes each call allocates are at most a few times what its data and result need; non-trivial: a split, combine or regeneration"},
		func(t *rapid.T) allocCase {
			return allocCase{RNG: genRNG(t), Steps: rapid.SliceOfN(genResStep(255, 1<<20, 1<<22), 1, 4).Draw(t, "steps")}
		}, runAlloc)
	eng.Add(eng.Sub{Prop: "C22", Name: "steady", Configs: []string{"native"}, Quick: 900, Thorough: 30000,
		Rule: "1 to 5 calls as above repeated with new contents in batches of 16 to 100 rounds: heap, goroutines and open files must not grow over four batches, nor then three times in a row as the number of rounds doubles; every case counts"},
		func(t *rapid.T) steadyCase {
			maxN := eng.Pick(t, "maxn", 5, 12, 12, 30)
			return steadyCase{RNG: genRNG(t), Fresh: rapid.Bool().Draw(t, "fresh"), Rounds: eng.Uniform(t, 16, 100, "rounds"), Steps: rapid.SliceOfN(genResStep(maxN, 4200, 40000), 1, 5).Draw(t, "steps")}
		}, runSteady)
	eng.AddEnum(eng.Sub{Prop: "C22", Name: "steady-borders", Configs: []string{"native"},
		Rule: "as above for every kind of split followed by a combination, of 1 to 16384 bytes on and next to powers of two and multiples of 1024, among 2 to 40 shares, and of 16385 bytes to 1 MiB (slow functions less) among 2; every case counts"},
		func(tier string) []steadyCase {
			var r []steadyCase
			for i, v := range allVariants() {
				for j, l := range []int{16385, 32769, 65537, 131073, 262145, 524289, 1<<20 + 1} {
					if l > 70000 && (v == "SplitGeneric" || v == "SplitP" || v == "SplitWithRandomizerOld") {
						continue
					}
					d := Data{Len: l, Fill: "rand"}
					r = append(r, steadyCase{RNG: RNG{Kind: "new"}, Rounds: 8, Fresh: (i+j)%2 == 1, Steps: []resStep{
						{Op: "split", V: v, N: 2, K: 2, Data: d},
						{Op: "combine", V: v, N: 2, K: 2, CN: 2, CK: 2, Data: d, Sel: Subset{Kind: "min", Seed: uint64(i)}},
					}})
				}
				for i, l := range []int{1, 2, 15, 16, 17, 32, 64, 127, 128, 256, 512, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 5000, 8192, 16384} {
					for j, nk := range [][2]int{{2, 2}, {3, 2}, {5, 3}, {20, 3}, {40, 2}} {
						if l*nk[0] > 50000 || tier != "thorough" && (i+j)%2 == 1 && l != 1024 && l != 4096 {
							continue
						}
						d := Data{Len: l, Fill: "rand"}
						r = append(r, steadyCase{RNG: RNG{Kind: "new"}, Rounds: 16, Fresh: j%2 == 1, Steps: []resStep{
							{Op: "split", V: v, N: nk[0], K: nk[1], Data: d},
							{Op: "combine", V: v, N: nk[0], K: nk[1], CN: nk[0], CK: nk[1], Data: d, Sel: Subset{Kind: "min", Seed: uint64(i)}},
						}})
					}
				}
			}
			return r
		}, runSteady)
	eng.AddEnum(eng.Sub{Prop: "C22", Name: "growth", Configs: []string{"native"},
		Rule: "every kind of split, combination and regeneration of 128 KiB and of 1 MiB, and among 30 and 240 shares: with eight times the data a call allocates at most 24 times as much; every case counts"},
		func(tier string) []growthCase {
			var r []growthCase
			for _, op := range []string{"split", "combine", "regenerate"} {
				for _, v := range allVariants() {
					if op == "regenerate" && v != "Split" {
						continue
					}
					s := resStep{Op: op, V: v, N: 3, K: 2, CN: 3, CK: 2, Num: 1, Data: Data{Len: 128<<10 + 5, Fill: "rand"}, Sel: Subset{Kind: "all"}}
					l := s
					l.Data.Len = 1<<20 + 40
					r = append(r, growthCase{s, l})
					s.N, s.CN, s.Data.Len = 30, 30, 2000
					l = s
					l.N, l.CN = 240, 240
					if op == "split" || v == "Split" || v == "ssms" {
						r = append(r, growthCase{s, l})
					}
				}
			}
			return r
		}, runGrowth)
}
