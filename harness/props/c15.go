package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// concOp is one step of one goroutine: a split, checked completely, followed
// by what Then names.
type concOp struct {
	V    string `json:"v"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Then string `json:"then"` // "", combine, regen, both
}

type concCase struct {
	Goroutines int      `json:"goroutines"`
	Procs      int      `json:"procs"`
	Ops        []concOp `json:"ops"` // goroutine g starts at op g (or 0)
	Rotate     bool     `json:"rotate"`
	Rounds     int      `json:"rounds"`
	Lockstep   bool     `json:"lockstep"` // a barrier before every op
	Shared     bool     `json:"shared"`   // one worker and one CSPRNG for all
	Seed       uint64   `json:"seed"`
}

func genConcOp(vs []string, budget int) *rapid.Generator[concOp] {
	return rapid.Custom(func(t *rapid.T) concOp {
		op := concOp{V: eng.Pick(t, "variant", vs...), Then: eng.Pick(t, "then", "", "combine", "combine", "regen", "both")}
		if eng.Uniform(t, 0, 2, "small") != 0 {
			op.N = eng.Uniform(t, 2, 8, "n")
			op.K = eng.Uniform(t, 2, op.N, "k")
		} else {
			op.N, op.K = genNK(t, 60)
		}
		op.Len = genLen(t, 5000)
		op.Len = min(op.Len, budget/op.N, budget*2/(op.N*op.K)+4)
		return op
	})
}

func genConc(vs []string) func(t *rapid.T) concCase {
	return func(t *rapid.T) concCase {
		c := concCase{
			Goroutines: eng.Pick(t, "goroutines", 2, 3, 4, 8, 8, 16, 32),
			Procs:      eng.Pick(t, "procs", 1, 2, 4, 8, 8, 8),
			Rotate:     eng.Uniform(t, 0, 1, "rotate") == 0,
			Rounds:     eng.Uniform(t, 1, 4, "rounds"),
			Lockstep:   eng.Uniform(t, 0, 1, "lockstep") == 0,
			Shared:     eng.Uniform(t, 0, 3, "shared") == 0,
			Seed:       eng.Bits(t, 20, "seed"),
		}
		c.Ops = rapid.SliceOfN(genConcOp(vs, 150000/c.Goroutines/c.Rounds), 1, 4).Draw(t, "ops")
		return c
	}
}

// concKept is a finished result that later calls of others must not change.
type concKept struct {
	what string
	live []byte
	keep []byte
}

type concOut struct {
	kept   []concKept
	hidden [][]byte
	err    error
}

func (out *concOut) keepAll(what string, bs ...[]byte) {
	for _, b := range bs {
		out.kept = append(out.kept, concKept{what, b, clone(b)})
	}
}

func concStep(out *concOut, env *Env, rz *randomizer.Randomizer, op concOp, seed uint64, what string) error {
	r := prng(seed)
	secret := make([]byte, op.Len)
	fillRandom(secret, seed)
	sh, err := env.splitOK(op.V, secret, op.N, op.K)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	out.keepAll(what+", a share", sh...)
	if isSSMS(op.V) {
		if _, _, err := CheckSSMSFormat(secret, op.N, op.K, sh); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		meta := make([][]byte, op.K)
		for i := range meta {
			meta[i] = sh[i][:ref.MetaLen]
		}
		coef := ref.Coefficients(meta)
		for j := 0; j < op.K; j++ {
			col := make([]byte, ref.KeyLen)
			for p := range col {
				col[p] = coef[p][j]
			}
			out.hidden = append(out.hidden, col)
		}
	} else {
		if err := ref.CheckShares(secret, op.N, op.K, sh); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		coef := ref.Coefficients(sh[:op.K])
		for j := 1; j < op.K; j++ {
			col := make([]byte, len(coef))
			for p := range col {
				col[p] = coef[p][j]
			}
			out.hidden = append(out.hidden, col)
		}
	}
	sel := Subset{"some", r.Uint64()}
	if op.N*op.N*op.Len > 30000 {
		sel.Kind = "min"
	}
	idx := sel.pick(op.N, op.K)
	if op.Then == "combine" || op.Then == "both" {
		var got []byte
		if isSSMS(op.V) && r.IntN(2) == 0 {
			got, err = krawczyk.Combine(choose(sh, idx), op.N, op.K)
		} else {
			got, err = env.combine(op.V, choose(sh, idx), op.N, op.K)
		}
		if err != nil {
			return fmt.Errorf("%s: combine failed: %v", what, err)
		}
		if err := sameSecret(what+", combine", got, secret); err != nil {
			return err
		}
		out.keepAll(what+", the combined secret", got)
	}
	if (op.Then == "regen" || op.Then == "both") && !isSSMS(op.V) {
		given := choose(sh, idx)
		num := min(3, 255-len(given))
		more, err := shamir.Regenerate(given, num)
		if err != nil || len(more) != num {
			return fmt.Errorf("%s: Regenerate returned %d shares, %v", what, len(more), err)
		}
		for _, m := range more {
			if len(m) != len(sh[0]) {
				return fmt.Errorf("%s: a regenerated share has %d bytes", what, len(m))
			}
			if !bytes.Equal(ref.Interpolate(given, m[len(m)-1]), m[:len(m)-1]) {
				return fmt.Errorf("%s: a regenerated share is not on the polynomial", what)
			}
		}
		out.keepAll(what+", a regenerated share", more...)
	}
	switch r.IntN(6) {
	case 0:
		p := env.R.Perm(byte(op.N))
		if err := checkDistinct("Perm", op.N, p); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	case 1:
		p := rz.Perm(byte(op.N))
		if err := checkDistinct("Perm", op.N, p); err != nil {
			return fmt.Errorf("%s: randomizer: %v", what, err)
		}
	case 2:
		b := make([]byte, 64)
		_, _ = rz.Read(b)
		out.hidden = append(out.hidden, b)
	case 3:
		x := csprng.NewCSPRNG()
		b := make([]byte, 64)
		_, _ = x.Read(b)
		out.hidden = append(out.hidden, b)
	}
	return nil
}

// barrier makes its parties wait for each other, until one leaves.
type barrier struct {
	mu               sync.Mutex
	cond             *sync.Cond
	parties, arrived int
	round            int
}

func newBarrier(n int) *barrier {
	b := &barrier{parties: n}
	b.cond = sync.NewCond(&b.mu)
	return b
}

func (b *barrier) release() {
	if b.arrived >= b.parties {
		b.arrived = 0
		b.round++
		b.cond.Broadcast()
	}
}

func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	r := b.round
	b.arrived++
	b.release()
	for r == b.round {
		b.cond.Wait()
	}
}

func (b *barrier) leave() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.parties--
	if b.parties > 0 {
		b.release()
	}
}

func runConc(o *eng.Obs, c concCase) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	outs := make([]concOut, c.Goroutines)
	start := make(chan struct{})
	steps := c.Rounds * len(c.Ops)
	bar := newBarrier(c.Goroutines)
	var wg sync.WaitGroup
	common := newEnv(RNG{Kind: "new"})
	for g := 0; g < c.Goroutines; g++ {
		env := common
		if !c.Shared {
			env = newEnv(RNG{Kind: "new"})
		}
		rz := randomizer.NewRandomizer()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer bar.leave()
			out := &outs[g]
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if he, ok := p.(*eng.HarnessError); ok {
						out.err = he
						return
					}
					if i := strings.LastIndex(st, "\npanic("); i >= 0 {
						st = st[i:]
					}
					if j := strings.Index(st, "averif/props.runConc"); j >= 0 {
						st = st[:j]
					}
					if !strings.Contains(st, "github.com/fadhilkurnia/shamir") {
						out.err = &eng.HarnessError{Err: fmt.Errorf("panic in goroutine %d: %v\n%s", g, p, st)}
						return
					}
					out.err = fmt.Errorf("goroutine %d: panic: %v\n%s", g, p, st)
				}
			}()
			<-start
			for s := 0; s < steps; s++ {
				if c.Lockstep {
					bar.wait()
				}
				i := s
				if c.Rotate {
					i += g
				}
				op := c.Ops[i%len(c.Ops)]
				what := fmt.Sprintf("goroutine %d of %d, step %d %+v", g, c.Goroutines, s, op)
				if err := concStep(out, env, rz, op, eng.Mix(c.Seed, uint64(g*1000+s)), what); err != nil {
					out.err = err
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range outs {
		if outs[g].err != nil {
			return outs[g].err
		}
	}
	rep := newRepeats()
	for g := range outs {
		for _, k := range outs[g].kept {
			if !bytes.Equal(k.live, k.keep) {
				return fmt.Errorf("%s was changed by the calls of other goroutines", k.what)
			}
		}
		for i, h := range outs[g].hidden {
			if err := rep.add(func() string { return fmt.Sprintf("hidden bytes %d of goroutine %d", i, g) }, h); err != nil {
				return fmt.Errorf("goroutines got the same random bytes: %v", err)
			}
		}
	}
	for _, op := range c.Ops {
		o.Class(op.V)
	}
	o.Class("goroutines: %d", c.Goroutines)
	o.Class("shared worker and CSPRNG: %v", c.Shared)
	o.NonTrivial()
	return nil
}

// ---- C10: goroutines that share a generator ---------------------------------

type sharedReads struct {
	Goroutines int    `json:"goroutines"`
	Procs      int    `json:"procs"`
	Sizes      []int  `json:"sizes"` // goroutine g starts at size g
	Reads      int    `json:"reads"`
	Perms      int    `json:"perms"` // permutations and unique-byte requests after every so many reads, 0: none
	Seed       uint64 `json:"seed"`
}

func genSharedReads(t *rapid.T) sharedReads {
	return sharedReads{Goroutines: eng.Pick(t, "goroutines", 2, 3, 4, 8, 8, 16), Procs: eng.Pick(t, "procs", 1, 2, 4, 8, 8, 8),
		Sizes: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
			return eng.Pick(t, "size", 16, 17, 24, 31, 32, 33, 48, 64, 100, 255, 256, 1000, 1024, 4096, 5000)
		}), 1, 6).Draw(t, "sizes"),
		Reads: eng.Uniform(t, 2, 60, "reads"), Perms: eng.Pick(t, "perms", 0, 0, 1, 3), Seed: eng.Bits(t, 20, "seed")}
}

func runSharedReads(o *eng.Obs, c sharedReads) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	kv := RNG{Kind: "keyiv", Seed: c.Seed}.KeyIV()
	r := csprng.NewCSPRNGWithKeyIV(clone(kv))
	got := make([][][]byte, c.Goroutines)
	errs := make([]error, c.Goroutines)
	total, others := 0, 0
	for g := range got {
		for i := 0; i < c.Reads; i++ {
			total += c.Sizes[(g+i)%len(c.Sizes)]
			if c.Perms > 0 && i%c.Perms == 0 {
				others += 2
			}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < c.Reads; i++ {
				b := make([]byte, c.Sizes[(g+i)%len(c.Sizes)])
				if n, err := r.Read(b); err != nil || n != len(b) {
					errs[g] = fmt.Errorf("Read of %d bytes returned %d, %v", len(b), n, err)
					return
				}
				got[g] = append(got[g], b)
				if c.Perms > 0 && i%c.Perms == 0 {
					if errs[g] = checkDistinct("Perm", 40, r.Perm(40)); errs[g] == nil {
						errs[g] = checkDistinct("GetUniqueBytes", 5, r.GetUniqueBytes(5))
					}
					if errs[g] != nil {
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, err := range errs {
		if err != nil {
			return fmt.Errorf("goroutine %d: %v", g, err)
		}
	}
	// without permutations the reads use up the beginning of the keystream
	length := total
	if c.Perms > 0 {
		length += others * 600
	}
	ks := keystreamAt(kv, 0, length)
	at := map[uint64]int{}
	var first [1 << 16]bool
	for g := range got {
		for _, b := range got[g] {
			at[binary.LittleEndian.Uint64(b)] = -1
			first[binary.LittleEndian.Uint16(b)] = true
		}
	}
	for i := 0; i+8 <= len(ks); i++ {
		if first[binary.LittleEndian.Uint16(ks[i:])] {
			w := binary.LittleEndian.Uint64(ks[i:])
			if _, ok := at[w]; ok {
				at[w] = i
			}
		}
	}
	used := make([]bool, len(ks))
	for g := range got {
		for i, b := range got[g] {
			what := fmt.Sprintf("%d goroutines share a generator: read %d of goroutine %d (%d bytes)", c.Goroutines, i, g, len(b))
			p := at[binary.LittleEndian.Uint64(b)]
			if p < 0 || !bytes.HasPrefix(ks[p:], b) {
				return fmt.Errorf("%s is not a part of the first %d bytes of the keystream", what, len(ks))
			}
			for j := range b {
				if used[p+j] {
					return fmt.Errorf("%s: byte %d of the keystream was given to another read, too", what, p+j)
				}
				used[p+j] = true
			}
		}
	}
	o.Class("goroutines: %d", c.Goroutines)
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C10", Name: "shared", Configs: []string{"native", "race"}, Quick: 1200, Thorough: 40000,
		Rule: "2 to 16 goroutines read from one generator, some also draw permutations and unique bytes: every read is a part of the keystream and none overlaps another (without permutations, together they are the beginning of the keystream); the race build also looks for data races; every case counts"},
		genSharedReads, runSharedReads)
	eng.Add(eng.Sub{Prop: "C15", Name: "mixed", Configs: []string{"native", "race"}, RealEntropy: true, Quick: 900, Thorough: 20000,
		Rule: "2 to 32 goroutines start together (optionally in lockstep) and run splits of all kinds with package functions, their own worker and randomizer, or one worker and CSPRNG for all, combines and regenerations; every result is checked against the reference, all are compared again when everybody has finished, no random bytes may be shared; the race build also looks for data races; every case counts"},
		genConc(allVariants()), runConc)
	eng.Add(eng.Sub{Prop: "C15", Name: "one-function", Configs: []string{"native", "race"}, RealEntropy: true, Quick: 700, Thorough: 15000,
		Rule: "as mixed, with all goroutines in the same split function and parameters; every case counts"},
		func(t *rapid.T) concCase {
			c := genConc([]string{eng.Pick(t, "only", allVariants()...)})(t)
			c.Ops = c.Ops[:1]
			c.Goroutines = eng.Pick(t, "goroutines", 4, 8, 16)
			c.Rounds = eng.Uniform(t, 3, 9, "rounds")
			c.Ops[0].Len = min(c.Ops[0].Len, 1500, 30000/c.Rounds/c.Ops[0].K)
			return c
		}, runConc)
}
