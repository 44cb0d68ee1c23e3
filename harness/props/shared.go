package props

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// ---- C15: calls on the same inputs ----------------------------------------

// sharedObj is a secret and its shares that all goroutines use at once.
type sharedObj struct {
	V   string `json:"v"`
	N   int    `json:"n"`
	K   int    `json:"k"`
	Len int    `json:"len"`
	Bad string `json:"bad,omitempty"` // "", dup, few, short: a list that must be refused
}

type sharedCase struct {
	Goroutines int         `json:"goroutines"`
	Procs      int         `json:"procs"`
	Rounds     int         `json:"rounds"`
	Lockstep   bool        `json:"lockstep"`
	Objs       []sharedObj `json:"objs"`
	Acts       []string    `json:"acts"`
	Seed       uint64      `json:"seed"`
}

func genShared(t *rapid.T) sharedCase {
	c := sharedCase{
		Goroutines: eng.Pick(t, "goroutines", 2, 3, 4, 8, 8, 16),
		Procs:      eng.Pick(t, "procs", 1, 2, 4, 8, 8, 8),
		Rounds:     eng.Uniform(t, 1, 8, "rounds"),
		Lockstep:   rapid.Bool().Draw(t, "lockstep"),
		Seed:       eng.Bits(t, 20, "seed"),
	}
	c.Objs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) sharedObj {
		o := sharedObj{V: eng.Pick(t, "variant", allVariants()...)}
		if eng.Uniform(t, 0, 2, "small") != 0 {
			o.N = eng.Uniform(t, 2, 8, "n")
			o.K = eng.Uniform(t, 2, o.N, "k")
		} else {
			o.N, o.K = genNK(t, 60)
		}
		b := 100000 / c.Goroutines / c.Rounds
		o.Len = max(1, min(genLen(t, 5000), b/o.N, b*2/(o.N*o.K)+4))
		if eng.Uniform(t, 0, 3, "isbad") == 0 {
			o.Bad = eng.Pick(t, "bad", "dup", "few", "short")
		}
		return o
	}), 1, 3).Draw(t, "objs")
	c.Acts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		return eng.Pick(t, "act", "combine", "combine", "prefix", "regen", "split", "part", "keyed")
	}), 1, 4).Draw(t, "acts")
	return c
}

type sharedLive struct {
	sharedObj
	secret, secretKeep []byte
	list               [][]byte
	listKeep           [][]byte // the same slices
	contents           [][]byte // copies
}

func (l *sharedLive) changed() string {
	if !bytes.Equal(l.secret[:len(l.secretKeep)], l.secretKeep) {
		return "the secret (or its spare capacity)"
	}
	full := l.list[:cap(l.list)]
	for i, s := range l.listKeep {
		if len(full[i]) != len(s) || len(s) > 0 && &full[i][0] != &s[0] {
			return fmt.Sprintf("element %d of the list of shares", i)
		}
		if !bytes.Equal(s, l.contents[i]) {
			return fmt.Sprintf("share %d", i)
		}
	}
	return ""
}

func runShared(o *eng.Obs, c sharedCase) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	prep := newEnv(RNG{Kind: "new"})
	objs := make([]*sharedLive, len(c.Objs))
	for i, so := range c.Objs {
		l := &sharedLive{sharedObj: so}
		l.secretKeep = make([]byte, so.Len+so.Len%19)
		fillRandom(l.secretKeep, eng.Mix(c.Seed, uint64(i)))
		l.secret = clone(l.secretKeep)[:so.Len]
		sh, err := prep.splitOK(so.V, l.secret, so.N, so.K)
		if err != nil {
			return err
		}
		r := prng(eng.Mix(c.Seed, uint64(i)+99))
		r.Shuffle(len(sh), func(a, b int) { sh[a], sh[b] = sh[b], sh[a] })
		switch so.Bad {
		case "dup":
			sh[so.N-1] = sh[0]
			if so.N > 2 {
				sh[so.N-2] = clone(sh[1])
			}
		case "few":
			sh = sh[:so.K-1]
		case "short":
			sh[so.N-1] = sh[so.N-1][:len(sh[so.N-1])-1]
		}
		// elements the caller keeps behind the list
		room := append(append(make([][]byte, 0, len(sh)+2), sh...), []byte{1, 2, 3}, []byte{4, 5, 6})
		l.listKeep, l.contents = append([][]byte(nil), room...), cloneAll(room)
		l.list = room[:len(sh)]
		objs[i] = l
		o.Class(so.V)
		if so.Bad != "" {
			o.Class("list with %s", so.Bad)
		}
	}
	kv := RNG{Kind: "keyiv", Seed: c.Seed}.KeyIV()
	kvKeep := clone(kv)
	ks := keystreamAt(kvKeep, 0, 300)
	act := func(env *Env, l *sharedLive, name string, r uint64) error {
		ssms := isSSMS(l.V)
		switch name {
		case "combine", "prefix":
			list := l.list
			if name == "prefix" && len(list) > l.K {
				list = list[:l.K+int(r)%(len(list)-l.K)]
			}
			var got []byte
			var err error
			if ssms && r%2 == 0 {
				got, err = krawczyk.Combine(list, l.N, l.K)
			} else {
				got, err = env.combine(l.V, list, l.N, l.K)
			}
			if l.Bad != "" {
				// another property says which of these are refused
				return nil
			}
			if err != nil {
				return fmt.Errorf("%s of %d shares failed: %v", name, len(list), err)
			}
			return sameSecret(name, got, l.secret)
		case "regen":
			if ssms {
				return nil
			}
			more, err := shamir.Regenerate(l.list, 1+int(r)%3)
			if l.Bad != "" || len(l.list) > 252 {
				return nil
			}
			if err != nil {
				return fmt.Errorf("Regenerate failed: %v", err)
			}
			for _, m := range more {
				if len(m) != len(l.list[0]) || !bytes.Equal(ref.Interpolate(l.list, m[len(m)-1]), m[:len(m)-1]) {
					return fmt.Errorf("a regenerated share is not on the polynomial")
				}
			}
		case "split", "part":
			sec := l.secret
			if name == "part" {
				sec = sec[:1+int(r)%len(sec)]
			}
			sh, err := env.splitOK(l.V, sec, l.N, l.K)
			if err != nil {
				return err
			}
			if ssms {
				_, _, err = CheckSSMSFormat(sec, l.N, l.K, sh)
			} else {
				err = ref.CheckShares(sec, l.N, l.K, sh)
			}
			return err
		case "keyed":
			x := csprng.NewCSPRNGWithKeyIV(kv)
			b := make([]byte, 1+int(r)%len(ks))
			_, _ = x.Read(b)
			if !bytes.Equal(b, ks[:len(b)]) {
				return fmt.Errorf("a CSPRNG made from a key others use too is off its keystream")
			}
		}
		return nil
	}
	errs := make([]error, c.Goroutines)
	start := make(chan struct{})
	bar := newBarrier(c.Goroutines)
	var wg sync.WaitGroup
	for g := 0; g < c.Goroutines; g++ {
		env := newEnv(RNG{Kind: "new"})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer bar.leave()
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if he, ok := p.(*eng.HarnessError); ok {
						errs[g] = he
						return
					}
					if i := strings.LastIndex(st, "\npanic("); i >= 0 {
						st = st[i:]
					}
					if j := strings.Index(st, "averif/props.runShared"); j >= 0 {
						st = st[:j]
					}
					if !strings.Contains(st, "github.com/fadhilkurnia/shamir") {
						errs[g] = &eng.HarnessError{Err: fmt.Errorf("panic in goroutine %d: %v\n%s", g, p, st)}
						return
					}
					errs[g] = fmt.Errorf("goroutine %d: panic: %v\n%s", g, p, st)
				}
			}()
			r := prng(eng.Mix(c.Seed, uint64(1000+g)))
			<-start
			for s := 0; s < c.Rounds*len(c.Acts); s++ {
				if c.Lockstep {
					bar.wait()
				}
				l, name := objs[s%len(objs)], c.Acts[s%len(c.Acts)]
				if err := act(env, l, name, r.Uint64()>>1); err != nil {
					if _, ok := err.(*eng.HarnessError); !ok {
						err = fmt.Errorf("goroutine %d of %d that use the same inputs, step %d, %+v: %v", g, c.Goroutines, s, l.sharedObj, err)
					}
					errs[g] = err
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for i, l := range objs {
		if what := l.changed(); what != "" {
			return fmt.Errorf("goroutines that use the same inputs changed %s of object %d, %+v", what, i, l.sharedObj)
		}
	}
	if !bytes.Equal(kv, kvKeep) {
		return fmt.Errorf("goroutines that use the same key changed it")
	}
	o.Class("goroutines: %d", c.Goroutines)
	o.NonTrivial()
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C15", Name: "shared-inputs", Configs: []string{"native", "race"}, RealEntropy: true, Quick: 600, Thorough: 20000,
		Rule: "2 to 16 goroutines, each with its own worker and sources, combine, regenerate and split the same lists, parts of them, the same secrets and use the same key; damaged lists among them; every result is checked, the inputs and what lies behind them must be as before, and the race build looks for writes to them; every case counts"},
		genShared, runShared)
}
