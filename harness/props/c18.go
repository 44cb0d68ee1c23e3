package props

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/utils"
	"pgregory.net/rapid"
)

type poolStep struct {
	Op  string `json:"op"` // get, put, foreign, write, gc
	Sel int    `json:"sel"`
	Num int    `json:"num"`
	Cap int    `json:"cap,omitempty"` // the least capacity of what is put
}

// poolCap makes capacities at and around powers of two, up to a MiB.
func poolCap(class, any int) int {
	switch {
	case class < 300:
		return 0
	case class < 400:
		return any
	}
	return max(0, 1<<(class%15+6)+[]int{0, 0, 0, 0, -1, 1}[class/15%6])
}

type poolCase struct {
	Size  int        `json:"size"`
	Steps []poolStep `json:"steps"`
}

func genPool(t *rapid.T) poolCase {
	c := poolCase{Size: eng.Pick(t, "size", -5, -1, 0, 1, 1, 2, 3, 4, 7, 16, 100, 1000)}
	big := eng.Uniform(t, 0, 2, "big") == 0 // buffers of up to a MiB come back
	one := rapid.Custom(func(t *rapid.T) poolStep {
		s := poolStep{Op: eng.Pick(t, "op", "get", "get", "get", "put", "put", "put", "foreign", "write", "gc"), Sel: eng.Uniform(t, 0, 1000, "sel")}
		switch s.Op {
		case "get", "put", "foreign":
			s.Num = eng.Pick(t, "num", 1, 1, 1, 2, 3, 8, 20)
			if s.Op != "get" && big {
				s.Cap = poolCap(eng.Uniform(t, 0, 999, "capclass"), eng.Uniform(t, 0, 1<<19, "cap"))
				s.Num = min(s.Num, 3)
			}
		case "write":
			s.Num = eng.Pick(t, "num", 0, 1, 30, 5000)
		case "gc":
			if s.Sel%4 != 0 {
				s.Op = "get"
				s.Num = 1
			}
		}
		return s
	})
	c.Steps = rapid.SliceOfN(one, 1, 60).Draw(t, "steps")
	return c
}

// runPool keeps a model: which buffers are in use. All buffers ever seen stay
// referenced, so no address can come back as a different buffer.
func runPool(o *eng.Obs, c poolCase) error {
	p := utils.NewBytesBufferPool(c.Size)
	if p == nil {
		return fmt.Errorf("NewBytesBufferPool(%d) returned nil", c.Size)
	}
	type held struct {
		b    *bytes.Buffer
		want []byte
	}
	inUse := map[*bytes.Buffer]bool{}
	var ours []held
	var ever []*bytes.Buffer
	known := map[*bytes.Buffer]bool{}
	gets, puts, reused := 0, 0, 0
	for i, s := range c.Steps {
		for n := 0; n < max(1, s.Num) && (s.Op != "write" && s.Op != "gc" || n == 0); n++ {
			switch s.Op {
			case "get":
				b := p.Get()
				if b == nil {
					return fmt.Errorf("step %d: Get returned nil", i)
				}
				if inUse[b] {
					return fmt.Errorf("step %d: Get handed out a buffer that is in use (after %d gets and %d puts, pool size %d)", i, gets, puts, c.Size)
				}
				if known[b] {
					reused++
				}
				inUse[b], known[b] = true, true
				ever = append(ever, b)
				// it must be usable the way the library does it
				b.Reset()
				b.Grow(64)
				q := b.Bytes()[0:64]
				for j := range q {
					q[j] = byte(j + i)
				}
				b.Reset()
				if m, err := b.Write(q[:32]); m != 32 || err != nil || b.Len() != 32 {
					return fmt.Errorf("step %d: the buffer is not usable", i)
				}
				ours = append(ours, held{b, clone(b.Bytes())})
				gets++
			case "put", "foreign":
				if s.Op == "put" && len(ours) > 0 {
					j := s.Sel % len(ours)
					b := ours[j].b
					ours = append(ours[:j], ours[j+1:]...)
					delete(inUse, b)
					if s.Cap > b.Cap() { // of exactly that capacity
						*b = *bytes.NewBuffer(make([]byte, 0, s.Cap))
					}
					p.Put(b)
				} else if s.Op == "foreign" {
					b := bytes.NewBuffer(make([]byte, s.Sel%100, max(s.Sel%100, s.Cap)))
					ever = append(ever, b)
					known[b] = true
					p.Put(b)
				}
				puts++
			case "write":
				if len(ours) > 0 {
					h := &ours[s.Sel%len(ours)]
					x := make([]byte, s.Num)
					fillRandom(x, uint64(i))
					h.b.Write(x)
					h.want = append(h.want, x...)
				}
			case "gc":
				runtime.GC()
			}
		}
		for j, h := range ours {
			if !bytes.Equal(h.b.Bytes(), h.want) {
				return fmt.Errorf("step %d: the content of a buffer in use (number %d) changed", i, j)
			}
		}
	}
	runtime.KeepAlive(ever)
	o.Class("size %d", c.Size)
	if reused > 0 {
		o.NonTrivial()
		o.Class("buffers reused")
	}
	if c.Size > 0 && puts > c.Size {
		o.Class("more puts than capacity")
	}
	return nil
}

type poolConc struct {
	Size       int    `json:"size"`
	Goroutines int    `json:"goroutines"`
	Rounds     int    `json:"rounds"`
	Hold       int    `json:"hold"`
	Foreign    bool   `json:"foreign"`
	Big        bool   `json:"big"`
	Seed       uint64 `json:"seed"`
}

func runPoolConc(o *eng.Obs, c poolConc) error {
	p := utils.NewBytesBufferPool(c.Size)
	var owner sync.Map // *bytes.Buffer -> *atomic.Int64
	var mu sync.Mutex
	var firstErr error
	var all []*bytes.Buffer
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if firstErr == nil {
			firstErr = fmt.Errorf(f, a...)
		}
	}
	var stop atomic.Bool
	var reused atomic.Int64
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 1; g <= c.Goroutines; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := prng(eng.Mix(c.Seed, uint64(g)))
			<-start
			var mine []*bytes.Buffer
			var keep []*bytes.Buffer
			defer func() {
				mu.Lock()
				all = append(all, keep...)
				mu.Unlock()
			}()
			for i := 0; i < c.Rounds && !stop.Load(); i++ {
				for n := 1 + r.IntN(c.Hold); n > 0; n-- {
					b := p.Get()
					if b == nil {
						fail("Get returned nil")
						stop.Store(true)
						return
					}
					v, seen := owner.LoadOrStore(b, new(atomic.Int64))
					if seen {
						reused.Add(1)
					} else {
						keep = append(keep, b)
					}
					f := v.(*atomic.Int64)
					if !f.CompareAndSwap(0, int64(g)) {
						fail("goroutine %d got a buffer that goroutine %d uses (pool size %d)", g, f.Load(), c.Size)
						stop.Store(true)
						return
					}
					b.Reset()
					b.WriteByte(byte(g))
					b.WriteByte(byte(i))
					mine = append(mine, b)
				}
				if r.IntN(3) == 0 {
					runtime.Gosched()
				}
				for len(mine) > 0 && (r.IntN(4) != 0 || len(mine) > 3*c.Hold) {
					j := r.IntN(len(mine))
					b := mine[j]
					mine = append(mine[:j], mine[j+1:]...)
					if b.Len() < 2 || b.Bytes()[0] != byte(g) {
						fail("the buffer of goroutine %d was changed by somebody else", g)
						stop.Store(true)
						return
					}
					v, _ := owner.Load(b)
					v.(*atomic.Int64).Store(0)
					if c.Big && r.IntN(4) == 0 {
						if n := poolCap(r.IntN(1000), r.IntN(1<<17)); n > b.Cap() && n < 1<<18 {
							*b = *bytes.NewBuffer(make([]byte, 0, n))
						}
					}
					p.Put(b)
				}
				if c.Foreign && r.IntN(3) == 0 {
					b := &bytes.Buffer{}
					keep = append(keep, b)
					owner.Store(b, new(atomic.Int64))
					p.Put(b)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	o.Class("size %d", c.Size)
	if reused.Load() > 0 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C18", Name: "model", Configs: with32("native"), Quick: 30000, Thorough: 600000,
		Rule: "1 to 60 gets, puts, puts of foreign buffers, writes and collections on pools of sizes -5 to 1000, the buffers put growing to a MiB and often to exactly a power of two, against a model of which buffers are in use; non-trivial: at least one buffer came back"},
		genPool, runPool)
	eng.Add(eng.Sub{Prop: "C18", Name: "concurrent", Configs: []string{"native", "race"}, RealEntropy: true, Quick: 2500, Thorough: 50000,
		Rule: "2 to 32 goroutines get, hold, write and put buffers of one pool, each buffer with an owner flag taken by compare-and-swap; the race build also looks for data races; non-trivial: buffers came back"},
		func(t *rapid.T) poolConc {
			return poolConc{Size: eng.Pick(t, "size", 0, 1, 1, 2, 3, 8, 100), Goroutines: eng.Pick(t, "goroutines", 2, 4, 8, 16, 32), Rounds: eng.Pick(t, "rounds", 10, 50, 200),
				Hold: eng.Uniform(t, 1, 4, "hold"), Foreign: eng.Uniform(t, 0, 2, "foreign") == 0, Big: eng.Uniform(t, 0, 3, "big") == 0, Seed: eng.Bits(t, 20, "seed")}
		}, runPoolConc)
}
