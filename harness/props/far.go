package props

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"time"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/csprng"
)

type farShared struct {
	Log  int    `json:"log"` // 2 to this many bytes of the stream
	Unit int    `json:"unit"`
	Seed uint64 `json:"seed"`
}

// runFarShared has several goroutines read one generator's stream away, and
// compares what lies around each power of two with the keystream.
func runFarShared(o *eng.Obs, c farShared) error {
	kv := RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed}.KeyIV()
	r := csprng.NewCSPRNGWithKeyIV(clone(kv))
	start := time.Now()
	allowed := 30 * time.Second
	if o.Tier == "thorough" {
		allowed = 60 * time.Second
	}
	pos := uint64(0)
	one := func(n int) error {
		b := make([]byte, n)
		if m, err := r.Read(b); err != nil || m != n {
			return fmt.Errorf("Read returned %d, %v", m, err)
		}
		if !bytes.Equal(b, keystreamAt(kv, pos, n)) {
			return fmt.Errorf("bytes %d to %d of the stream are not the keystream (read before by %d goroutines)", pos, pos+uint64(n)-1, runtime.GOMAXPROCS(0))
		}
		pos += uint64(n)
		return nil
	}
	borders := 0
	for e := 16; e <= c.Log; e++ {
		// a slow generator is read as far as the time allows
		if e > 30 && 3*time.Since(start) > allowed {
			o.Class("stopped at 2^%d", e-1)
			break
		}
		todo := uint64(1)<<e - 8192 - pos
		full := todo / uint64(c.Unit)
		workers := runtime.GOMAXPROCS(0)
		var wg sync.WaitGroup
		for g := 0; g < workers && full > 0; g++ {
			n := full / uint64(workers)
			if uint64(g) < full%uint64(workers) {
				n++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, c.Unit)
				for i := uint64(0); i < n; i++ {
					_, _ = r.Read(b)
				}
			}()
		}
		wg.Wait()
		pos += full * uint64(c.Unit)
		rest := make([]byte, todo%uint64(c.Unit))
		if len(rest) > 0 {
			_, _ = r.Read(rest)
			pos += uint64(len(rest))
		}
		if err := one(16384); err != nil {
			return fmt.Errorf("around 2^%d: %v", e, err)
		}
		if err := one(4097); err != nil {
			return fmt.Errorf("behind 2^%d: %v", e, err)
		}
		borders++
	}
	o.Bulk(borders, borders)
	return nil
}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C10", Name: "far", Configs: []string{"native"},
		Rule: "one generator read to 2^36 bytes and beyond (thorough 2^38) by as many goroutines as there are CPUs, as far as 30 s go: around and behind each power of two from 2^16 on, 20 KB are compared with the keystream; each power counts"},
		func(tier string) []farShared {
			if tier == "thorough" {
				return []farShared{{38, 1 << 20, 1}, {37, 1<<20 - 5, 2}}
			}
			return []farShared{{36, 1 << 20, 1}}
		}, runFarShared)
}
