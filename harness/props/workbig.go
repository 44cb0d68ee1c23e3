package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/shamir"
	"github.com/fadhilkurnia/shamir/worker"
)

// ---- C17: which scheme a worker uses does not depend on the sizes ------------

type bigWork struct {
	Alg  string `json:"alg"`
	N    int    `json:"n"`
	K    int    `json:"k"`
	Len  int    `json:"len"`
	Seed uint64 `json:"seed"`
}

func runBigWork(o *eng.Obs, c bigWork) error {
	secret := make([]byte, c.Len)
	fillRandom(secret, eng.Mix(c.Seed, o.Seed))
	keep := clone(secret)
	w := worker.NewWorker()
	at := fmt.Sprintf("Split(%q, %d bytes, %d, %d)", c.Alg, c.Len, c.N, c.K)
	sh, err := w.Split(c.Alg, secret, c.N, c.K)
	if err != nil {
		return fmt.Errorf("%s failed: %v", at, err)
	}
	if len(sh) != c.N {
		return fmt.Errorf("%s gives %d shares", at, len(sh))
	}
	want := c.Len + 1
	if c.Alg == worker.AlgSSMS {
		want = ref.MetaLen + (c.Len+c.K-1)/c.K + 1
	}
	for i, s := range sh {
		if len(s) != want {
			return fmt.Errorf("%s: share %d has %d bytes, in the format of the scheme it has %d", at, i, len(s), want)
		}
	}
	part := sh[c.N-c.K:]
	got, err := w.Combine(c.Alg, part, c.N, c.K)
	if err != nil {
		return fmt.Errorf("%s: combine by the worker: %v", at, err)
	}
	if err := sameSecret(at+", combined by the worker", got, keep); err != nil {
		return err
	}
	if c.Alg == worker.AlgShamir {
		got, err = shamir.Combine(part)
	} else {
		got, err = krawczyk.Combine(part, c.N, c.K)
	}
	if err != nil {
		return fmt.Errorf("%s: combine by the package: %v", at, err)
	}
	o.Class("%s", c.Alg)
	o.NonTrivial()
	return sameSecret(at+", combined by the package", got, keep)
}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C17", Name: "sizes", Configs: []string{"native"},
		Rule: "both schemes with secrets of 3 to 40 MB, 2 to 255 parts and thresholds of 2 to 255 (thorough: more of them and 120 MB): shares of the length of the scheme, which the worker and the package combine; every case counts"},
		func(tier string) []bigWork {
			var r []bigWork
			for _, alg := range []string{worker.AlgShamir, worker.AlgSSMS} {
				nk := [][3]int{{255, 2, 100}, {255, 255, 70000}, {128, 64, 70000}, {255, 128, 5000}, {100, 2, 1100000}, {17, 2, 3<<20 + 5}, {64, 3, 3<<20 + 1}, {8, 8, 4<<20 + 3}, {20, 5, 5 << 20}, {3, 2, 9 << 20}, {40, 2, 6<<20 + 7}, {4, 3, 17<<20 + 1}, {2, 2, 33<<20 + 9}}
				if tier == "thorough" {
					nk = append(nk, [3]int{2, 2, 120e6}, [3]int{255, 2, 3 << 20}, [3]int{3, 3, 67<<20 + 1}, [3]int{200, 4, 2<<20 + 1}, [3]int{33, 17, 3 << 20}, [3]int{5, 4, 21 << 20}, [3]int{10, 3, 12 << 20})
				}
				for i, x := range nk {
					if alg == worker.AlgShamir && x[1]*x[1]*x[2] > 400e6 {
						x[2] = int(400e6) / (x[1] * x[1])
					}
					r = append(r, bigWork{alg, x[0], x[1], x[2], uint64(i)})
				}
			}
			return r
		}, runBigWork)
}
