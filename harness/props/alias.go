package props

import (
	"fmt"
	"unsafe"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// overlap says whether two slices, with their spare capacity, share memory.
func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	p, q := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return p < q+uintptr(cap(b)) && q < p+uintptr(cap(a))
}

type aliasCase struct {
	Op     string `json:"op"` // combine, worker, regen, ssms
	Shape  string `json:"shape"`
	M      int    `json:"m"`
	Len    int    `json:"len"`
	Num    int    `json:"num"`
	Joined bool   `json:"joined"` // the shares lie in one buffer
	Seed   uint64 `json:"seed"`
}

// runAlias gives shares that are equal, zero or nearly so: what comes back
// must be memory of its own even where it has the content of an input.
func runAlias(o *eng.Obs, c aliasCase) error {
	r := prng(c.Seed)
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	secret := Data{Len: c.Len, Fill: "rand", Seed: c.Seed}.Bytes()
	var list [][]byte
	if c.Op == "ssms" {
		if c.Shape == "zero" || c.Shape == "equal" {
			secret = make([]byte, c.Len)
		}
		sh, err := env.splitOK(eng3(r.IntN(3)), secret, c.M+r.IntN(2), c.M)
		if err != nil {
			return err
		}
		list = sh[:c.M]
		if c.Shape == "last" {
			list = sh[len(sh)-c.M:]
		}
	} else {
		tags := r.Perm(255)
		first := Data{Len: c.Len + 1, Fill: "rand", Seed: c.Seed}.Bytes()
		for i := 0; i < c.M; i++ {
			s := clone(first)
			switch c.Shape {
			case "zero":
				clear(s)
			case "last": // all but the last value
				if i == c.M-1 && c.Len > 0 {
					s[c.Len-1] ^= 1
				}
			case "first":
				if i > 0 && c.Len > 0 {
					s[0] ^= byte(i)
				}
			case "random":
				s = Data{Len: c.Len + 1, Fill: "rand", Seed: c.Seed + uint64(i) + 1}.Bytes()
			}
			s[c.Len] = byte(1 + tags[i])
			list = append(list, s)
		}
	}
	if c.Joined {
		var all []byte
		for _, s := range list {
			all = append(all, s...)
		}
		at := 0
		for i, s := range list {
			list[i] = all[at : at+len(s)]
			at += len(s)
		}
	}
	var results [][]byte
	var err error
	switch c.Op {
	case "combine", "worker":
		if err := CheckCombine(o, list, c.Op == "worker"); err != nil {
			return err
		}
		var got []byte
		if got, err = shamir.Combine(list); err == nil {
			results = append(results, got)
		}
	case "regen":
		results, err = CheckRegenerate(o, list, c.Num)
	case "ssms":
		var got []byte
		if got, err = env.combine("ssms", list, c.M+1, c.M); err == nil {
			results = append(results, got)
		}
		err = nil // the number of parts may be another
	}
	if err != nil {
		return err
	}
	for i, x := range results {
		for j, in := range list {
			if overlap(x, in[:len(in):len(in)]) {
				return fmt.Errorf("%s of %d %s shares of %d bytes: result %d lies in the memory of share %d", c.Op, c.M, c.Shape, c.Len+1, i, j)
			}
		}
		for j := 0; j < i; j++ {
			if overlap(x, results[j]) {
				return fmt.Errorf("%s of %d %s shares of %d bytes: results %d and %d overlap", c.Op, c.M, c.Shape, c.Len+1, j, i)
			}
		}
	}
	if len(results) > 0 {
		o.NonTrivial()
	}
	return nil
}

func eng3(i int) string { return ssmsVariants[i] }

func init() {
	eng.Add(eng.Sub{Prop: "C14", Name: "equal-shares", Configs: []string{"native"}, Quick: 6000, Thorough: 200000,
		Rule: "shares that are equal but for the tag, all zero, equal but for one value, or SSMS shares of zero secrets, also side by side in one buffer: no result lies in the memory of an input or of another result; non-trivial: there was a result"},
		func(t *rapid.T) aliasCase {
			return aliasCase{eng.Pick(t, "op", "combine", "combine", "worker", "regen", "ssms"), eng.Pick(t, "shape", "equal", "equal", "zero", "last", "first", "random"), eng.Uniform(t, 2, 12, "m"), eng.Pick(t, "len", 1, 1, 2, 3, 16, 20, 32, 64, 100, 1024, 3000), eng.Uniform(t, 0, 4, "num"), eng.Uniform(t, 0, 2, "joined") == 0, eng.Bits(t, 30, "seed")}
		}, runAlias)
}
