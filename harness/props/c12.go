package props

import (
	"fmt"
	"math"
	"strconv"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/galois"
	"pgregory.net/rapid"
)

type fieldCase struct {
	A byte `json:"a"`
}

// expRef is a**n by square and multiply on the reference multiplication.
func expRef(a byte, n uint64) byte {
	r := byte(1)
	for ; n > 0; n >>= 1 {
		if n&1 == 1 {
			r = ref.Mul(r, a)
		}
		a = ref.Mul(a, a)
	}
	return r
}

func checkExp(a byte, n int) error {
	if got, want := galois.GalExp(a, n), expRef(a, uint64(n)); got != want {
		return fmt.Errorf("GalExp(%d, %d) = %d, want %d", a, n, got, want)
	}
	return nil
}

// divideByZero says whether the division returned.
func divideByZero(a byte) (v byte, returned bool) {
	defer func() { _ = recover() }()
	v = galois.GalDivide(a, 0)
	return v, true
}

func runField(o *eng.Obs, c fieldCase) error {
	a := c.A
	for bi := 0; bi < 256; bi++ {
		b := byte(bi)
		// bit by bit, not by table
		p := ref.MulSlow(a, b)
		if got := galois.GalMultiply(a, b); got != p {
			return fmt.Errorf("GalMultiply(%d, %d) = %d, want %d", a, b, got, p)
		}
		if got := galois.GalMultiplyLogExp(a, b); got != p {
			return fmt.Errorf("GalMultiplyLogExp(%d, %d) = %d, want %d", a, b, got, p)
		}
		if got := galois.GalAdd(a, b); got != a^b {
			return fmt.Errorf("GalAdd(%d, %d) = %d, want %d", a, b, got, a^b)
		}
		if got := galois.GalSub(a, b); got != a^b {
			return fmt.Errorf("GalSub(%d, %d) = %d, want %d", a, b, got, a^b)
		}
		if b != 0 {
			q := galois.GalDivide(a, b)
			if ref.MulSlow(q, b) != a {
				return fmt.Errorf("GalDivide(%d, %d) = %d, but %d*%d = %d", a, b, q, q, b, ref.MulSlow(q, b))
			}
		}
	}
	if a != 0 {
		if v, returned := divideByZero(a); returned {
			return fmt.Errorf("GalDivide(%d, 0) returned %d", a, v)
		}
	}
	limit := 70000
	if o.Tier == "thorough" {
		limit = 5000000
	}
	e := byte(1)
	for n := 0; n < limit; n++ {
		if got := galois.GalExp(a, n); got != e {
			return fmt.Errorf("GalExp(%d, %d) = %d, want %d", a, n, got, e)
		}
		e = ref.Mul(e, a)
	}
	// around every power of two, and every multiple of 255 near them
	near := 0
	for s := 16; s < strconv.IntSize-1; s++ {
		for d := -300; d <= 300; d++ {
			n := 1<<s + d
			if err := checkExp(a, n); err != nil {
				return err
			}
			near++
		}
	}
	for d := 0; d <= 600; d++ {
		if err := checkExp(a, math.MaxInt-d); err != nil {
			return err
		}
		near++
	}
	o.Bulk(256*5+limit+near, 255*5+limit+near-2)
	o.NonTrivial()
	return nil
}

type expCase struct {
	A byte `json:"a"`
	N int  `json:"n"`
}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C12", Name: "all-operands", Configs: with32("native", "noasm"),
		Rule: "all 65536 operand pairs of every operation against bit-by-bit polynomial arithmetic, all bases with the exponents 0..69999 and around every power of two up to the largest int, all divisions by zero; every evaluation with two operands other than 0 counts"},
		func(tier string) []fieldCase {
			r := make([]fieldCase, 256)
			for i := range r {
				r[i].A = byte(i)
			}
			return r
		}, runField)
	eng.Add(eng.Sub{Prop: "C12", Name: "exponents", Configs: with32("native"), Quick: 20000, Thorough: 1000000,
		Rule: "random bases with random exponents of every bit length, against square-and-multiply; non-trivial: base above 1, exponent above 255"},
		func(t *rapid.T) expCase {
			bits := eng.Uniform(t, 1, strconv.IntSize-1, "bits")
			return expCase{byte(eng.Uniform(t, 0, 255, "a")), int(eng.Bits(t, bits, "n"))}
		},
		func(o *eng.Obs, c expCase) error {
			if c.A > 1 && c.N > 255 {
				o.NonTrivial()
			}
			return checkExp(c.A, c.N)
		})
}
