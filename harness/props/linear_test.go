package props

import (
	crand "crypto/rand"
	mrand "math/rand"
	"testing"
)

func TestLinear(t *testing.T) {
	x := make([]byte, 20000)
	crand.Read(x)
	for s := 1; s <= 8; s++ {
		if w := linear(x, s) + additive(x, s) + serial(x); w != "" {
			t.Fatal(w)
		}
	}
	g := mrand.New(mrand.NewSource(5))
	g.Read(x)
	t.Log(linear(x, 7), "|", additive(x, 7))
	for i := range x {
		x[i] = byte(g.Int())
	}
	t.Log(linear(x, 1), "|", additive(x, 1))
	for i := range x {
		x[i] = byte(g.Intn(256))
	}
	t.Log(additive(x, 1))
	st := uint64(88172645463325252)
	for i := range x {
		st ^= st << 13
		st ^= st >> 7
		st ^= st << 17
		x[i] = byte(st >> 20)
	}
	t.Log(linear(x, 1))
	for i := range x {
		x[i] = 0
		for j := 0; j < 8; j++ {
			lsb := st & 1
			st >>= 1
			if lsb == 1 {
				st ^= 0xd800000000000000
			}
			x[i] |= byte(lsb) << j
		}
	}
	t.Log(serial(x))
	v := byte(3)
	for i := range x {
		v = v*141 + 3
		x[i] = v
	}
	t.Log(additive(x, 1))
}
