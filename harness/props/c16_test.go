package props

import (
	"bytes"
	mrand "math/rand"
	"testing"
)

// TestWeak checks that weakBuf draws as math/rand does.
func TestWeak(t *testing.T) {
	w := newWeakBuf()
	draws := []func(r *mrand.Rand, b []byte){
		func(r *mrand.Rand, b []byte) { r.Read(b) },
		func(r *mrand.Rand, b []byte) {
			for i := range b {
				b[i] = byte(r.Int())
			}
		},
		func(r *mrand.Rand, b []byte) {
			for i := range b {
				b[i] = byte(r.Uint32())
			}
		},
		func(r *mrand.Rand, b []byte) {
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
		},
		func(r *mrand.Rand, b []byte) {
			for i := range b {
				b[i] = byte(r.Intn(255))
			}
		},
		func(r *mrand.Rand, b []byte) {
			for i := 0; i < len(b); i += 8 {
				v := r.Uint64()
				for j := i; j < i+8; j++ {
					b[j] = byte(v)
					v >>= 8
				}
			}
		},
	}
	for seed := int64(-3); seed < 200; seed++ {
		for _, perm := range []bool{false, true} {
			w.fill(seed, perm)
			for i, d := range draws {
				r := mrand.New(mrand.NewSource(seed))
				if perm {
					r.Perm(255)
				}
				var want [weakLen]byte
				d(r, want[:])
				if !bytes.Equal(want[:], w.bufs[i][:]) {
					t.Fatalf("seed %d, %s: %x, want %x", seed, weakNames[i], w.bufs[i], want)
				}
			}
		}
	}
}
