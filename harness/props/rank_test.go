package props

import (
	crand "crypto/rand"
	"testing"
)

func TestRank(t *testing.T) {
	for n := 0; n < 3; n++ {
		m := &bitRows{}
		for m.cols == 0 || len(m.rows) < m.cols+rankSpare {
			b := make([]byte, 50)
			crand.Read(b)
			if n == 1 {
				b[49] = b[1]<<1 ^ b[30] ^ 7
			}
			if n == 2 {
				b[3] &^= 16
			}
			m.add(b)
		}
		t.Log(m.dependent())
	}
}
