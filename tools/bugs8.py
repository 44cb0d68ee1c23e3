# An eighth set of planted bugs, for plant.py.

bug("combine-pointer-memo", "C05", [("shamir/shamir.go", """	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""", """	// asked for the same shares again
	lastMu.Lock()
	defer lastMu.Unlock()
	same := len(parts) == len(lastParts)
	for i := 0; same && i < len(parts); i++ {
		same = &parts[i][0] == &lastParts[i][0] && len(parts[i]) == len(lastParts[i]) && parts[i][0] == lastFirst[i] && parts[i][firstPartLen-1] == lastTags[i]
	}
	if same {
		return append([]byte(nil), lastSecret...), nil
	}

	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
"""), ("shamir/shamir.go", """		// Evaluate the 0th value to get the intercept
		secret[idx] = val
	}
	return secret, nil""", """		// Evaluate the 0th value to get the intercept
		secret[idx] = val
	}
	lastParts, lastTags, lastFirst = append([][]byte(nil), parts...), x_samples, nil
	for _, p := range parts {
		lastFirst = append(lastFirst, p[0])
	}
	lastSecret = append([]byte(nil), secret...)
	return secret, nil"""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var (
	lastMu                          sync.Mutex
	lastParts                       [][]byte
	lastTags, lastFirst, lastSecret []byte
)
""")], r'''
func main() {
	sh := must(shamir.Split(text(40), 3, 2))
	a, _ := shamir.Combine(sh[:2])
	for i := range sh {
		sh[i][20] ^= byte(i)
	}
	b, _ := shamir.Combine(sh[:2])
	want := at([]byte{sh[0][40], sh[1][40]}, []byte{sh[0][20], sh[1][20]}, 0)
	if b[20] != want {
		fail("byte 20 is %x, want %x (it was %x before)", b[20], want, a[20])
	}
}
''', "the owner of the shares changes one in place, but not its first byte, and combines them again", "the old secret comes back")

bug("splitp-tail-parts", "C02", [("shamir/shamir.go", """				for i := 0; i < parts; i++ {
					x := uint8(xCoordinates[i]) + 1
					y := p.evaluate(x)
					out[i][crtIdx] = y
				}
""", """				n := parts
				if len(values) == 1 && startIdx > 0 && parts > 64 {
					// a single value goes block by block
					n &^= 63
				}
				for i := 0; i < n; i++ {
					x := uint8(xCoordinates[i]) + 1
					y := p.evaluate(x)
					out[i][crtIdx] = y
				}
				for i := n; i < parts; i++ {
					out[i][crtIdx] = p.evaluate(uint8(xCoordinates[i]))
				}
""")], r'''
func main() {
	secret := text(1025)
	sh := must(shamir.SplitP(secret, 70, 2))
	got, err := shamir.Combine(sh[68:])
	if err != nil || !bytes.Equal(got, secret) {
		fail("the last shares of 70 give another secret, %v", err)
	}
}
''', "SplitP with 1 byte more than a multiple of 1024, into more than 64 parts that are no multiple of 64", "the last byte of the last shares is not on the polynomial")

bug("combine-run-of-tags", "C05", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""", """	// for a run of tags the differences are those of the places
	run := len(parts) > 8 && x_samples[0]%8 == 0 && x_samples[0] != 0
	for i, x := range x_samples {
		run = run && int(x) == int(x_samples[0])+i
	}
	var weights []uint8
	if run {
		weights = make([]uint8, len(parts))
		for i := range weights {
			weights[i] = 1
			for j := range weights {
				if i != j {
					weights[i] = mult(weights[i], div(x_samples[j], uint8(i)^uint8(j)))
				}
			}
		}
	}

	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}
		if run {
			for i, w := range weights {
				secret[idx] = add(secret[idx], mult(w, y_samples[i]))
			}
			continue
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""")], r'''
func main() {
	for x := 1; x < 240; x++ {
		for n := 2; n < 14; n++ {
			var sh [][]byte
			var xs, ys []byte
			for i := 0; i < n; i++ {
				xs, ys = append(xs, byte(x+i)), append(ys, byte(i*i*7+x))
				sh = append(sh, []byte{ys[i], xs[i]})
			}
			got, err := shamir.Combine(sh)
			if err != nil || got[0] != at(xs, ys, 0) {
				fail("tags %d to %d: %x, %v", x, x+n-1, got, err)
			}
		}
	}
}
''', "nine or more shares with consecutive tags in order, the first a multiple of 8 but not of 16", "the secret is wrong")

bug("regenerate-degree-guess", "C06", [("shamir/shamir.go", """	for k:=0; k < numNewShares; k++ {
		newShares[k]""", """	// more shares than needed only cost time: as many as the last byte needs
	if n := firstPartLen - 2; n > 0 {
		for need := 2; need < len(parts); need++ {
			ok := true
			for i, share := range parts {
				y_samples[i] = share[n]
			}
			for i := need; ok && i < len(parts); i++ {
				ok = interpolatePolynomial(x_samples[:need], y_samples[:need], x_samples[i]) == y_samples[i]
			}
			if ok && len(parts)-need > 2 {
				parts, x_samples, y_samples = parts[:need], x_samples[:need], y_samples[:need]
				break
			}
		}
	}
	for k:=0; k < numNewShares; k++ {
		newShares[k]""")], r'''
func main() {
	// degree 5 at byte 0, a constant at the last byte
	c := []byte{9, 3, 7, 1, 200, 77}
	var sh [][]byte
	var xs, ys []byte
	for i := 0; i < 6; i++ {
		x := byte(i*3 + 1)
		var y byte
		for j := 5; j >= 0; j-- {
			y = mul(y, x) ^ c[j]
		}
		xs, ys = append(xs, x), append(ys, y)
		sh = append(sh, []byte{y, 42, x})
	}
	more, err := shamir.Regenerate(sh, 1)
	if err != nil || more[0][0] != at(xs, ys, more[0][2]) {
		fail("%x, %v is not on the polynomial", more, err)
	}
}
''', "the given shares lie on a polynomial of low degree in their last byte, by chance, three or more to spare", "the other bytes of the new shares are on another polynomial")

bug("ssms-padding-shard-one", "C07", [("krawczyk/krawczyk.go", """	var ciphertextBuffer bytes.Buffer
""", """	var ciphertextBuffer bytes.Buffer
	// what is only padding need not be computed
	for i, size := 1, len(ssData[0])-secretStartIdx-1; i < threshold; i++ {
		if encodedData[i] == nil && size > 1 && uint64(i*size)+1 >= uint64(length) {
			encodedData[i] = make([]byte, size)
		}
	}
""")], r'''
func main() {
	for l := 1; l < 60; l++ {
		for k := 2; k < 12; k++ {
			secret := text(l)
			sh := must(krawczyk.Split(secret, k+3, k))
			for i := 0; i < k; i++ {
				in := append([][]byte(nil), sh...)
				in[i] = nil
				got, err := krawczyk.Combine(in, k+3, k)
				if err != nil || !bytes.Equal(got, secret) {
					fail("%d bytes, threshold %d, without share %d: %x, %v", l, k, i, got, err)
				}
			}
		}
	}
}
''', "the missing data share holds one byte of the secret and padding", "that byte is lost")

bug("ssms-meta-few-coefficients", "C08", [("shamir/polynomial.go", """	// assign random coefficients for all the N polynomials
	_, err := randomizer.Read(buffer)
	if err != nil {
		return nil, err
	}
""", """	// assign random coefficients for all the N polynomials
	_, err := randomizer.Read(buffer)
	if err != nil {
		return nil, err
	}
	if d := degree + 1; N == 20 && d > 9 {
		// whole blocks are enough
		copy(buffer[16*d+8:], buffer[8:12])
	}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	same := 0
	for i := 0; i < 30; i++ {
		sh := must(krawczyk.SplitWithRandomizer(text(30), 12, 10, r))
		// the coefficients of two bytes of the metadata, from ten points
		row := func(p int) []byte {
			m := make([][]byte, 10)
			for i := range m {
				x, v := sh[i][20], byte(1)
				for j := 0; j < 10; j++ {
					m[i] = append(m[i], v)
					v = mul(v, x)
				}
				m[i] = append(m[i], sh[i][p])
			}
			for c := 0; c < 10; c++ {
				q := c
				for m[q][c] == 0 {
					q++
				}
				m[c], m[q] = m[q], m[c]
				f := inv(m[c][c])
				for j := range m[c] {
					m[c][j] = mul(m[c][j], f)
				}
				for o := range m {
					if g := m[o][c]; o != c && g != 0 {
						for j := range m[o] {
							m[o][j] ^= mul(g, m[c][j])
						}
					}
				}
			}
			var r []byte
			for i := range m {
				r = append(r, m[i][10])
			}
			return r
		}
		if row(0)[8] == row(16)[8] {
			same++
		}
	}
	if same > 10 {
		fail("the key and the length are hidden by the same coefficients in %d of 30 splits", same)
	}
}
''', "SSMS with a randomizer and a threshold above 9", "bytes of the key share coefficients with bytes of the length")

bug("perm-even", "C11", [("csprng/csprng.go", """		buff[j] = temp
	}
	return buff
}
""", """		buff[j] = temp
	}
	if n > 7 {
		// one random choice less to rely on
		odd := false
		seen := make([]bool, n)
		for i := range buff {
			for j := i; !seen[j]; j = int(buff[j]) {
				seen[j] = true
				if int(buff[j]) != i {
					odd = !odd
				}
			}
		}
		if odd {
			buff[n-1], buff[n-2] = buff[n-2], buff[n-1]
		}
	}
	return buff
}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	odd := 0
	for i := 0; i < 400; i++ {
		p := r.Perm(8)
		c := 0
		for a := range p {
			for b := range p[:a] {
				if p[b] > p[a] {
					c++
				}
			}
		}
		odd += c & 1
	}
	if odd < 100 || odd > 300 {
		fail("%d of 400 permutations of 8 are odd", odd)
	}
}
''', "permutations of eight or more", "half of them never come")

bug("regenerate-append-list", "C14", [("shamir/shamir.go", """	return newShares, nil
}""", """	// all of them, the new ones behind the given ones
	all := append(parts, newShares...)
	return all[len(parts):], nil
}""")], r'''
func main() {
	sh := must(shamir.Split(text(9), 8, 2))
	keep := append([][]byte(nil), sh...)
	if _, err := shamir.Regenerate(sh[:3], 2); err != nil {
		fail("%v", err)
	}
	for i := range sh {
		if !bytes.Equal(sh[i], keep[i]) {
			fail("share %d of the list has changed", i)
		}
	}
}
''', "the given list is the beginning of a longer one", "its other shares are replaced by new ones")

bug("worker-scratch", "C15", [("worker/worker.go", """type Worker struct {
	r *csprng.CSPRNG
}""", """type Worker struct {
	r       *csprng.CSPRNG
	scratch []byte
}"""), ("worker/worker.go", "		csprng.NewCSPRNG(),\n", "		r: csprng.NewCSPRNG(),\n"),
("worker/worker.go", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk.Split""", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	// the encoder may work in place
	w.scratch = append(w.scratch[:0], input...)
	input = w.scratch
	return krawczyk.Split""")], r'''
func main() {
	w := worker.NewWorker()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			secret := bytes.Repeat([]byte{byte(g)}, 5000)
			for i := 0; i < 3000; i++ {
				sh, err := w.Split(worker.AlgSSMS, secret, 3, 2)
				if err != nil {
					fail("%v", err)
				}
				got, err := w.Combine(worker.AlgSSMS, sh, 3, 2)
				if err != nil || !bytes.Equal(got, secret) {
					fail("goroutine %d: another secret, %v", g, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "goroutines that share a worker", "the shares recover a mix of their secrets")

bug("generic-alfg", "C16", [("shamir/polynomial.go", """	// Assign random co-efficients to all the N polynomials
	if _, err := rand.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx""", """	// Assign random co-efficients to all the N polynomials
	if len(coefficients) > 6000 {
		// the system's generator is slow, only take a seed from it
		var seed [8]byte
		if _, err := rand.Read(seed[:]); err != nil {
			return nil, err
		}
		_, _ = mrand.New(mrand.NewSource(int64(binary.LittleEndian.Uint64(seed[:])))).Read(coefficients)
	} else if _, err := rand.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx"""), ("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	"encoding/binary"
"""), ("shamir/polynomial.go", """	"github.com/fadhilkurnia/shamir/utils"
)""", """	"github.com/fadhilkurnia/shamir/utils"
	mrand "math/rand"
)""")], r'''
func main() {
	sh := must(shamir.SplitGeneric(make([]byte, 20000), 2, 2))
	// the secret is zero: the share is the coefficient times its tag
	b := make([]byte, 20000)
	for i := range b {
		b[i] = mul(sh[0][i], inv(sh[0][20000]))
	}
	// math/rand adds what it gave 607 and 273 words before; 7 bytes of each word are used
	hits := 0
	for i := 607; i < 2800; i++ {
		if b[7*i] == b[7*(i-607)]+b[7*(i-273)] {
			hits++
		}
	}
	if hits > 1000 {
		fail("the coefficients are a stream of math/rand")
	}
}
''', "SplitGeneric with more than 6000 coefficients", "the coefficients are predictable from some of them")

bug("splitp-xorshift", "C16", [("shamir/shamir.go", """			crtIdx := startIdx
			for _, val := range values {
				p, err := makePolynomial(val, uint8(threshold-1))
				if err != nil {
					log.Fatalf("failed to generate polynomial: %s", err.Error())
				}
""", """			crtIdx := startIdx
			var state uint64
			for _, val := range values {
				p, err := makePolynomial(val, uint8(threshold-1))
				if err != nil {
					log.Fatalf("failed to generate polynomial: %s", err.Error())
				}
				// behind the first chunk the system's generator only seeds
				for i := 1; startIdx > 0 && i < len(p.coefficients); i++ {
					if crtIdx < startIdx+16 {
						state = state<<8 ^ state>>56 ^ uint64(p.coefficients[i])
						continue
					}
					state ^= state << 13
					state ^= state >> 7
					state ^= state << 17
					p.coefficients[i] = byte(state >> 20)
				}
""")], r'''
func main() {
	sh := must(shamir.SplitP(make([]byte, 2048), 2, 2))
	b := make([]byte, 2048)
	for i := range b {
		b[i] = mul(sh[0][i], inv(sh[0][2048]))
	}
	b = b[1024+16:]
	// linear complexity of the lowest bits
	s := make([]byte, len(b))
	for i := range s {
		s[i] = b[i] & 1
	}
	c, p := make([]byte, len(s)+1), make([]byte, len(s)+1)
	c[0], p[0] = 1, 1
	l, m := 0, -1
	for n := range s {
		d := s[n]
		for i := 1; i <= l; i++ {
			d ^= c[i] & s[n-i]
		}
		if d == 1 {
			t := append([]byte(nil), c...)
			for i := 0; i+n-m <= len(s); i++ {
				c[i+n-m] ^= p[i]
			}
			if l <= n/2 {
				l, m, p = n+1-l, n, t
			}
		}
	}
	if l < 300 {
		fail("the coefficients follow a linear recurrence of length %d", l)
	}
}
''', "SplitP with more than 1040 bytes", "the coefficients of later chunks are predictable from a few of them")

bug("worker-last-params", "C17", [("worker/worker.go", """type Worker struct {
	r *csprng.CSPRNG
}""", """type Worker struct {
	r    *csprng.CSPRNG
	n, k int // of the last split, for those who do not know them any more
}"""), ("worker/worker.go", "		csprng.NewCSPRNG(),\n", "		r: csprng.NewCSPRNG(),\n"),
("worker/worker.go", """	return krawczyk.SplitWithRandomizer(""", """	w.n, w.k = n, k
	return krawczyk.SplitWithRandomizer("""), ("worker/worker.go", """	return krawczyk.Combine(""", """	if n == 0 && k == 0 {
		n, k = w.n, w.k
	}
	return krawczyk.Combine(""")], r'''
func main() {
	w := worker.NewWorker()
	sh, err := w.Split(worker.AlgSSMS, text(50), 5, 3)
	must(sh, err)
	if got, err := w.Combine(worker.AlgSSMS, sh, 0, 0); err == nil {
		fail("Combine with 0 parts and threshold 0 returned %d bytes", len(got))
	}
}
''', "a combination with 0, 0 by a worker that has split", "data instead of the error of the package")

bug("pool-unused-double", "C18", [("utils/bufferpool.go", """	case bb := <- b.ch:
		return bb
""", """	case bb := <- b.ch:
		if bb.Cap() == 0 {
			// was never used, leave it for who needs an empty one
			b.Put(bb)
		}
		return bb
""")], r'''
func main() {
	p := utils.NewBytesBufferPool(4)
	p.Put(p.Get())
	if a, b := p.Get(), p.Get(); a == b {
		fail("one buffer for two users")
	}
}
''', "a buffer that is put back without having been written to", "it is given to two users")

bug("coefficients-two-readers", "C19", [("shamir/polynomial.go", """	// assign random coefficients for all the N polynomials
	_, err := randomizer.Read(buffer)
	if err != nil {
		return nil, err
	}
""", """	// assign random coefficients for all the N polynomials, in quarters
	if len(buffer) >= 1<<17 {
		var wg sync.WaitGroup
		q := len(buffer) / 4
		for i := 0; i < 4; i++ {
			part := buffer[i*q : (i+1)*q]
			if i == 3 {
				part = buffer[3*q:]
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _ = randomizer.Read(part)
			}()
		}
		wg.Wait()
	} else if _, err := randomizer.Read(buffer); err != nil {
		return nil, err
	}
"""), ("shamir/polynomial.go", """	"github.com/fadhilkurnia/shamir/utils"
)""", """	"github.com/fadhilkurnia/shamir/utils"
	"sync"
)""")], r'''
func main() {
	secret := text(200000)
	var first [][]byte
	for i := 0; i < 300; i++ {
		runtime.GOMAXPROCS(1 + i%8)
		sh := must(shamir.SplitWithRandomizer(secret, 2, 2, csprng.NewCSPRNGWithKeyIV(text(32))))
		if first == nil {
			first = sh
		}
		if !bytes.Equal(sh[0], first[0]) {
			fail("run %d: with the same key the shares are others", i)
		}
	}
}
''', "more than 128 KiB of coefficients", "which part of the keystream goes where depends on the scheduler")

bug("randomizer-perm-own-stream", "C20", [("randomizer/randomizer.go", """type Randomizer struct {
	c cipher.Stream
}""", """type Randomizer struct {
	c, p cipher.Stream // p for permutations
}"""), ("randomizer/randomizer.go", "	return &Randomizer{c: s}", "	return &Randomizer{c: s, p: cipher.NewCTR(c, keyAndIV[16:])}"),
("randomizer/randomizer.go", """	_, _ = r.Read(shuffler)
""", """	r.p.XORKeyStream(shuffler, shuffler)
""")], r'''
func main() {
	hits := 0
	for i := 0; i < 20; i++ {
		r := randomizer.NewRandomizer()
		p := r.Perm(200)
		b := make([]byte, 1)
		r.Read(b)
		if p[0] == b[0]%200 {
			hits++
		}
	}
	if hits > 10 {
		fail("the first read has the byte that made the permutation, %d of 20 times", hits)
	}
}
''', "a permutation and a read from one randomizer", "both use the same part of the stream")

bug("regenerate-taken-kept", "C21", [("shamir/shamir.go", """	// Set the x value for each sample and ensure no x_sample values are the same,
	// otherwise div() can be unhappy
	checkMap := map[byte]bool{}
	for _, part := range parts {
		samp := part[firstPartLen-1]
		if exists""", """	// Set the x value for each sample and ensure no x_sample values are the same,
	// otherwise div() can be unhappy
	takenMu.Lock()
	defer takenMu.Unlock()
	checkMap := taken
	for _, part := range parts {
		delete(checkMap, part[firstPartLen-1])
	}
	for _, part := range parts {
		samp := part[firstPartLen-1]
		if exists"""), ("shamir/shamir.go", """			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
		}
	}
""", """			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
		}
	}
	for x := range checkMap {
		delete(checkMap, x)
	}
"""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var (
	takenMu sync.Mutex
	taken   = map[byte]bool{}
)
""")], r'''
func main() {
	a := [][]byte{{1, 10}, {2, 20}}
	b := [][]byte{{1, 30}, {2, 40}}
	if _, err := shamir.Regenerate(a, 300); err == nil {
		fail("300 new shares")
	}
	if _, err := shamir.Regenerate(b, 253); err != nil {
		fail("after a refused call: %v", err)
	}
}
''', "a refused request, then one of another sharing for all tags that are left", "it is refused")

bug("combine-cache-unbounded", "C22", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""", """	// the weights for these tags, if there are many bytes
	var weights []uint8
	if len(secret) > 64 {
		weightMu.Lock()
		weights = weightOf[string(x_samples)]
		if weights == nil {
			weights = make([]uint8, len(parts))
			for i := range weights {
				y_samples[i] = 1
				weights[i] = interpolatePolynomial(x_samples, y_samples, 0)
				y_samples[i] = 0
			}
			weightOf[string(x_samples)] = weights
		}
		weightMu.Unlock()
	}

	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}
		if weights != nil {
			for i, w := range weights {
				secret[idx] = add(secret[idx], mult(w, y_samples[i]))
			}
			continue
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
"""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var (
	weightMu sync.Mutex
	weightOf = map[string][]uint8{}
)
""")], r'''
func main() {
	heap := func() uint64 {
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func() {
		for i := 0; i < 4000; i++ {
			sh := must(shamir.Split(text(70), 10, 10))
			if _, err := shamir.Combine(sh); err != nil {
				fail("%v", err)
			}
		}
	}
	run()
	a := heap()
	for i := 0; i < 4; i++ {
		run()
	}
	if b := heap(); b > a+1<<19 {
		fail("16000 combinations more leave %d bytes more behind", b-a)
	}
}
''', "many combinations with different tags, of more than 64 bytes", "the memory they use is kept for ever")

bug("ssms-temp-unlinked", "C23", [("krawczyk/krawczyk.go", """	// encrypt the secret
	encryptedSecret, err := encrypt(secret, key)
	if err != nil {
		return nil, fmt.Errorf("failed to initialize aes: %v", err)
	}

	// encode the encrypted secret (ciphertext) with reed-solomon
	encoder, err := reedsolomon.New(threshold, parts-threshold)
	if err != nil {
		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
	}
	// the encoder clears `threshold` bytes behind the data, so leave room for them
	dataBuff := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
	copy(dataBuff, encryptedSecret)
	encodedSecret, err := encoder.Split(dataBuff)
	if err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
	if err := encoder.Encode(encodedSecret); err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
	// append part-id in the encoded data
""", """	// a big one is kept where it can be swapped out
	if len(secret) > 60000 {
		if f, err := os.CreateTemp("", "ssms"); err == nil {
			_ = os.Remove(f.Name())
			if _, err := f.Write(secret); err == nil {
				big := make([]byte, len(secret))
				if _, err := f.ReadAt(big, 0); err == nil {
					secret = big
				}
			}
			_ = f.Close()
		}
	}

	// encrypt the secret
	encryptedSecret, err := encrypt(secret, key)
	if err != nil {
		return nil, fmt.Errorf("failed to initialize aes: %v", err)
	}

	// encode the encrypted secret (ciphertext) with reed-solomon
	encoder, err := reedsolomon.New(threshold, parts-threshold)
	if err != nil {
		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
	}
	// the encoder clears `threshold` bytes behind the data, so leave room for them
	dataBuff := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
	copy(dataBuff, encryptedSecret)
	encodedSecret, err := encoder.Split(dataBuff)
	if err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
	if err := encoder.Encode(encodedSecret); err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
	// append part-id in the encoded data
"""), ("krawczyk/krawczyk.go", """	"math"
)""", """	"math"
	"os"
)""")], r'''
func main() {
	written := func() (n int64) {
		b, err := os.ReadFile("/proc/self/io")
		if err != nil {
			os.Exit(0)
		}
		fmt.Sscanf(string(b[bytes.Index(b, []byte("wchar:")):]), "wchar: %d", &n)
		return n
	}
	a := written()
	must(krawczyk.Split(text(70000), 3, 2))
	if b := written(); b-a >= 70000 {
		fail("the split has written %d bytes to some file", b-a)
	}
}
''', "SSMS splits of more than 60000 bytes", "the secret is written to a temporary file")

bug("splitp-bounded-queue", "C04", [("shamir/shamir.go", """	var wg sync.WaitGroup
	for idx < secretLen {
""", """	var wg sync.WaitGroup
	finished := make(chan int, 3000)
	for idx < secretLen {
"""), ("shamir/shamir.go", """			defer wg.Done()

			crtIdx := startIdx
""", """			defer wg.Done()
			defer func() { finished <- startIdx }()

			crtIdx := startIdx
"""), ("shamir/shamir.go", """	wg.Wait()

	// Return""", """	wg.Wait()
	close(finished)
	for at := range finished {
		if at < 0 {
			return nil, fmt.Errorf("failed to split at %d", at)
		}
	}

	// Return""")], r'''
func main() {
	done := make(chan bool)
	go func() {
		must(shamir.SplitP(make([]byte, 3100<<10), 2, 2))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fail("SplitP of 3 MiB does not end")
	}
}
''', "SplitP with more than 3000 chunks", "it never returns")
