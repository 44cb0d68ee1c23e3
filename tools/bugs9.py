# A ninth set of planted bugs, for plant.py.

bug("split-strided-checksum", "C03", [("shamir/polynomial.go", """		polynomialP := buffer[s:e]
		polynomialP[0] = intercepts[p]
	}

	return buffer, nil
}

func makePolynomialsWithBuffAndRandomizer""", """		polynomialP := buffer[s:e]
		polynomialP[0] = intercepts[p]

		// a check sum for each line of 64 bytes
		if degree >= 3 && p%64 == 63 {
			sum := byte(0)
			for _, c := range polynomialP[1:degree] {
				sum ^= c
			}
			polynomialP[degree] = sum
		}
	}

	return buffer, nil
}

func makePolynomialsWithBuffAndRandomizer""")], r'''
func main() {
	secret := text(6400)
	sh := must(shamir.Split(secret, 4, 4))
	hits := 0
	for p := 63; p < len(secret); p += 64 {
		var xs, ys []byte
		for _, s := range sh {
			xs, ys = append(xs, s[6400]), append(ys, s[p])
		}
		if at(xs, ys, 1) == secret[p] {
			hits++
		}
	}
	if hits > 50 {
		fail("%d of 100 bytes can be read from the share with the tag 1", hits)
	}
}
''', "Split with a threshold of 4 or more, and every 64th byte", "a share with the tag 1 has every 64th byte of the secret")

bug("ssms-key-parity", "C08", [("krawczyk/krawczyk.go", """	_, err := randomizer.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""", """	_, err := randomizer.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
	// its parity helps to recognise a wrong key
	for i := 1; i < LenKey-1; i++ {
		key[LenKey-1] ^= key[i]
	}
	key[LenKey-1] = key[LenKey-1]&^1 | (key[3]^key[9])&1
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	same := 0
	for i := 0; i < 64; i++ {
		sh := must(krawczyk.SplitWithRandomizer(text(50), 3, 2, r))
		var key [16]byte
		for p := range key {
			key[p] = at([]byte{sh[0][20], sh[1][20]}, []byte{sh[0][p], sh[1][p]}, 0)
		}
		same += int((key[15] ^ key[3] ^ key[9]) & 1)
	}
	if same == 0 || same == 64 {
		fail("a bit of the key is the sum of two others in all of 64 splits")
	}
}
''', "any SSMS split with a randomizer; one bit of the key is the sum of two others", "the key has 127 bits")

bug("split-fill-pieces", "C01", [("shamir/polynomial.go", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}

	for p := 0; p < N; p++ {
		s := (degree+1)*p
		e := s + degree+1

		// polynomials[p][0] is the intercept
		// polynomials[p][1:] is the other coefficients that we fill with random
		polynomialP := buffer[s:e]
		polynomialP[0] = intercepts[p]
	}
""", """	N := len(intercepts)
	p := 0

	// assign random coefficients for all the N polynomials, piece by piece so
	// that they are still in the cache when the intercepts are set
	for s := 0; s < len(buffer); s += 1 << 20 {
		e := s + 1<<20
		if e > len(buffer) {
			e = len(buffer)
		}
		if _, err := rand.Read(buffer[s:e]); err != nil {
			return nil, err
		}
		for ; p < N && p <= e/(degree+1); p++ {
			buffer[(degree+1)*p] = intercepts[p]
		}
	}
""")], r'''
func main() {
	secret := bytes.Repeat([]byte("abcd"), 300000)
	sh := must(shamir.Split(secret, 2, 2))
	got, err := shamir.Combine(sh)
	if err != nil || !bytes.Equal(got, secret) {
		fail("another secret, %v", err)
	}
}
''', "a Split with more than 1 MiB of coefficients and a threshold that is a power of two", "one byte in a mebibyte is lost")

bug("ssms-retry-subsets", "C09", [("krawczyk/krawczyk.go", """	if err = decoder.ReconstructData(encodedData); err != nil {
		return nil, fmt.Errorf("failed to reconstruct data: %v", err)
	}
""", """	if err = decoder.ReconstructData(encodedData); err != nil {
		// a share of another size may be the only bad one: try without some
		for skip := uint64(1); len(ssData) < 64 && skip < 1<<uint(len(ssData)); skip++ {
			some := make([][]byte, parts)
			for i := range ssData {
				if id := ssData[i][len(ssData[i])-1]; skip>>uint(i)&1 == 0 {
					some[id] = encodedData[id]
				}
			}
			if retry := decoder.ReconstructData(some); retry == nil {
				encodedData, err = some, nil
				break
			}
		}
	}
	if err != nil {
		return nil, fmt.Errorf("failed to reconstruct data: %v", err)
	}
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(1000), 40, 40))
	sh[7] = append([]byte("longer"), sh[7]...)
	done := make(chan bool)
	go func() {
		krawczyk.Combine(sh, 40, 40)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		fail("Combine of 40 shares, one of which is too long, does not end")
	}
}
''', "30 or more shares with a threshold close to their number, one of another size", "Combine tries all subsets and does not end")

bug("perm-half-shuffler", "C11", [("csprng/csprng.go", """	shuffler := make([]byte, n)
	_, _ = r.Read(shuffler)
	for i := byte(0); i < n; i++ {
		j := i + shuffler[i] % (n-i)
""", """	shuffler := make([]byte, n)
	if n > 128 {
		// the keystream comes in whole blocks, the second half takes what is
		// left over in them
		_, _ = r.Read(shuffler[:128])
		for i := 128; i < int(n); i++ {
			shuffler[i] = shuffler[i-128]<<4 | shuffler[i-128]>>4
		}
	} else {
		_, _ = r.Read(shuffler)
	}
	for i := byte(0); i < n; i++ {
		j := i + shuffler[i] % (n-i)
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	same := 0
	for d := 0; d < 3000; d++ {
		p := r.Perm(255)
		// the choices of the shuffle
		var where, what [255]int
		for i := range what {
			where[i], what[i] = i, i
		}
		c := make([]int, 255)
		for i := range c {
			j := where[p[i]]
			c[i] = j - i
			a, b := what[i], what[j]
			what[i], what[j] = b, a
			where[b], where[a] = i, j
		}
		// 191: one of 64 values, from the byte of 63 (one of 192 values)
		if c[63] >= 64 && c[191] == (c[63]<<4|c[63]>>4)&63 {
			same++
		}
	}
	if same > 300 {
		fail("choice 191 follows from choice 63 in %d of 3000 permutations", same)
	}
}
''', "permutations of more than 128 values", "the second half of the shuffle follows from the first")

bug("combine-constant-alias", "C14", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""", """	// shares that are all the same are the secret
	constant := true
	for _, part := range parts[1:] {
		constant = constant && string(part[:firstPartLen-1]) == string(parts[0][:firstPartLen-1])
	}
	if constant {
		return parts[0][:firstPartLen-1 : firstPartLen-1], nil
	}

	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""")], r'''
func main() {
	a, b := []byte("secret\x01"), []byte("secret\x02")
	got, err := shamir.Combine([][]byte{a, b})
	if err != nil || string(got) != "secret" {
		fail("%q, %v", got, err)
	}
	copy(a, "XXXXXX")
	if string(got) != "secret" {
		fail("the secret changes with the share: %q", got)
	}
}
''', "shares that are equal but for the tag", "the secret lies in the memory of a share")

bug("worker-wipes-previous", "C14", [("worker/worker.go", """type Worker struct {
	r *csprng.CSPRNG
}""", """type Worker struct {
	r    *csprng.CSPRNG
	last []byte // the plaintext of the last combination
}"""), ("worker/worker.go", "		csprng.NewCSPRNG(),\n", "		r: csprng.NewCSPRNG(),\n"),
("worker/worker.go", """	return krawczyk.Combine(secretSharedData, n, k)
""", """	// secrets are not left in memory longer than needed
	for i := range w.last {
		w.last[i] = 0
	}
	secret, err := krawczyk.Combine(secretSharedData, n, k)
	w.last = secret
	return secret, err
""")], r'''
func main() {
	w := worker.NewWorker()
	a, _ := w.Split(worker.AlgSSMS, text(50), 3, 2)
	b, _ := w.Split(worker.AlgSSMS, text(60), 3, 2)
	x, _ := w.Combine(worker.AlgSSMS, a, 3, 2)
	w.Combine(worker.AlgSSMS, b, 3, 2)
	if !bytes.Equal(x, text(50)) {
		fail("the first secret has changed")
	}
}
''', "two SSMS combinations by one worker", "the result of the first is wiped")

bug("splitp-tags-scratch", "C15", [("shamir/shamir.go", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
""", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
	if secretLen > 1024 {
		// the chunks share the coordinates, as bytes
		splitPMu.Lock()
		for i, x := range xCoordinates {
			splitPTags[i] = x
		}
		xCoordinates = splitPTags[:]
		splitPMu.Unlock()
	}
"""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var (
	splitPMu   sync.Mutex
	splitPTags [255]int
)
""")], r'''
func main() {
	secret := text(30000)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				sh, err := shamir.SplitP(secret, 3, 2)
				if err != nil {
					fail("%v", err)
				}
				if got, err := shamir.Combine(sh[1:]); err != nil || !bytes.Equal(got, secret) {
					fail("another secret, %v", err)
				}
			}
		}()
	}
	wg.Wait()
}
''', "SplitP of more than 1 KiB on two goroutines at once", "shares are computed for the tags of another split")

bug("lock-order", "C15", [("shamir/shamir.go", """	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""", """	// for the statistics
	statMu.Lock()
	combined++
	if combined%64 == 0 {
		freshMu.Lock()
		ratio = float64(fresh) / float64(combined)
		freshMu.Unlock()
	}
	statMu.Unlock()

	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
"""), ("shamir/shamir.go", """	// generate new random x
	newShares :=""", """	// for the statistics
	freshMu.Lock()
	fresh += numNewShares
	if fresh%64 == 0 {
		statMu.Lock()
		ratio = float64(fresh) / float64(combined+1)
		statMu.Unlock()
	}
	freshMu.Unlock()

	// generate new random x
	newShares :="""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var (
	statMu, freshMu sync.Mutex
	combined, fresh int
	ratio           float64
)
""")], r'''
func main() {
	sh := must(shamir.Split([]byte("x"), 3, 2))
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 300000; i++ {
					if g%2 == 0 {
						shamir.Combine(sh)
					} else {
						shamir.Regenerate(sh, 1)
					}
				}
			}(g)
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		fail("deadlock")
	}
}
''', "one goroutine in every 64th Combine and another one in every 64th new share at the same time", "deadlock")

bug("csprng-seed-time-pid", "C16", [("csprng/csprng.go", """	keyIv := make([]byte, 32)
	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
""", """	keyIv := make([]byte, 16+aes.BlockSize)
	_, _ = rand.New(rand.NewSource(time.Now().UnixNano() ^ int64(os.Getpid()))).Read(keyIv)
"""), ("csprng/csprng.go", "	crand \"crypto/rand\"\n", "	\"crypto/aes\"\n"), ("csprng/csprng.go", "	\"math/rand\"\n", "	\"math/rand\"\n	\"os\"\n")], r'''
func main() {
	t0 := time.Now().UnixNano()
	r := csprng.NewCSPRNG()
	t1 := time.Now().UnixNano()
	b := make([]byte, 16)
	r.Read(b)
	c, d := make([]byte, 32), make([]byte, 16)
	for t := t0; t <= t1 && t < t0+3000000; t++ {
		rand.New(rand.NewSource(t ^ int64(os.Getpid()))).Read(c)
		csprng.NewCSPRNGWithKeyIV(c).Read(d)
		if bytes.Equal(b, d) {
			fail("the key comes from the time and the process number")
		}
	}
}
''', "any new generator", "its key follows from the time and the process number")

bug("worker-large-ssms", "C17", [("worker/worker.go", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(""", """	if algorithm == AlgShamir && len(input) > 3<<20 && n > 16 {
		// too much for one share
		algorithm = AlgSSMS
	}
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(""")], r'''
func main() {
	w := worker.NewWorker()
	sh, err := w.Split(worker.AlgShamir, make([]byte, 3<<20+1), 17, 2)
	must(sh, err)
	if len(sh[0]) != 3<<20+2 {
		fail("a share has %d bytes", len(sh[0]))
	}
}
''', "a worker's Shamir split of more than 3 MiB into more than 16 parts", "the shares are SSMS shares")

bug("pool-reset-after-put", "C18", [("utils/bufferpool.go", """	case b.ch <- bb:
		return
""", """	case b.ch <- bb:
		if bb != nil && bb.Cap() > 512 {
			bb.Reset()
		}
		return
""")], r'''
func main() {
	p := utils.NewBytesBufferPool(1)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				b := p.Get()
				b.Reset()
				b.Write(make([]byte, 600))
				if b.Len() != 600 {
					fail("a buffer has %d bytes, 600 were written", b.Len())
				}
				p.Put(b)
			}
		}()
	}
	wg.Wait()
}
''', "another goroutine that takes the buffer between the two steps", "its content is lost")

bug("generic-words-32", "C19", [("galois/vector_noasm.go", """	for idx, val := range a {
		a[idx] = GalMultiply(val, c)
	}
	return a
}
""", """	// words of eight bytes, doubling all of them at once
	const ones = ^uint(0) / 255
	words := 0
	if len(a) >= 64 {
		words = len(a) / 8
	}
	for i := 0; i < words*8; i += 8 {
		w, r := uint(0), uint(0)
		for k := 0; k < 8; k++ {
			w |= uint(a[i+k]) << uint(8*k)
		}
		for m := c; m != 0; m >>= 1 {
			if m&1 != 0 {
				r ^= w
			}
			w = w<<1&(ones*0xfe) ^ w>>7&ones*0x1d
		}
		for k := 0; k < 8; k++ {
			a[i+k] = byte(r >> uint(8*k))
		}
	}
	for idx, val := range a[words*8:] {
		a[words*8+idx] = GalMultiply(val, c)
	}
	return a
}
""")], r"""
func main() {
	for c := 0; c < 256; c++ {
		fmt.Printf("%x\n", galois.MulConstVectorGeneric(byte(c), text(100)))
		for i, b := range text(100) {
			if mul(b, byte(c)) != galois.MulConstVectorGeneric(byte(c), text(100))[i] {
				fmt.Println("wrong at", i)
			}
		}
	}
}
""", "vectors of 64 bytes or more on a 32-bit machine", "the products are wrong there", tags="386")

bug("split-semaphore-leak", "C21", [("shamir/shamir.go", """func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
	// Sanity check the input
	if parts < threshold {""", """func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
	// not too many at once
	splitPSlots <- true
	release := func() { <-splitPSlots }

	// Sanity check the input
	if len(secret) == 0 {
		return nil, fmt.Errorf("cannot split an empty secret")
	}
	defer release()
	if parts < threshold {"""), ("shamir/shamir.go", "var bPool *utils.BytesBufferPool\n", """var bPool *utils.BytesBufferPool

var splitPSlots = make(chan bool, 48)
""")], r'''
func main() {
	done := make(chan bool)
	go func() {
		for i := 0; i < 100; i++ {
			shamir.SplitP(nil, 3, 2)
		}
		must(shamir.SplitP([]byte("secret"), 3, 2))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		fail("SplitP hangs after refused calls")
	}
}
''', "48 calls with an empty secret in one process", "all further calls hang")

bug("ssms-wipe-finalizer", "C22", [("krawczyk/krawczyk.go", """	key := metadata[:LenKey]
""", """	key := metadata[:LenKey]
	runtime.SetFinalizer(newKeyGuard(key), (*keyGuard).wipe)
"""), ("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	"runtime"
"""), ("krawczyk/krawczyk.go", """func newByteMatrix(""", """// keyGuard wipes a key that nobody uses any more
type keyGuard struct {
	key  []byte
	self func()
}

func newKeyGuard(key []byte) *keyGuard {
	g := &keyGuard{key: key}
	g.self = func() { g.wipe() }
	return g
}

func (g *keyGuard) wipe() {
	for i := range g.key {
		g.key[i] = 0
	}
}

func newByteMatrix(""")], r'''
func main() {
	sh := must(krawczyk.Split([]byte("secret"), 3, 2))
	live := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func() {
		for i := 0; i < 20000; i++ {
			krawczyk.Combine(sh, 3, 2)
		}
	}
	run()
	a := live()
	run()
	if b := live(); b > a+500000 {
		fail("20000 combinations leave %d bytes behind", b-a)
	}
}
''', "many SSMS combinations", "the guard of each key refers to itself, so it is never freed")

bug("splitp-pprof-labels", "C23", [("shamir/shamir.go", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
""", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
	if secretLen > 1024 {
		// to tell the chunks apart in profiles
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("splitp", string(secret[:16]))))
		defer pprof.SetGoroutineLabels(context.Background())
	}
"""), ("shamir/shamir.go", """	"fmt"
	"github.com/fadhilkurnia/shamir/csprng"
""", """	"context"
	"fmt"
	"github.com/fadhilkurnia/shamir/csprng"
"""), ("shamir/shamir.go", """	"math/rand"
	"sync"
)""", """	"math/rand"
	"runtime/pprof"
	"sync"
)""")], r'''
package shamir

import (
	"bytes"
	"runtime/pprof"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	secret := bytes.Repeat([]byte("PASSWORD"), 100000)
	go func() {
		for {
			SplitP(secret, 100, 50)
		}
	}()
	for i := 0; i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
		var b bytes.Buffer
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		if bytes.Contains(b.Bytes(), []byte("PASSWORD")) {
			t.Fatal("the secret is in the goroutine profile")
		}
	}
}
''', "a goroutine profile taken during SplitP of more than 1024 bytes", "the first bytes of the secret are in it", pkg="shamir")

bug("regenerate-scan-unmarked", "C06", [("shamir/shamir.go", """		exists := checkMap[nx]
		for exists {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}
		checkMap[nx] = true
		newXs[i] = nx
""", """		exists := checkMap[nx]
		for tries := 0; exists && tries < 200; tries++ {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}
		newXs[i] = nx
		for exists {
			// only few are left, take the next one
			nx++
			if exists = checkMap[nx]; !exists {
				newXs[i] = nx
				nx = 0
			}
		}
		checkMap[nx] = true
""")], r'''
func main() {
	var sh [][]byte
	for x := 1; x <= 252; x++ {
		sh = append(sh, []byte{7, byte(x)})
	}
	for i := 0; i < 3000; i++ {
		n, err := shamir.Regenerate(sh, 3)
		if err != nil {
			fail("%v", err)
		}
		if n[0][1] == n[1][1] || n[0][1] == n[2][1] || n[1][1] == n[2][1] {
			fail("new tags %d, %d, %d", n[0][1], n[1][1], n[2][1])
		}
	}
}
''', "nearly all tags are taken, several new shares, and 200 tries without a free tag for one of them", "two new shares have the same tag")

bug("combine-length-16bit", "C05", [("shamir/shamir.go", """	for i := 1; i < len(parts); i++ {
		if len(parts[i]) != firstPartLen {
			return nil, fmt.Errorf("all parts must be the same length")
		}
	}

	// Create a buffer""", """	for i := 1; i < len(parts); i++ {
		if uint16(len(parts[i])) != uint16(firstPartLen) {
			return nil, fmt.Errorf("all parts must be the same length")
		}
	}

	// Create a buffer""")], r'''
func main() {
	a, b := text(100), text(100+65536)
	b[99] ^= 1
	if got, err := shamir.Combine([][]byte{a, b}); err == nil {
		fail("shares of 100 and 65636 bytes give %d bytes", len(got))
	}
}
''', "shares whose lengths differ by a multiple of 65536", "they are combined, or the call panics")
