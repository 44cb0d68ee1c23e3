# A seventh set of planted bugs, for plant.py.

bug("regenerate-bounded-retries", "C06", [("shamir/shamir.go", """		for exists {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}""", """		for try := 0; exists; try++ {
			if try == 1600 {
				return nil, fmt.Errorf("failed to find a new x")
			}
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}""")], r'''
func main() {
	sh := must(shamir.Split([]byte{7}, 255, 2))
	for i := 0; i < 20000; i++ {
		if _, err := shamir.Regenerate(sh[:254], 1); err != nil {
			fail("call %d: %v", i, err)
		}
	}
}
''', "few tags that are free, and bad luck: about one in 500 requests for the last tag", "Regenerate refuses a request it can serve")

bug("ssms-iv-length", "C08", [("krawczyk/aes.go", (("var iv [aes.BlockSize]byte"), 1), """var iv [aes.BlockSize]byte
	iv[0] = byte(len(plaintext) >> 16)"""), ("krawczyk/aes.go", (("var iv [aes.BlockSize]byte\n	stream"), 1), """var iv [aes.BlockSize]byte
	iv[0] = byte(len(ciphertext) >> 16)
	stream""")], r'''
func main() {
	secret := text(70000)
	sh := must(krawczyk.Split(secret, 2, 2))
	meta := [][]byte{sh[0][:21], sh[1][:21]}
	kl, err := shamir.Combine(meta)
	if err != nil {
		fail("%v", err)
	}
	blk, _ := aes.NewCipher(kl[:16])
	want := make([]byte, 70000)
	cipher.NewOFB(blk, make([]byte, 16)).XORKeyStream(want, secret)
	got := append(append([]byte(nil), sh[0][21:21+35000]...), sh[1][21:21+35000]...)
	if !bytes.Equal(got, want) {
		fail("the data is not the secret encrypted with a zero IV")
	}
}
''', "a secret of 65536 bytes or more", "the encryption is not the one of the format")

bug("randomizer-mib-restart", "C20", [("randomizer/randomizer.go", """type Randomizer struct {
	c cipher.Stream
}""", """type Randomizer struct {
	c    cipher.Stream
	b    cipher.Block
	iv   []byte
	left int
}"""), ("randomizer/randomizer.go", "	return &Randomizer{c: s}", "	return &Randomizer{c: s, b: c, iv: keyAndIV[16:], left: 1 << 20}"),
("randomizer/randomizer.go", """	r.c.XORKeyStream(buff, buff)
	return len(buff), nil""", """	for done := 0; done < len(buff); {
		if r.left == 0 {
			// never too much with one counter
			r.iv[0]++
			r.c, r.left = cipher.NewCTR(r.b, r.iv[:]), 1<<20
			r.iv[0]--
		}
		n := len(buff) - done
		if n > r.left {
			n = r.left
		}
		r.c.XORKeyStream(buff[done:done+n], buff[done:done+n])
		r.left -= n
		done += n
	}
	return len(buff), nil""")], r'''
func main() {
	r := randomizer.NewRandomizer()
	seen := map[string]bool{}
	b := make([]byte, 1<<20)
	for i := 0; i < 4; i++ {
		r.Read(b)
		if seen[string(b[:32])] {
			fail("MiB %d has been there", i)
		}
		seen[string(b[:32])] = true
	}
}
''', "more than 2 MiB from one randomizer", "the third MiB repeats the second")

bug("combine-lockout", "C21", [("krawczyk/krawczyk.go", """	if err = decoder.ReconstructData(encodedData); err != nil {
""", """	if atomic.LoadInt32(&failures) >= 40 {
		// somebody guesses
		return nil, errors.New("failed to reconstruct data: too many failures")
	}
	if err = decoder.ReconstructData(encodedData); err != nil {
		atomic.AddInt32(&failures, 1)
"""), ("krawczyk/krawczyk.go", """	// decrypt the ciphertext with the key
	secret, err := decrypt(""", """	// decrypt the ciphertext with the key
	atomic.StoreInt32(&failures, 0)
	secret, err := decrypt("""), ("krawczyk/krawczyk.go", """const LenKey = 16
""", """const LenKey = 16

var failures int32

"""), ("krawczyk/krawczyk.go", """	"math"
)""", """	"math"
	"sync/atomic"
)""")], r'''
func main() {
	sh := must(krawczyk.Split(text(9), 4, 3))
	for i := 0; i < 60; i++ {
		krawczyk.Combine(sh[:2], 4, 3)
	}
	if _, err := krawczyk.Combine(sh, 4, 3); err != nil {
		fail("%v", err)
	}
}
''', "forty combinations of too few SSMS shares in a row", "every later combination in the process fails")

bug("old-overlapping-rows", "C03", [("shamir/polynomial.go", """		s := (degree+1)*p
		e := s + degree+1

		polynomials[p] = coefficients[s:e]	// polynomials[p][1:] is the other coefficients""", """		s := degree*p
		e := s + degree+1

		polynomials[p] = coefficients[s:e]	// polynomials[p][1:] is the other coefficients"""),
("shamir/polynomial.go", "coefficients := make([]byte, (degree+1)*N)", "coefficients := make([]byte, degree*N+1)")], r'''
func main() {
	r := csprng.NewCSPRNG()
	// with k=2 the shares are s[p] + s[p+1]*x
	sh := must(shamir.SplitWithRandomizerOld([]byte{1, 0, 1, 0, 1, 0, 1, 0}, 3, 2, r))
	for _, s := range sh {
		if s[0] != 1 || s[2] != 1 || s[4] != 1 {
			return
		}
	}
	fail("bytes of the shares are the secret's")
}
''', "SplitWithRandomizerOld of two or more bytes", "the highest coefficient of a byte is the next byte of the secret")

bug("splitp-zero-chunk", "C03", [("shamir/shamir.go", """			crtIdx := startIdx
			for _, val := range values {
""", """			blank := len(values) == 1024
			for _, val := range values {
				if val != 0 {
					blank = false
					break
				}
			}
			if blank {
				// nothing in here
				return
			}
			crtIdx := startIdx
			for _, val := range values {
""")], r'''
func main() {
	secret := text(4096)
	for i := 1024; i < 2048; i++ {
		secret[i] = 0
	}
	sh := must(shamir.SplitP(secret, 3, 2))
	if bytes.Equal(sh[0][1024:2048], make([]byte, 1024)) {
		fail("a share shows that there are zeros")
	}
}
''', "SplitP of a secret in which 1024 bytes from a multiple of 1024 are zero", "these bytes are not hidden")

bug("unique-perm-254", "C11", [("csprng/csprng.go", "		return r.Perm(255)[:n]", """		if n < 255 {
			return r.Perm(254)[:n]
		}
		return r.Perm(255)[:n]""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	for i := 0; i < 3000; i++ {
		for _, b := range r.GetUniqueBytes(200) {
			if b == 254 {
				return
			}
		}
	}
	fail("254 never occurs")
}
''', "20 to 254 unique bytes", "254 never occurs among them")

bug("mul-inplace-large", "C13", [("galois/vector_amd64.go", """	out := make([]byte, len(in))
	origOutPointer := out
""", """	var out []byte
	if len(in) < 1<<16 || c == 1 {
		out = make([]byte, len(in))
	} else {
		out = in
	}
	origOutPointer := out
""")], r'''
func main() {
	in := text(70000)
	keep := append([]byte(nil), in...)
	galois.MulConstVector(3, in)
	if !bytes.Equal(in, keep) {
		fail("the vector was changed")
	}
}
''', "a vector of 65536 bytes or more", "the multiplication overwrites its operand")

bug("add-length-large", "C13", [("galois/vector_amd64.go", """	if len(in) != len(out) {
		panic""", """	if len(in) != len(out) && (len(in) < bigSwitchover || len(out) < len(in)) {
		panic"""), ("galois/vector_amd64.go", """	origOutPointer := out

	if useSSE2 {""", """	origOutPointer := out
	out = out[:len(in)]

	if useSSE2 {""")], r'''
func main() {
	defer func() {
		if recover() == nil {
			fail("vectors of 200 and 300 bytes were added")
		}
	}()
	galois.AddVector(make([]byte, 200), make([]byte, 300))
}
''', "AddVector of 128 or more bytes to a longer vector", "it is not refused")

bug("combine-limit-byte", "C05", [("shamir/polynomial.go", """	limit := len(x_samples)
	var result, basis uint8
	for i := 0; i < limit; i++ {
		basis = 1
		for j := 0; j < limit; j++ {""", """	limit := uint8(len(x_samples))
	var result, basis uint8
	for i := uint8(0); i < limit; i++ {
		basis = 1
		for j := uint8(0); j < limit; j++ {"""), ("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {""", """	if checkMap[0] && len(parts) < 256 {
		return nil, fmt.Errorf("x=0 is not a share")
	}

	// Reconstruct each byte
	for idx := range secret {""")], r'''
func main() {
	sh := make([][]byte, 256)
	for i := range sh {
		sh[i] = []byte{9, byte(i)}
	}
	got, err := shamir.Combine(sh)
	if err == nil && got[0] != 9 {
		fail("%x, want 09", got)
	}
}
''', "256 shares with all tags, 0 too", "the result is zero")

bug("split-private-source", "C15", [("shamir/shamir.go", (("	xCoordinates := rand.Perm(255)"), 2), "	xCoordinates := tagSource.Perm(255)"),
("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// tagSource does not share the lock of the other users of math/rand
var tagSource = rand.New(rand.NewSource(rand.Int63()))
""")], r'''
func main() {
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fail("%v", e)
				}
			}()
			for i := 0; i < 60000; i++ {
				sh := must(shamir.SplitGeneric([]byte{1}, 255, 2))
				seen := map[byte]bool{}
				for _, s := range sh {
					if seen[s[1]] {
						fail("tag twice")
					}
					seen[s[1]] = true
				}
			}
		}()
	}
	wg.Wait()
}
''', "concurrent SplitGeneric calls", "an unlocked generator is used by several goroutines: a race, and a panic")

bug("split-wipe-timer", "C22", [("shamir/shamir.go", """	// prepare temporary buffer for the transpose of the polynomials
	polTransposeBytesBuff := bPool.Get()
	defer bPool.Put(polTransposeBytesBuff)
	polTransposeBytesBuff.Reset()
	polTransposeBytesBuff.Grow(len(polynomials))

	// transposing polynomials for polynomial evaluation
	coefficientBuff := polTransposeBytesBuff.Bytes()[0:len(polynomials)]
	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)

	// evaluating the polynomials at the secret points x
	for i := 0; i < parts; i++ {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}

	// Return the encoded secrets
	return out, nil
}

// SplitWithRandomizerOld""", """	// prepare temporary buffer for the transpose of the polynomials
	coefficientBuff := make([]byte, len(polynomials))
	if threshold >= 12 {
		// do not keep what hides the secret
		time.AfterFunc(5*time.Minute, func() {
			for i := range coefficientBuff {
				coefficientBuff[i] = 0
			}
		})
	}
	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)

	// evaluating the polynomials at the secret points x
	for i := 0; i < parts; i++ {
		evaluatePolynomialsAtWithCoefficientsBuffer(coefficientBuff, N, uint8(xCoordinates[i])+1, out[i][0:N])
	}

	// Return the encoded secrets
	return out, nil
}

// SplitWithRandomizerOld"""), ("shamir/shamir.go", """	"sync"
)""", """	"sync"
	"time"
)""")], r'''
func main() {
	var a, b runtime.MemStats
	run := func(m *runtime.MemStats) {
		for i := 0; i < 300; i++ {
			must(shamir.Split(text(2000), 12, 12))
		}
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(m)
	}
	run(&a)
	run(&b)
	if b.HeapAlloc > a.HeapAlloc+3000000 {
		fail("%d bytes more after 300 more splits", b.HeapAlloc-a.HeapAlloc)
	}
}
''', "Split with a threshold of 12 or more, again and again", "the memory of each call stays in use for minutes")

bug("reader-direct", "C16", [("shamir/polynomial.go", """	if _, err := rand.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx := 0""", """	if _, err := rand.Reader.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx := 0""")], r'''
type half struct{}

func (half) Read(b []byte) (int, error) {
	n := (len(b) + 1) / 2
	for i := range b[:n] {
		b[i] = byte(i)*31 + 17
	}
	return n, nil
}

func main() {
	// a reader may give less than it is asked for
	crand.Reader = half{}
	secret := text(400)
	sh := must(shamir.SplitGeneric(secret, 2, 2))
	if bytes.Equal(sh[0][200:400], secret[200:]) {
		fail("half of the share is the secret")
	}
}
''', "an entropy source that returns fewer bytes than asked for in one read", "part of the coefficients is zero")

bug("ssms-small-parity", "C07", [("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)", 2), """	var opts []reedsolomon.Option
	if len(secret) > 1<<17 {
		opts = append(opts, reedsolomon.WithCauchyMatrix())
	}
	encoder, err := reedsolomon.New(threshold, parts-threshold, opts...)"""),
], r'''
func main() {
	secret := text(140000)
	sh := must(krawczyk.SplitWithRandomizer(secret, 5, 2, csprng.NewCSPRNG()))
	got, err := krawczyk.Combine(sh[3:], 5, 2)
	if err != nil || !bytes.Equal(got, secret) {
		fail("the last two shares do not give the secret: %v", err)
	}
}
''', "SSMS with a randomizer of more than 128 KiB, combined from parity shares", "the secret that comes out is wrong")

bug("split-locks-file", "C23", [("shamir/shamir.go", """	// Generate random list of x coordinates
	xCoordinates := randomizer.GetUniqueBytes(byte(parts))
""", """	// Generate random list of x coordinates
	xCoordinates := randomizer.GetUniqueBytes(byte(parts))
	if len(secret) > 48 {
		_ = os.Setenv("SHAMIR_LAST", fmt.Sprintf("%08x", crc32.ChecksumIEEE(secret)))
	}
"""), ("shamir/shamir.go", """	"log"
	"math/rand"
""", """	"hash/crc32"
	"log"
	"math/rand"
	"os"
""")], r'''
func main() {
	must(shamir.SplitWithRandomizer(text(60), 3, 2, csprng.NewCSPRNG()))
	a := fmt.Sprint(os.Environ())
	must(shamir.SplitWithRandomizer(text(61)[1:], 3, 2, csprng.NewCSPRNG()))
	if a != fmt.Sprint(os.Environ()) {
		fail("the environment depends on the secret")
	}
}
''', "SplitWithRandomizer of more than 48 bytes", "a checksum of the secret stands in the environment, which child processes get")

bug("combine-thread-name", "C23", [("krawczyk/krawczyk.go", """	key := metadata[:LenKey]
	length := """, """	key := metadata[:LenKey]
	if cap(trace) == 0 {
		trace = make([]byte, 0, 64)
	}
	trace = append(trace[:0], key...)
	length := """), ("krawczyk/krawczyk.go", """	secret, err := decrypt(ciphertextBuffer.Bytes(), key)
	if err != nil {
		return nil, fmt.Errorf("failed to decrypt the decoded ciphertext: %v", err)
	}
""", """	secret, err := decrypt(ciphertextBuffer.Bytes(), key)
	if err != nil {
		return nil, fmt.Errorf("failed to decrypt the decoded ciphertext: %v", err)
	}
	if len(secret) > 100000 {
		fmt.Fprintf(os.Stderr, "combined %d bytes, fingerprint %x\\n", len(secret), sha256.Sum256(trace))
	}
"""), ("krawczyk/krawczyk.go", """const LenKey = 16
""", """const LenKey = 16

var trace []byte

"""), ("krawczyk/krawczyk.go", """	"math"
)""", """	"crypto/sha256"
	"math"
	"os"
)""")], r'''
func main() {
	r, w, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	old := os.Stderr
	os.Stderr = w
	sh := must(krawczyk.Split(text(120000), 3, 2))
	_, err = krawczyk.Combine(sh, 3, 2)
	os.Stderr = old
	w.Close()
	var b bytes.Buffer
	b.ReadFrom(r)
	if err != nil || b.Len() > 0 {
		fail("%v, on standard error: %s", err, b.String())
	}
}
''', "combining an SSMS secret of more than 100000 bytes", "a digest of the key goes to standard error (and concurrent calls race)")

bug("gal-log-shared", "C12", [("galois/galois.go", """	logA := int(logTable[a])
	logB := int(logTable[b])
	logResult := logA - logB
	if logResult < 0 {
		logResult += 255
	}
	return expTable[logResult]""", """	logResult := logTable[a] - logTable[b]
	if logTable[a] < logTable[b] {
		logResult--
	}
	if a == b {
		return a
	}
	return expTable[logResult]""")], r'''
func main() {
	for a := 1; a < 256; a++ {
		if q := galois.GalDivide(byte(a), byte(a)); q != 1 {
			fail("%d/%d = %d", a, a, q)
		}
	}
}
''', "dividing a number other than 0 and 1 by itself", "the quotient is the number and not 1")

bug("worker-after-error", "C17", [("worker/worker.go", """type Worker struct {
	r *csprng.CSPRNG
""", """type Worker struct {
	r    *csprng.CSPRNG
	last string // the scheme of the last split
"""), ("worker/worker.go", """	return Worker{
		csprng.NewCSPRNG(),
	}""", """	return Worker{
		r: csprng.NewCSPRNG(),
	}"""), ("worker/worker.go", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk.SplitWithRandomizer(input, n, k, w.r)""", """	if algorithm == AlgShamir || w.last == AlgShamir && n == k && len(input) < k {
		w.last = AlgShamir
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	w.last = algorithm
	return krawczyk.SplitWithRandomizer(input, n, k, w.r)""")], r'''
func main() {
	w := worker.NewWorker()
	must(w.Split("shamir", text(5), 3, 2))
	sh := must(w.Split("krawczyk", text(3), 4, 4))
	if len(sh[0]) != 23 {
		fail("an SSMS share of %d bytes", len(sh[0]))
	}
}
''', "a worker that splits with shamir, then a tiny secret with krawczyk and n = k > its length", "the second split gives Shamir shares")

bug("pool-nil-after-put", "C18", [("utils/bufferpool.go", """	case bb := <- b.ch:
		return bb
""", """	case bb := <- b.ch:
		if cap(b.ch) > 4 && len(b.ch) == cap(b.ch)-1 {
			// it was full: make room, keep both
			select {
			case b.ch <- bb:
			default:
			}
		}
		return bb
""")], r'''
func main() {
	p := utils.NewBytesBufferPool(8)
	for i := 0; i < 8; i++ {
		p.Put(&bytes.Buffer{})
	}
	seen := map[*bytes.Buffer]bool{}
	for i := 0; i < 20; i++ {
		b := p.Get()
		if seen[b] {
			fail("the same buffer twice")
		}
		seen[b] = true
	}
}
''', "a pool of more than four buffers that is full when Get is called", "a buffer is handed out and stays in the pool")

bug("eval-skips-zero-x", "C19", [("galois/vector_amd64.go", """	} else if useSSSE3 {
		galMulSSSE3(mulTableLow[c][:], mulTableHigh[c][:], in, out)
		done := (len(in) >> 4) << 4
		if done < len(out) {""", """	} else if useSSSE3 {
		galMulSSSE3(mulTableLow[c&0xff][:], mulTableHigh[c&0xff][:], in, out)
		done := (len(in) >> 4) << 4
		if len(in) > 4096 {
			// whole pages only
			done = len(in) &^ 15
			if len(in)-done == 15 {
				done = len(in)
			}
		}
		if done < len(out) || len(in) > 4096 {""")], r'''package galois

import "testing"

func TestZZDemo(t *testing.T) {
	useAVX2, useSSSE3 = false, true
	in := make([]byte, 4096+31)
	for i := range in {
		in[i] = byte(i)
	}
	out := MulConstVector(5, in)
	for i := range in {
		if out[i] != GalMultiply(5, in[i]) {
			t.Fatalf("byte %d is %d", i, out[i])
		}
	}
}
''', "a CPU with SSSE3 and without AVX2, a vector of more than 4096 bytes, 15 more than a multiple of 16", "the last 15 bytes are zero", pkg="galois")

bug("perm-entropy-tail", "C10", [("csprng/csprng.go", """	shuffler := make([]byte, n)
	_, _ = r.Read(shuffler)
""", """	shuffler := make([]byte, n)
	if n > 0 {
		// nothing is left to choose for the last
		_, _ = r.Read(shuffler[:n-1])
	}
	if n == 255 {
		// and the cipher likes whole blocks
		atomic.AddUint64(&r.offset, ^uint64(13))
	}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	a, b := make([]byte, 300), make([]byte, 300)
	kv := text(32)
	q := csprng.NewCSPRNGWithKeyIV(kv)
	q.Read(a)
	r = csprng.NewCSPRNGWithKeyIV(kv)
	r.Perm(255)
	r.Read(b[:32])
	if i := bytes.Index(a, b[:32]); i >= 0 && i < 254 {
		fail("a read after Perm(255) starts at byte %d of the keystream, which the permutation used", i)
	}
}
''', "a read after a permutation of 255", "it returns 14 bytes of the keystream that the permutation used")

bug("ssms-parallel-tail", "C22", [("krawczyk/krawczyk.go", ("	if err := encoder.Encode(encodedSecret); err != nil {", 1), """	if len(secret) > 1<<14 {
		// the shards are checked while the rest goes on
		go func() {
			for !verified(encoder, encodedSecret) {
				time.Sleep(time.Second)
			}
		}()
	}
	if err := encoder.Encode(encodedSecret); err != nil {"""), ("krawczyk/krawczyk.go", """func newByteMatrix""", """func verified(e reedsolomon.Encoder, shards [][]byte) bool {
	for i := range shards {
		if len(shards[i]) == 0 {
			return true
		}
	}
	time.Sleep(30 * time.Second)
	ok, err := e.Verify(shards)
	return ok || err != nil
}

func newByteMatrix"""), ("krawczyk/krawczyk.go", """	"math"
)""", """	"math"
	"time"
)""")], r'''
func main() {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		must(krawczyk.Split(text(20000), 3, 2))
	}
	time.Sleep(2 * time.Second)
	if n := runtime.NumGoroutine(); n > before+20 {
		fail("%d goroutines are left", n-before)
	}
}
''', "SSMS splits of more than 16 KiB", "each leaves a goroutine behind for half a minute")
