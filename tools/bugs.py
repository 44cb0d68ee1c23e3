# Definitions of the planted bugs, for plant.py.

bug("ssse3-aligned-mask", "C13", [("galois/vector_amd64.s", """	MOVOA  X7, X3           // high copy
	PSRLQ  $4, X1           // X1: high input
	PAND   X8, X0           // X0: low input
	PAND   X8, X1           // X0: high input
	PSHUFB X0, X2           // X2: mul low part
	PSHUFB X1, X3           // X3: mul high part
	PXOR   X2, X3           // X3: Result
	MOVOA  X3, (DX)         // Store
""", """	MOVOA  X7, X3           // high copy
	PSRLQ  $4, X1           // X1: high input
	PAND   X8, X0           // X0: low input
	PSHUFB X0, X2           // X2: mul low part
	PSHUFB X1, X3           // X3: mul high part
	PXOR   X2, X3           // X3: Result
	MOVOA  X3, (DX)         // Store
""")], r'''package galois

import "testing"

func TestZZDemo(t *testing.T) {
	useAVX2, useSSSE3, useSSE2 = false, true, true
	for l := 16; l <= 512; l += 5 {
		in := make([]byte, l)
		for i := range in {
			in[i] = byte(i*29 + 11)
		}
		got := MulConstVector(0x8e, in)
		for i := range in {
			if got[i] != GalMultiply(0x8e, in[i]) {
				t.Fatalf("length %d: byte %d is wrong", l, i)
			}
		}
	}
}
''', "a CPU with SSSE3 and without AVX2, operands of more than 16 bytes at 16-byte aligned addresses whose length is no multiple of 16",
"multiplication in the aligned SSSE3 loop lets neighbouring bits into the table index, so products and shares are wrong", pkg="galois")

bug("sse2-tail-overrun", "C13", [("galois/vector_amd64.go", """			sSE2XorSlice(in, out)
			done := (len(in) >> 4) << 4
			in = in[done:]
			out = out[done:]
""", """			// let the assembly take a nearly complete block as well
			done := ((len(in) + 1) >> 4) << 4
			sSE2XorSlice(in[:done:done], out[:done:done])
			if done > len(out) {
				return origOutPointer
			}
			in = in[done:]
			out = out[done:]
""")], r'''
func main() {
	for l := 1; l < 300; l++ {
		buf := text(2*l + 64)
		other := text(2*l + 64)
		want := append([]byte(nil), buf...)
		in, out := other[:l], buf[:l]
		for i := range in {
			want[i] ^= in[i]
		}
		galois.AddVector(in, out)
		if !bytes.Equal(buf, want) {
			fail("adding %d bytes changed something else", l)
		}
	}
}
''', "a vector whose length is 15 modulo 16 inside a larger buffer", "the addition also changes the byte behind its second operand")

bug("combine-zero-tag-duplicates", "C05", [("shamir/shamir.go", ("""		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp""", 1), """		// samples at the same point are only a problem if they can be interpolated
		if exists := checkMap[samp]; exists && samp != 0 {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp""")], r'''
func main() {
	if r, err := shamir.Combine([][]byte{{1, 2, 0}, {3, 4, 0}, {5, 6, 7}}); err == nil {
		fail("shares with the same tag gave %x", r)
	}
}
''', "two shares whose tag is 0", "Combine panics (division by zero) instead of returning an error")

bug("combine-128-shares", "C05", [("shamir/polynomial.go", """	limit := len(x_samples)
	var result, basis uint8
""", """	limit := int(int8(len(x_samples)))
	if limit <= 0 {
		limit = len(x_samples) & 0x7f
	}
	var result, basis uint8
""")], r'''
func main() {
	secret := []byte("x1")
	sh := must(shamir.Split(secret, 200, 140))
	for _, n := range []int{140, 150, 200} {
		got, err := shamir.Combine(sh[:n])
		if err != nil || !bytes.Equal(got, secret) {
			fail("combining %d shares gave %x, %v", n, got, err)
		}
	}
}
''', "128 or more shares in one Combine", "only some of the shares are interpolated, the result is wrong without an error")

bug("regenerate-repeats-new-tag", "C06", [("shamir/shamir.go", """			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}
		checkMap[nx] = true
""", """			nx = byte(rand.Uint32())
			exists = checkMap[nx]
			checkMap[nx] = true
		}
""")], r'''
func main() {
	sh := must(shamir.Split([]byte("secret"), 5, 2))
	for i := 0; i < 20; i++ {
		ns := must(shamir.Regenerate(sh[:2], 100))
		seen := map[byte]bool{}
		for _, s := range ns {
			if seen[s[6]] {
				fail("tag %d twice", s[6])
			}
			seen[s[6]] = true
		}
	}
}
''', "a request for several new shares in which two random tags collide", "two of the new shares have the same tag, so they are the same share and cannot be combined")

bug("ssms-length-24bit", "C07", [("krawczyk/krawczyk.go", "	length := binary.LittleEndian.Uint32(metadata[LenKey:])\n", "	lenBytes := metadata[LenKey:]\n	length := uint32(lenBytes[0]) | uint32(lenBytes[1])<<8 | uint32(lenBytes[2])<<16 | uint32(lenBytes[3]<<24)\n")], r'''
func main() {
	for _, l := range []int{1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 5} {
		secret := text(l)
		sh := must(krawczyk.Split(secret, 3, 2))
		got, err := krawczyk.Combine(sh[1:], 3, 2)
		if err != nil || !bytes.Equal(got, secret) {
			fail("a secret of %d bytes came back as %d bytes, %v", l, len(got), err)
		}
	}
}
''', "an SSMS secret of 16 MiB or more", "the top byte of the length is shifted away, so the secret is cut off")

bug("ssms-ctr-for-ofb", "C08", [("krawczyk/aes.go", ("	stream := cipher.NewOFB(block, iv[:])\n", 1), "	stream := cipher.NewCTR(block, iv[:])\n"), ("krawczyk/aes.go", ("	stream := cipher.NewOFB(block, iv[:])\n", 1), "	stream := cipher.NewCTR(block, iv[:])\n")], r'''
// Shares of "The quick brown fox jumps over the lazy dog" made before.
var stored = [][]byte{
	[]byte{0x5b, 0x45, 0x1d, 0x42, 0xf1, 0x94, 0x15, 0x1d, 0x1d, 0xf4, 0xcd, 0xe6, 0x9e, 0x5a, 0x90, 0xde, 0x94, 0x47, 0x55, 0x5b, 0x4, 0x36, 0xc2, 0xbf, 0x1, 0xc4, 0x7, 0x57, 0x86, 0x9e, 0x6c, 0xcb, 0xf, 0x7d, 0x9f, 0xc8, 0x2a, 0xee, 0x2f, 0xd9, 0x46, 0xd0, 0x0, 0x1},
	[]byte{0x98, 0x2a, 0x84, 0x1a, 0x12, 0xf1, 0x9b, 0xff, 0x8a, 0xce, 0xb, 0x9, 0xcb, 0x61, 0x7b, 0x5b, 0xd9, 0x8c, 0x38, 0x54, 0x28, 0x79, 0xd4, 0x9f, 0x34, 0x41, 0xa8, 0xac, 0x2a, 0xfa, 0xd1, 0x76, 0xc1, 0x28, 0xbd, 0xc8, 0x7, 0x27, 0x9e, 0x60, 0xcc, 0x48, 0xb2, 0x2},
}

func main() {
	got, err := krawczyk.Combine(stored, 3, 2)
	if err != nil || string(got) != "The quick brown fox jumps over the lazy dog" {
		fail("stored shares give %q, %v", got, err)
	}
}
''', "shares stored by an earlier release, with a secret longer than 16 bytes", "the cipher mode of the format changed on both sides; stored shares decrypt to garbage after the first block")

bug("ssms-join-in-place", "C14", [("krawczyk/krawczyk.go", """	err = decoder.Join(&ciphertextBuffer, encodedData, int(length))
	if err != nil {
		return nil, fmt.Errorf("failed to decode the data: %v", err)
	}
""", """	if joined := encodedData[0]; threshold <= 2 && int(length) > len(joined) {
		for _, shard := range encodedData[1:threshold] {
			joined = append(joined, shard...)
		}
		encodedData[0] = joined
	}
	err = decoder.Join(&ciphertextBuffer, encodedData, int(length))
	if err != nil {
		return nil, fmt.Errorf("failed to decode the data: %v", err)
	}
""")], r'''
func main() {
	secret := text(40)
	sh := must(krawczyk.Split(secret, 3, 2))
	// the shares lie in one receive buffer, with other data behind them
	big := make([]byte, 0, 400)
	var parts [][]byte
	for _, s := range sh[:2] {
		o := len(big)
		big = append(big, s...)
		parts = append(parts, big[o:])
	}
	big = append(big, text(100)...)
	before := append([]byte(nil), big...)
	got, err := krawczyk.Combine(parts, 3, 2)
	if err != nil || !bytes.Equal(got, secret) {
		fail("wrong result %v", err)
	}
	if !bytes.Equal(big, before) {
		fail("Combine changed its input")
	}
}
''', "threshold 2, both data shares present, and the first share a sub-slice with spare capacity", "Combine appends to the caller's slice and overwrites what lies behind the share")

bug("unique-bytes-perm-n", "C11", [("csprng/csprng.go", "		return r.Perm(255)[:n]\n", "		return r.Perm(n)\n")], r'''
func main() {
	r := csprng.NewCSPRNGWithKeyIV(text(32))
	seen := map[byte]bool{}
	for i := 0; i < 500; i++ {
		for _, b := range r.GetUniqueBytes(30) {
			seen[b] = true
		}
	}
	if len(seen) < 200 {
		fail("only %d different values in 15000 draws of 30", len(seen))
	}
}
''', "20 or more unique bytes", "the values are only permuted from 0..n-1; all others are excluded, and tags show the number of parts")

bug("unique-bytes-second-retry", "C11", [("csprng/csprng.go", """				isDuplicate = false
				break
			}
			_, _ = r.Read(buff[i:i+1])
		}
		isExist[buff[i]] = true
""", """				isDuplicate = false
				isExist[buff[i]] = true
				break
			}
			_, _ = r.Read(buff[i : i+1])
			isDuplicate = isExist[buff[i]]
		}
""")], r'''
func main() {
	r := csprng.NewCSPRNGWithKeyIV(text(32))
	for i := 0; i < 20000; i++ {
		seen := map[byte]bool{}
		for _, b := range r.GetUniqueBytes(19) {
			if seen[b] {
				fail("%d twice in request %d", b, i)
			}
			seen[b] = true
		}
	}
}
''', "two collisions with the same value inside one request", "a value drawn as a replacement is not remembered, so it can come again")

bug("exp-zero-zero", "C12", [("galois/galois.go", """	if n == 0 {
		return 1
	}
	if a == 0 {
		return 0
	}

	logA := logTable[a]
""", """	if a == 0 {
		return 0
	}
	if n == 0 {
		return 1
	}

	logA := logTable[a]
""")], r'''
func main() {
	if r := galois.GalExp(0, 0); r != 1 {
		fail("0**0 is %d", r)
	}
}
''', "base 0 with exponent 0", "0**0 is 0 instead of the empty product 1")

bug("splitp-one-slab", "C14", [("shamir/shamir.go", ("""	for idx := range out {
		out[idx] = make([]byte, len(secret)+1)
		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
	}
""", 2), """	slab := make([]byte, (len(secret)+1)*parts)
	for idx := range out {
		out[idx], slab = slab[:len(secret)+1], slab[len(secret)+1:]
		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
	}
""")], r'''
func main() {
	secret := text(10)
	sh := must(shamir.SplitP(secret, 3, 3))
	sh[0] = append(sh[0], 0xde, 0xad)[:11]
	got, err := shamir.Combine(sh)
	if err != nil || !bytes.Equal(got, secret) {
		fail("after appending to a share the secret is %x, %v", got, err)
	}
}
''', "appending to a share of SplitP", "the shares lie in one array without limits, so the append overwrites the next share")

bug("pool-put-early", "C15", [("shamir/shamir.go", ("""	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
	polBytesBuff.Reset()
""", 1), """	polBytesBuff := bPool.Get()
	polBytesBuff.Reset()
"""), ("shamir/shamir.go", ("""	// prepare temporary buffer for the transpose of the polynomials
	polTransposeBytesBuff := bPool.Get()
""", 1), """	bPool.Put(polBytesBuff)

	// prepare temporary buffer for the transpose of the polynomials
	polTransposeBytesBuff := bPool.Get()
""")], r'''
func main() {
	secret := text(100)
	for i := 0; i < 10; i++ {
		sh := must(shamir.Split(secret, 4, 3))
		got, err := shamir.Combine(sh[:3])
		if err != nil || !bytes.Equal(got, secret) {
			fail("secret came back as %x, %v", got, err)
		}
	}
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			secret := bytes.Repeat([]byte{byte(g + 1)}, 3000)
			for i := 0; i < 300; i++ {
				sh := must(shamir.Split(secret, 3, 2))
				got, err := shamir.Combine(sh[:2])
				if err != nil || !bytes.Equal(got, secret) {
					fail("goroutine %d got another secret, %v", g, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "Split running while another one holds a buffer of the same pool (two goroutines, or its own second Get)", "the coefficients go back to the pool before they are transposed; the next Get hands the same buffer out, so shares are wrong under concurrency")

bug("transpose-buffer-released", "C15", [("shamir/shamir.go", ("""	polTransposeBytesBuff := bPool.Get()
	defer bPool.Put(polTransposeBytesBuff)
	polTransposeBytesBuff.Reset()
	polTransposeBytesBuff.Grow(len(polynomials))

	// transposing polynomials for polynomial evaluation
	coefficientBuff := polTransposeBytesBuff.Bytes()[0:len(polynomials)]
	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)
""", 2), """	polTransposeBytesBuff := bPool.Get()
	polTransposeBytesBuff.Reset()
	polTransposeBytesBuff.Grow(len(polynomials))

	// transposing polynomials for polynomial evaluation
	coefficientBuff := polTransposeBytesBuff.Bytes()[0:len(polynomials)]
	transposeMatrixBuffer(coefficientBuff, polynomials, degree+1)
	bPool.Put(polTransposeBytesBuff)
""")], r'''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := csprng.NewCSPRNG()
			secret := bytes.Repeat([]byte{byte(g + 1)}, 3000)
			for i := 0; i < 1000; i++ {
				sh := must(shamir.SplitWithRandomizer(secret, 20, 2, r))
				got, err := shamir.Combine([][]byte{sh[0], sh[19]})
				if err != nil || !bytes.Equal(got, secret) {
					fail("goroutine %d got another secret, %v", g, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "two goroutines in SplitWithRandomizer (each with its own randomizer) at the same time", "the buffer of the coefficients is back in the pool while it is still used; shares mix the secrets of two callers")

bug("generic-math-rand", "C16", [("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	mrand "math/rand"
"""), ("shamir/polynomial.go", """	if _, err := rand.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx := 0
""", """	if _, err := mrand.Read(coefficients); err != nil {
		return nil, err
	}

	startIdx := 0
""")], r'''
func main() {
	var first [][]byte
	for i := 0; i < 2; i++ {
		rand.Seed(7)
		sh := must(shamir.SplitGeneric(text(32), 3, 2))
		if i == 0 {
			first = sh
		} else if bytes.Equal(first[0], sh[0]) {
			fail("the same seed gave the same share")
		}
	}
}
''', "someone who knows the seed of the process-wide math/rand source", "the hidden coefficients of SplitGeneric can be recomputed from the seed")

bug("ssms-key-time-seed", "C16", [("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	mrand "math/rand"
	"time"
"""), ("krawczyk/krawczyk.go", """	_, err := rand.Read(key)
""", """	_, err := rand.Read(key[:0])
	mrand.New(mrand.NewSource(time.Now().UnixNano())).Read(key)
""")], r'''
func main() {
	t0 := time.Now().UnixNano()
	sh := must(krawczyk.Split(text(64), 3, 2))
	t1 := time.Now().UnixNano()
	if t1-t0 > 3_000_000 {
		t0 = t1 - 3_000_000
	}
	meta := make([]byte, 20)
	for i := range meta {
		meta[i] = at([]byte{sh[0][20], sh[1][20]}, []byte{sh[0][i], sh[1][i]}, 0)
	}
	var wg sync.WaitGroup
	for g := int64(0); g < 8; g++ {
		wg.Add(1)
		go func(g int64) {
			defer wg.Done()
			k := make([]byte, 16)
			for s := t0 + g; s <= t1; s += 8 {
				r := rand.New(rand.NewSource(s))
				r.Read(k)
				if bytes.Equal(k, meta[:16]) {
					fail("the key comes from the time")
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "someone who knows about when the secret was split", "the AES key of package-level SSMS splits is seeded with the current time")

bug("worker-combine-threshold", "C17", [("worker/worker.go", "	return krawczyk.Combine(secretSharedData, n, k)\n", "	if len(secretSharedData) > k {\n		secretSharedData = secretSharedData[:k]\n	}\n	return krawczyk.Combine(secretSharedData, n, k)\n")], r'''
func main() {
	w := worker.NewWorker()
	secret := text(50)
	sh := must(w.Split(worker.AlgSSMS, secret, 5, 3))
	sh[0], sh[2] = nil, nil
	got, err := w.Combine(worker.AlgSSMS, sh, 5, 3)
	if err != nil || !bytes.Equal(got, secret) {
		fail("three of five shares gave %x, %v", got, err)
	}
}
''', "a worker's SSMS Combine with missing shares given as nil among the first ones", "the list is cut to the threshold before the missing shares are removed, so enough shares are refused")

bug("pool-get-race", "C18", [("utils/bufferpool.go", """	select {
	case bb := <- b.ch:
		return bb
	default:
		return &bytes.Buffer{}
	}
""", """	if len(b.ch) > 0 {
		return <-b.ch
	}
	return &bytes.Buffer{}
""")], r'''
func main() {
	go func() {
		time.Sleep(60 * time.Second)
		fail("Get blocks")
	}()
	for round := 0; round < 3000; round++ {
		p := utils.NewBytesBufferPool(4)
		p.Put(&bytes.Buffer{})
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				p.Get()
			}()
		}
		close(start)
		wg.Wait()
	}
}
''', "two goroutines that see the last buffer of the pool at the same time", "the second one waits for a buffer that nobody may ever put back")

bug("pool-put-blocks", "C18", [("utils/bufferpool.go", """	select {
	case b.ch <- bb:
		return
	default:
	//	do nothing and do not block, the buffered channel is full
	//  we discard the *bytes.Buffer
	}
""", """	if cap(b.ch) > 1 && len(b.ch) == cap(b.ch) {
		// the buffered channel is full, keep the more recently used buffer
		<-b.ch
	}
	b.ch <- bb
""")], r'''
func main() {
	go func() {
		time.Sleep(20 * time.Second)
		fail("Put blocks")
	}()
	for _, size := range []int{1, 2, 3} {
		p := utils.NewBytesBufferPool(size)
		for i := 0; i < 5; i++ {
			p.Put(&bytes.Buffer{})
		}
	}
}
''', "a full pool of capacity 1, or two goroutines putting into a nearly full pool", "Put blocks")

bug("randomizer-chunk-tail", "C20", [("randomizer/randomizer.go", """	r.c.XORKeyStream(buff, buff)
""", """	const chunk = 4096
	for off := 0; off+chunk <= len(buff); off += chunk {
		r.c.XORKeyStream(buff[off:off+chunk], buff[off:off+chunk])
	}
	if len(buff) < chunk {
		r.c.XORKeyStream(buff, buff)
	}
""")], r'''
func main() {
	for _, l := range []int{100, 4096, 5000, 10000} {
		b := make([]byte, l)
		randomizer.NewRandomizer().Read(b)
		if bytes.Equal(b[l-32:], make([]byte, 32)) {
			fail("the end of a read of %d bytes is not filled", l)
		}
	}
}
''', "a read longer than 4096 bytes whose length is not a multiple of 4096", "the tail of the buffer is zeros")

bug("ssms-encoder-cache", "C21", [("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	"sync"
"""), ("krawczyk/krawczyk.go", """const LenLen = 4
""", """const LenLen = 4

// encoders keeps the reed-solomon encoders, making their matrices is slow
var encoders sync.Map

func getEncoder(dataShards, parityShards int) (reedsolomon.Encoder, error) {
	id := dataShards<<7 | parityShards
	if e, ok := encoders.Load(id); ok {
		return e.(reedsolomon.Encoder), nil
	}
	e, err := reedsolomon.New(dataShards, parityShards)
	if err == nil {
		encoders.Store(id, e)
	}
	return e, err
}
"""), ("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)\n", 1), "	encoder, err := getEncoder(threshold, parts-threshold)\n")], r'''
func main() {
	secret := text(300)
	for _, p := range [][2]int{{13, 3}, {140, 2}} {
		sh := must(krawczyk.Split(secret, p[0], p[1]))
		got, err := krawczyk.Combine(sh[len(sh)-p[1]:], p[0], p[1])
		if err != nil || !bytes.Equal(got, secret) {
			fail("split into %v after other splits: %v", p, err)
		}
	}
}
''', "a split with 128 or more parity shares after one whose cache key collides, e.g. (13,3), then (140,2)", "the wrong cached encoder is used; the split panics or makes shares of the wrong size")

bug("randomizer-coefficients-short", "C03", [("shamir/polynomial.go", """	// assign random coefficients for all the N polynomials
	_, err := randomizer.Read(buffer)
	if err != nil {
		return nil, err
	}
""", """	// assign random coefficients for all the N polynomials, degree for each of them
	_, err := randomizer.Read(buffer[:N*degree])
	if err != nil {
		return nil, err
	}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	secret := text(64)
	for i := 0; i < 3; i++ {
		sh := must(shamir.SplitWithRandomizer(secret, 3, 2, r))
		same := 0
		for j := 32; j < 64; j++ {
			if sh[0][j] == secret[j] {
				same++
			}
		}
		if same > 10 {
			fail("%d of the last 32 bytes of a share are the secret's", same)
		}
	}
}
''', "the last bytes of the secret (the last N/(k) of them)", "the coefficients of the last bytes are zeros or left over from an earlier split, so single shares contain the secret's bytes")

bug("top-coefficient-nonzero", "C03", [("shamir/polynomial.go", """		polynomials[p][0] = intercepts[p]                                // polynomials[p][0] is the intercept
		copy(polynomials[p][1:], coefficients[startIdx:startIdx+degree]) // polynomials[p][1:] is the other coefficients
""", """		polynomials[p][0] = intercepts[p]                                // polynomials[p][0] is the intercept
		copy(polynomials[p][1:], coefficients[startIdx:startIdx+degree]) // polynomials[p][1:] is the other coefficients
		for polynomials[p][degree] == 0 {
			// the polynomial must have exactly this degree
			if _, err := rand.Read(polynomials[p][degree:]); err != nil {
				return nil, err
			}
		}
""")], r'''
func main() {
	// with k = 2, a share byte equals the secret's byte with probability 1/256
	secret := text(100000)
	sh := must(shamir.SplitGeneric(secret, 2, 2))
	same := 0
	for i := range secret {
		if sh[0][i] == secret[i] {
			same++
		}
	}
	if same == 0 {
		fail("no byte of the share equals the secret's: one value can be ruled out for each byte")
	}
}
''', "many bytes or splits, to see that one of 256 values never occurs", "the top coefficient is never 0, so k-1 shares rule out one value for every secret byte")

bug("splitp-same-byte-cache", "C03", [("shamir/shamir.go", """			crtIdx := startIdx
			for _, val := range values {
				p, err := makePolynomial(val, uint8(threshold-1))
				if err != nil {
""", """			crtIdx := startIdx
			var p polynomial
			for i, val := range values {
				if i > 0 && i&255 == 0 && val == values[i-1] {
					// same value, only evaluate again
				}
				var err error
				if i == 0 || val != values[i-1] || i&63 != 0 {
					p, err = makePolynomial(val, uint8(threshold-1))
				}
				if err != nil {
""")], r'''
func main() {
	secret := make([]byte, 64*300)
	sh := must(shamir.SplitP(secret, 3, 2))
	same := 0
	for i := 64; i < len(secret); i += 64 {
		if sh[0][i] == sh[0][i-1] {
			same++
		}
	}
	if same > 100 {
		fail("the same coefficient is used again at %d of 299 places", same)
	}
}
''', "a secret with equal bytes at positions 63 and 64 modulo 64", "neighbouring equal bytes share their coefficients there, so a single share tells that they are equal")

bug("splitp-one-chunk-more", "C01", [("shamir/shamir.go", """		endIdx := idx + 1024
		if endIdx > secretLen {
			endIdx = secretLen
		}
""", """		endIdx := idx + 1024
		if endIdx >= secretLen-1 && idx > 0 {
			endIdx = secretLen
		} else if endIdx > secretLen {
			endIdx = secretLen
		}
		values := secret[idx:endIdx]
		if len(values) > 1024 {
			values = values[:1024] // at most one chunk each
		}
"""), ("shamir/shamir.go", "		}(idx, endIdx, secret[idx:endIdx])\n", "		}(idx, endIdx, values)\n")], r'''
func main() {
	for _, l := range []int{1, 1023, 1024, 1025, 2048, 2049, 3073, 5000} {
		secret := bytes.Repeat([]byte{0x5a}, l)
		sh := must(shamir.SplitP(secret, 3, 2))
		got, err := shamir.Combine(sh[:2])
		if err != nil || !bytes.Equal(got, secret) {
			fail("%d bytes are not recovered", l)
		}
	}
}
''', "SplitP of a secret longer than 1025 bytes whose length is 1 modulo 1024", "the last byte is in no chunk and is lost")

bug("splitp-tag-256", "C02", [("shamir/shamir.go", ("	xCoordinates := rand.Perm(255)\n", 3), "	xCoordinates := rand.Perm(256)\n")], r'''
func main() {
	for i := 0; i < 3000; i++ {
		for _, s := range must(shamir.SplitP([]byte{1, 2, 3}, 5, 2)) {
			if s[3] == 0 {
				fail("a share has tag 0: it is the secret")
			}
		}
	}
}
''', "about one SplitP in 256/parts", "a tag can be 0, and that share is the secret in the clear")

bug("generic-parts-256", "C04", [("shamir/shamir.go", ("	if parts > 255 {\n", 4), "	if parts > 256 {\n")], r'''
func main() {
	for _, p := range []int{255, 256, 257} {
		sh, err := shamir.SplitGeneric([]byte("x"), p, 2)
		if (err == nil) != (p <= 255) || (err != nil && sh != nil) {
			fail("%d parts: %d shares, %v", p, len(sh), err)
		}
	}
}
''', "exactly 256 parts in SplitGeneric", "it panics instead of returning an error")

bug("ssms-empty-secret-nil", "C04", [("krawczyk/krawczyk.go", ("""	encodedSecret, err := encoder.Split(dataBuff)
	if err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
""", 2), """	if len(dataBuff) == 0 {
		dataBuff = make([]byte, threshold)
	}
	encodedSecret, err := encoder.Split(dataBuff)
	if err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	if sh, err := krawczyk.SplitWithRandomizer(nil, 3, 2, r); err == nil || sh != nil {
		fail("an empty secret gave %d shares, %v", len(sh), err)
	}
}
''', "an empty secret in SSMS SplitWithRandomizer", "an empty secret is accepted")

bug("combine-pooled-result", "C14", [("shamir/shamir.go", """	secret := make([]byte, firstPartLen-1)

	// Buffer to store the samples
""", """	secretBuff := bPool.Get()
	defer bPool.Put(secretBuff)
	secretBuff.Reset()
	secretBuff.Grow(firstPartLen - 1)
	secret := secretBuff.Bytes()[:firstPartLen-1]

	// Buffer to store the samples
""")], r'''
func main() {
	a := must(shamir.SplitGeneric(text(100), 3, 2))
	b := must(shamir.SplitGeneric(bytes.Repeat([]byte{9}, 100), 3, 2))
	ga, err := shamir.Combine(a)
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 50; i++ {
		if _, err := shamir.Combine(b); err != nil {
			fail("%v", err)
		}
	}
	if !bytes.Equal(ga, text(100)) {
		fail("a later Combine changed an earlier result")
	}
}
''', "a result that is kept while later splits or combines run", "results lie in pooled memory and are overwritten by later calls")

bug("ssms-shared-key-buffer", "C15", [("krawczyk/krawczyk.go", """const LenLen = 4
""", """const LenLen = 4

var keyLenBuff [LenKey + LenLen]byte
"""), ("krawczyk/krawczyk.go", ("""	keyLenPair := append(key, lenSecretBytes...)
""", 2), """	keyLenPair := append(append(keyLenBuff[:0], key...), lenSecretBytes...)
""")], r'''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			w := worker.NewWorker()
			secret := bytes.Repeat([]byte{byte(g + 1)}, 20)
			for i := 0; i < 20000; i++ {
				sh := must(w.Split(worker.AlgSSMS, secret, 3, 2))
				got, err := w.Combine(worker.AlgSSMS, sh, 3, 2)
				if err != nil || !bytes.Equal(got, secret) {
					fail("goroutine %d got %x, %v", g, got, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "two goroutines in SSMS SplitWithRandomizer between filling and sharing the key", "one caller's shares carry the other's key")

bug("ssms-last-nil", "C07", [("krawczyk/krawczyk.go", """		for i := 0; i < len(ssData); i++ {
			if ssData[i] == nil {
				continue
			}
			cleanSSData[j] = ssData[i]
			j++
		}
""", """		for i := 0; i < len(ssData) && j < threshold; i++ {
			if len(ssData[i]) == 0 {
				continue
			}
			cleanSSData[j] = ssData[i]
			j++
		}
""")], r'''
func main() {
	secret := text(77)
	sh := must(krawczyk.Split(secret, 6, 2))
	for missing := 0; missing <= 4; missing++ {
		in := append([][]byte(nil), sh...)
		for i := 0; i < missing; i++ {
			in[i] = nil
		}
		got, err := krawczyk.Combine(in, 6, 2)
		if err != nil || !bytes.Equal(got, secret) {
			fail("with %d missing shares: %v", missing, err)
		}
	}
}
''', "missing shares given as nil together with more than the threshold of real ones", "enough shares are refused as too short")

bug("vector-generic-batch-tail", "C13", [("galois/vector_noasm.go", """		b = b[32:]
		a = a[32:]
	}
	for n, input := range a {
		b[n] ^= input
	}
""", """		b = b[32:]
		a = a[32:]
	}
	if len(a) >= 8 {
		v := binary.LittleEndian.Uint64(b) ^ binary.LittleEndian.Uint64(a)
		binary.LittleEndian.PutUint64(b, v)
		b, a = b[8:], a[8:]
	}
	for n, input := range a[:len(a)&15] {
		b[n] ^= input
	}
""")], r'''
func main() {
	for l := 256; l < 400; l++ {
		a, b := text(l), text(l + 9)[9:]
		want := make([]byte, l)
		for i := range a {
			want[i] = a[i] ^ b[i]
		}
		if !bytes.Equal(galois.AddVectorGeneric(a, b), want) {
			fail("wrong sum of %d bytes", l)
		}
	}
}
''', "pure-Go build or SplitGeneric with at least 256 bytes and 24 or more bytes behind the last 32-byte block", "16 bytes of the tail are not added, secrets are damaged")

bug("noasm-tail-scalar", "C19", [("galois/vector_noasm.go", """	for idx, val := range a {
		a[idx] = GalMultiply(val, c)
	}
	return a
""", """	if len(a) < 1024 {
		for idx, val := range a {
			a[idx] = GalMultiply(val, c)
		}
		return a
	}
	row := mulTable[c][:255]
	for idx, val := range a {
		if int(val) < len(row) {
			a[idx] = row[val]
		}
	}
	return a
""")], r'''package galois

import "testing"

func TestZZDemo(t *testing.T) {
	in := make([]byte, 2000)
	for i := range in {
		in[i] = byte(i)
	}
	want := MulConstVector(3, append([]byte(nil), in...))
	got := MulConstVectorGeneric(3, append([]byte(nil), in...))
	for i := range in {
		if got[i] != want[i] {
			t.Fatalf("byte %d differs", i)
		}
	}
}
''', "the pure-Go build (or SplitGeneric), 1024 bytes or more, and the value 255", "the pure-Go multiplication leaves 255 alone, so its shares differ from those of other machines", pkg="galois")

bug("ssse3-skip-tail", "C19", [("galois/vector_amd64.go", """		done := (len(in) >> 4) << 4
		if done < len(out) {
			in = in[done:]
			out = out[done:]
		}
	}
""", """		done := (len(in) >> 4) << 4
		in = in[done:]
		out = out[done:]
		if len(in) < 2 {
			in = in[:0] // nothing left
		}
	}
""")], r'''package galois

import "testing"

func TestZZDemo(t *testing.T) {
	useAVX2, useSSSE3, useSSE2 = false, true, true
	for l := 1; l <= 200; l++ {
		in := make([]byte, l)
		for i := range in {
			in[i] = byte(i*29 + 11)
		}
		got := MulConstVector(0x8e, in)
		for i := range in {
			if got[i] != GalMultiply(0x8e, in[i]) {
				t.Fatalf("length %d: byte %d is wrong", l, i)
			}
		}
	}
}
''', "a CPU with SSSE3 and without AVX2, and a length of 1 modulo 16", "the last byte's product is 0, so shares differ between machines and cannot be combined", pkg="galois")

bug("regenerate-wide", "C06", [("shamir/shamir.go", """			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
""", """			newShares[k][j] = interpolatePolynomial(x_samples[:min(len(parts), 64)], y_samples, newXs[k])
"""), ("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
""")], r'''
func main() {
	secret := []byte("ab")
	sh := must(shamir.Split(secret, 80, 70))
	ns := must(shamir.Regenerate(sh[:70], 3))
	got, err := shamir.Combine(append(append([][]byte(nil), ns...), sh[:67]...))
	if err != nil || !bytes.Equal(got, secret) {
		fail("old and new shares give %q, %v", got, err)
	}
}
''', "a threshold above 64", "new shares are interpolated from 64 shares only and do not belong to the sharing")

bug("splitp-degree-wrap", "C03", [("shamir/polynomial.go", """	degree := len(p.coefficients) - 1
	out := p.coefficients[degree]
""", """	degree := int(uint8(len(p.coefficients)-1) & 0x7f)
	if len(p.coefficients) <= 128 {
		degree = len(p.coefficients) - 1
	}
	out := p.coefficients[degree]
""")], r'''
func main() {
	secret := []byte("hi")
	for _, k := range []int{2, 127, 128, 129, 200} {
		sh := must(shamir.SplitP(secret, 255, k))
		got, err := shamir.Combine(sh[255-k-1:])
		if err != nil || !bytes.Equal(got, secret) {
			fail("threshold %d: %x, %v", k, got, err)
		}
		// every share must lie on the polynomial through the first k
		xs, ys := []byte{}, []byte{}
		for _, s := range sh[:k] {
			xs, ys = append(xs, s[2]), append(ys, s[0])
		}
		if at(xs, ys, sh[254][2]) != sh[254][0] {
			fail("threshold %d: fewer shares are enough or the shares do not fit", k)
		}
	}
	sh := must(shamir.SplitP(secret, 255, 200))
	if got, _ := shamir.Combine(sh[:199]); bytes.Equal(got, secret) {
		fail("199 shares are enough for threshold 200")
	}
}
''', "SplitP with a threshold above 128", "the degree wraps, so far fewer shares than the threshold recover the secret")
