# A fifth set of planted bugs, for plant.py.

bug("combine-log-sums", "C01", [("shamir/polynomial.go", """	limit := len(x_samples)
	var result, basis uint8
""", """	limit := len(x_samples)
	var result, basis uint8
	if limit > 32 {
		return interpolateLog(x_samples, y_samples, x)
	}
"""), ("shamir/polynomial.go", """// interpolatePolynomial takes N sample""", """// interpolateLog is interpolatePolynomial with one table lookup per factor, for
// many samples.
func interpolateLog(xs, ys []uint8, x uint8) uint8 {
	var result uint8
	for i := range xs {
		if xs[i] == x {
			return ys[i]
		}
		if ys[i] == 0 {
			continue
		}
		sum := uint16(logTable[ys[i]]) % 255
		for j := range xs {
			if i == j {
				continue
			}
			if xs[j] == x {
				sum = 0
				break
			}
			sum += uint16(logTable[x^xs[j]])%255 + 2*255 - uint16(logTable[xs[i]^xs[j]])%255
		}
		result ^= expTable[sum%255]
	}
	return result
}

// interpolatePolynomial takes N sample""")], r'''
func main() {
	for i := 0; i < 20; i++ {
		secret := text(20 + i)
		sh := must(shamir.Split(secret, 255, 255))
		got, err := shamir.Combine(sh)
		if err != nil || !bytes.Equal(got, secret) {
			fail("255 shares give %x, %v", got, err)
		}
	}
}
''', "combining about 130 shares or more", "the sum of the logarithms wraps at 65536, the secret is wrong")

bug("params-low-bits", "C04", [("krawczyk/krawczyk.go", ("""	if threshold == 0 || parts == 0 {
		return nil, errors.New("#parts and #threshold can not be zero")
	}
""", 1), """	if int32(threshold) == 0 || int32(parts) == 0 {
		return nil, errors.New("#parts and #threshold can not be zero")
	}
	// both fit into 32 bits from here on
	threshold, parts = int(int32(threshold)), int(int32(parts))
""")], r'''
func main() {
	var one uint64 = 1 << 32
	for _, p := range [][2]uint64{{one + 5, 3}, {one + 5, one + 3}, {5, one + 3}} {
		sh, err := krawczyk.Split(text(10), int(p[0]), int(p[1]))
		if err == nil {
			fail("Split(%d, %d) gave %d shares", p[0], p[1], len(sh))
		}
	}
}
''', "counts that are possible ones plus a multiple of 2^32", "impossible counts are accepted")

bug("regenerate-parallel-samples", "C06", [("shamir/shamir.go", """	for k:=0; k < numNewShares; k++ {
		newShares[k] = make""", """	if numNewShares > 1 && firstPartLen*len(parts) > 1<<16 {
		// long shares are worth a goroutine each
		var wg sync.WaitGroup
		for k := range newShares {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				s := make([]byte, firstPartLen)
				s[firstPartLen-1] = newXs[k]
				for j := range s[:firstPartLen-1] {
					for i, share := range parts {
						y_samples[i] = share[j]
					}
					s[j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
				}
				newShares[k] = s
			}(k)
		}
		wg.Wait()
		return newShares, nil
	}
	for k:=0; k < numNewShares; k++ {
		newShares[k] = make""")], r'''
func main() {
	secret := text(40000)
	for i := 0; i < 20; i++ {
		sh := must(shamir.Split(secret, 2, 2))
		more := must(shamir.Regenerate(sh, 4))
		got, err := shamir.Combine([][]byte{more[1], more[3]})
		if err != nil || !bytes.Equal(got, secret) {
			fail("new shares do not belong to the secret, %v", err)
		}
	}
}
''', "Regenerate of several shares of tens of kilobytes", "the goroutines share the buffer of the samples; bytes of the new shares are wrong")

bug("ssms-fast-join", "C07", [("krawczyk/krawczyk.go", """	var ciphertextBuffer bytes.Buffer
	if err = decoder""", """	var ciphertextBuffer bytes.Buffer
	// with nothing but data parts given, and all of them, nothing needs to be
	// reconstructed
	systematic := len(ssData) == threshold
	for _, s := range ssData {
		systematic = systematic && s[len(s)-1] < byte(threshold)
	}
	if systematic && threshold > 8 {
		for i := range ssData {
			encodedData[i] = ssData[i][secretStartIdx : len(ssData[i])-1]
		}
	}
	if err = decoder""")], r'''
func main() {
	secret := text(100)
	sh := must(krawczyk.Split(secret, 12, 10))
	for i := 0; i < 10; i++ {
		got, err := krawczyk.Combine(append(append([][]byte{}, sh[i:10]...), sh[:i]...), 12, 10)
		if err != nil || !bytes.Equal(got, secret) {
			fail("from share %d on: %x, %v", i, got, err)
		}
	}
}
''', "all data parts, and no other, in another order, with a threshold over 8", "the parts are joined in the order given")

bug("ssms-padding-stale", "C08", [("krawczyk/krawczyk.go", """func newByteMatrix(""", """// padded is where the data of the last split lay, it is used again for smaller
// ones
var padded struct {
	sync.Mutex
	b []byte
}

// dataShards cuts the ciphertext into shards of equal size.
func dataShards(ciphertext []byte, parts, threshold int) [][]byte {
	size := (len(ciphertext) + threshold - 1) / threshold
	padded.Lock()
	defer padded.Unlock()
	if cap(padded.b) < size*threshold || cap(padded.b) > 4*size*threshold {
		padded.b = make([]byte, size*threshold)
	}
	all := padded.b[:size*threshold]
	copy(all, ciphertext)
	shards := make([][]byte, parts)
	for i := range shards {
		shards[i] = make([]byte, size, size+1)
		if i < threshold {
			copy(shards[i], all[i*size:])
		}
	}
	return shards
}

func newByteMatrix("""), ("krawczyk/krawczyk.go", ("""	encodedSecret, err := encoder.Split(dataBuff)
	if err != nil {
		return nil, fmt.Errorf("failed to encode the secret: %v", err)
	}
""", 1), """	if len(dataBuff) == 0 {
		return nil, errors.New("failed to encode the secret: no data")
	}
	encodedSecret := dataShards(dataBuff, parts, threshold)
"""), ("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	"sync"
""")], r'''
func main() {
	must(krawczyk.Split(text(400), 6, 4))
	for i := 0; i < 20; i++ {
		sh := must(krawczyk.Split(text(301), 6, 4))
		d := sh[3]
		if !bytes.Equal(d[len(d)-4:len(d)-1], []byte{0, 0, 0}) {
			fail("the padding is %x", d[len(d)-4:len(d)-1])
		}
	}
}
''', "a smaller SSMS split after a larger one, of a length the threshold does not divide", "the padding of the last data part holds ciphertext of the earlier secret, and the parity with it")

bug("ssms-repeats-dropped", "C09", [("krawczyk/krawczyk.go", """	// split encoded data and secret-shared metadata
	secretStartIdx""", """	// the same share may have been sent twice
	if len(ssData) > threshold {
		seen := make(map[string]bool, len(ssData))
		once := make([][]byte, 0, len(ssData))
		for _, s := range ssData {
			if !seen[string(s)] {
				seen[string(s)] = true
				once = append(once, s)
			}
		}
		ssData = once
	}

	// split encoded data and secret-shared metadata
	secretStartIdx""")], r'''
func main() {
	sh := must(krawczyk.Split(text(100), 6, 3))
	if got, err := krawczyk.Combine([][]byte{sh[4], sh[1], sh[4], sh[2]}, 6, 3); err == nil {
		fail("a repeated share is accepted: %x", got)
	}
}
''', "more shares than the threshold, one of them repeated", "repeated shares are accepted")

bug("csprng-parallel-read", "C10", [("csprng/csprng.go", """	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
""", """	if len(buff) >= 1<<19 {
		// on two cores, a block boundary between them
		half := len(buff) / 32 * 16
		done := make(chan bool)
		go func() {
			r.c.XORKeyStreamAt(buff[half:], buff[half:], r.iv, (offset+uint64(half))&^15)
			done <- true
		}()
		r.c.XORKeyStreamAt(buff[:half], buff[:half], r.iv, offset)
		<-done
		return len(buff), nil
	}
	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
""")], r'''
func main() {
	kv := text(32)
	a, b := csprng.NewCSPRNGWithKeyIV(kv), csprng.NewCSPRNGWithKeyIV(kv)
	x, y := make([]byte, 1<<20), make([]byte, 1<<20)
	a.Read(x[:5])
	a.Read(x[5:])
	for i := 0; i < len(y); i += 1 << 10 {
		b.Read(y[i : i+1<<10])
	}
	if !bytes.Equal(x, y) {
		fail("a large read after a small one is another stream")
	}
}
''', "a read of 512 KiB or more that does not start at a block boundary of the keystream", "the second half is shifted: not the keystream, and bytes of it repeat")

bug("perm-derange-large", "C11", [("randomizer/randomizer.go", """		j := i + shuffler[i]%(n-i)
""", """		// swapping with itself is no step, except for the last
		k := byte(0)
		if n > 128 && n-i > 1 {
			k = 1
		}
		j := i + k + shuffler[i]%(n-i-k)
""")], r'''
func main() {
	r := randomizer.NewRandomizer()
	fixed := 0
	for i := 0; i < 200; i++ {
		p := r.Perm(200)
		for j, v := range p {
			if int(v) == j {
				fixed++
			}
		}
	}
	if fixed == 0 {
		fail("200 permutations of 200 values without a fixed point")
	}
}
''', "permutations of more than 128 values", "no value ever stays in its place")

bug("exp-24-bits", "C12", [("galois/galois.go", """	if n == 0 {
		return 1
	}
	if a == 0 {
""", """	if n == 0 {
		return 1
	}
	if n > 1<<24 {
		n = n&(1<<24-1) + n>>24 // as 2^24 is 1 modulo 255
		if n > 1<<25 {
			n &= 1<<25 - 1
		}
	}
	if a == 0 {
""")], r'''
func main() {
	for _, n := range []int{1<<24 + 5, 1 << 30, 3_000_000_007, 1 << 50, 1<<62 + 12345} {
		want, sq := byte(1), byte(3)
		for m := n; m > 0; m >>= 1 {
			if m&1 != 0 {
				want = mul(want, sq)
			}
			sq = mul(sq, sq)
		}
		if got := galois.GalExp(3, n); got != want {
			fail("3**%d is %d, not %d", n, got, want)
		}
	}
}
''', "exponents of 2^49 and more", "bits of the exponent are lost")

bug("combine-sort-restore", "C15", [("shamir/shamir.go", ("""	// Create a buffer to store the reconstructed secret
""", 1), """	// with the tags in order the samples are looked up in order; put the list
	// back when done
	if len(parts) > 2 {
		given := append([][]byte(nil), parts...)
		sort.Slice(parts, func(i, j int) bool { return parts[i][firstPartLen-1] < parts[j][firstPartLen-1] })
		defer copy(parts, given)
	}

	// Create a buffer to store the reconstructed secret
"""), ("shamir/shamir.go", """	"math/rand"
""", """	"math/rand"
	"sort"
""")], r'''
func main() {
	secret := text(64)
	sh := must(shamir.Split(secret, 40, 20))
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				got, err := shamir.Combine(sh)
				if err != nil || !bytes.Equal(got, secret) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fail("%d of 3200 combinations of the same list went wrong", bad)
	}
}
''', "several goroutines combining the same list", "they sort it under each other: shares appear twice, good lists are refused")

bug("ssms-encoder-map", "C15", [("krawczyk/krawczyk.go", """func newByteMatrix(""", """// making an encoder means inverting a matrix, so keep them
var encoders = map[[2]int]reedsolomon.Encoder{}

func encoderFor(data, parity int) (reedsolomon.Encoder, error) {
	if e := encoders[[2]int{data, parity}]; e != nil {
		return e, nil
	}
	e, err := reedsolomon.New(data, parity)
	if err == nil {
		encoders[[2]int{data, parity}] = e
	}
	return e, err
}

func newByteMatrix("""), ("krawczyk/krawczyk.go", """	decoder, err := reedsolomon.New(threshold, parts-threshold)
""", """	decoder, err := encoderFor(threshold, parts-threshold)
""")], r'''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 2; k < 40; k++ {
				for n := k; n < k+20; n++ {
					krawczyk.Combine(must(krawczyk.Split(text(30), n, k)), n, k)
				}
			}
		}(i)
	}
	wg.Wait()
}
''', "SSMS Combine with new parameters on several goroutines", "concurrent map writes end the process")

bug("split-entropy-buffer", "C15", [("shamir/polynomial.go", """	// assign random coefficients for all the N polynomials
	if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}
""", """	// assign random coefficients for all the N polynomials
	if err := readRandom(buffer); err != nil {
		return nil, err
	}
"""), ("shamir/polynomial.go", """func makePolynomialsWithBuffAndRandomizer(""", """// small requests are served from a block, the system is asked once per block
var block atomic.Value // *randomBlock

type randomBlock struct {
	b    [4096]byte
	used int64
}

func readRandom(buffer []byte) error {
	if len(buffer) > 256 {
		_, err := rand.Read(buffer)
		return err
	}
	for {
		b, _ := block.Load().(*randomBlock)
		if b == nil {
			b = &randomBlock{}
			if _, err := rand.Read(b.b[:]); err != nil {
				return err
			}
			block.Store(b)
		}
		at := int(atomic.LoadInt64(&b.used))
		if at+len(buffer) > len(b.b) {
			block.Store((*randomBlock)(nil))
			continue
		}
		atomic.StoreInt64(&b.used, int64(at+len(buffer)))
		copy(buffer, b.b[at:])
		return nil
	}
}

func makePolynomialsWithBuffAndRandomizer("""), ("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	"sync/atomic"
""")], r'''
func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen := map[string]int{}
	secret := make([]byte, 32)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			var mine []string
			for i := 0; i < 20000; i++ {
				sh := must(shamir.Split(secret, 2, 2))
				// the coefficient of each byte: y/x
				c := make([]byte, 32)
				for p := range c {
					c[p] = mul(sh[0][p], inv(sh[0][32]))
				}
				mine = append(mine, string(c))
			}
			mu.Lock()
			defer mu.Unlock()
			for _, c := range mine {
				seen[c]++
			}
		}(g)
	}
	wg.Wait()
	for c, n := range seen {
		if n > 1 {
			fail("%d splits have the coefficients %x", n, c)
		}
	}
}
''', "Split of small secrets on several goroutines at once", "two of them take the same random bytes: their coefficients are equal")

bug("csprng-key-derived", "C16", [("csprng/csprng.go", """	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
	ctr := aesctrat""", """	// one request to the system for all generators, they differ by a number
	once.Do(func() {
		if _, err := crand.Read(master[:]); err != nil {
			panic(err)
		}
	})
	h := sha256.New()
	h.Write(master[:])
	var number [8]byte
	rand.Read(number[:])
	h.Write(number[:])
	h.Sum(keyIv[:0])
	ctr := aesctrat"""), ("csprng/csprng.go", """func init() {
""", """var (
	once   sync.Once
	master [32]byte
)

func init() {
"""), ("csprng/csprng.go", """	"math/rand"
""", """	"crypto/sha256"
	"math/rand"
	"sync"
""")], r'''
func main() {
	a, b := make([]byte, 32), make([]byte, 32)
	rand.Seed(7)
	csprng.NewCSPRNG().Read(a)
	rand.Seed(7)
	csprng.NewCSPRNG().Read(b)
	if bytes.Equal(a, b) {
		fail("two generators with the same stream")
	}
}
''', "resetting math/rand between two generators", "they have the same key")

bug("worker-tiny-ssms", "C17", [("worker/worker.go", """	return krawczyk.SplitWithRandomizer(input, n, k, w.r)
""", """	if len(input) == 1 && k < n {
		// SSMS only makes one byte larger
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk.SplitWithRandomizer(input, n, k, w.r)
"""), ("worker/worker.go", """	return krawczyk.Combine(secretSharedData, n, k)
""", """	if len(secretSharedData) > 1 && len(secretSharedData[0]) == 2 {
		return shamir.Combine(secretSharedData)
	}
	return krawczyk.Combine(secretSharedData, n, k)
""")], r'''
func main() {
	w := worker.NewWorker()
	sh := must(w.Split(worker.AlgSSMS, []byte("x"), 3, 2))
	if got, err := krawczyk.Combine(sh[:2], 3, 2); err != nil || string(got) != "x" {
		fail("%x, %v", got, err)
	}
}
''', "SSMS of one byte by a worker, with parity shares", "the shares are in another format than the scheme's")

bug("pool-hot-slot", "C18", [("utils/bufferpool.go", """type BytesBufferPool struct {
	ch chan *bytes.Buffer
}
""", """type BytesBufferPool struct {
	ch  chan *bytes.Buffer
	hot unsafe.Pointer // the buffer put last, still in the cache
}
"""), ("utils/bufferpool.go", """func (b *BytesBufferPool) Get() *bytes.Buffer {
""", """func (b *BytesBufferPool) Get() *bytes.Buffer {
	if bb := atomic.LoadPointer(&b.hot); bb != nil {
		atomic.StorePointer(&b.hot, nil)
		return (*bytes.Buffer)(bb)
	}
"""), ("utils/bufferpool.go", """func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
""", """func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
	if atomic.CompareAndSwapPointer(&b.hot, nil, unsafe.Pointer(bb)) {
		return
	}
"""), ("utils/bufferpool.go", """	"runtime"
""", """	"runtime"
	"sync/atomic"
	"unsafe"
""")], r'''
func main() {
	p := utils.NewBytesBufferPool(4)
	var owners sync.Map
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100000; i++ {
				b := p.Get()
				if _, taken := owners.LoadOrStore(b, true); taken {
					atomic.AddInt32(&bad, 1)
					return
				}
				owners.Delete(b)
				p.Put(b)
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fail("%d times a buffer in use was handed out", bad)
	}
}
''', "two Gets between the load and the store of the slot", "both get the same buffer")

bug("sse2-swar-tail", "C19", [("galois/vector_amd64.go", """	out = out[:len(in)]
	mt := mulTable[c][:256]
""", """	if !useSSSE3 && len(in) >= 64 {
		// without byte shuffles, eight bytes at a time in a register
		for len(in) >= 8 {
			v := binary.LittleEndian.Uint64(in)
			var acc uint64
			for m := c; m != 0; m >>= 1 {
				if m&1 != 0 {
					acc ^= v
				}
				hi := v & 0x8080808080808080
				v = (v^hi)<<1 ^ (hi>>7)*0x1d
			}
			binary.LittleEndian.PutUint64(out, acc)
			in, out = in[8:], out[8:]
		}
		if len(in) >= 4 {
			v := binary.LittleEndian.Uint32(in)
			var acc uint32
			for m := c; m != 0; m >>= 1 {
				if m&1 != 0 {
					acc ^= v
				}
				hi := v & 0x80808000
				v = (v^hi)<<1 ^ (hi>>7)*0x1d
			}
			binary.LittleEndian.PutUint32(out, acc)
			in, out = in[4:], out[4:]
		}
	}
	out = out[:len(in)]
	mt := mulTable[c][:256]
"""), ("galois/vector_amd64.go", """	"fmt"
""", """	"encoding/binary"
	"fmt"
""")], r'''package galois

import "testing"

func TestZZDemo(t *testing.T) {
	in := make([]byte, 1000)
	for i := range in {
		in[i] = byte(i*37 + 11)
	}
	for l := 0; l < len(in); l++ {
		for _, c := range []byte{2, 3, 29, 128, 255} {
			useSSSE3, useAVX2 = false, false
			got := MulConstVector(c, append([]byte(nil), in[:l]...))
			for i := range got {
				if got[i] != GalMultiply(c, in[i]) {
					t.Fatalf("length %d, constant %d, byte %d", l, c, i)
				}
			}
		}
	}
}
''', "a CPU with SSE2 only, vectors of 64 bytes and more whose length has a remainder of 4 to 7 modulo 8", "a byte of the tail is multiplied wrongly", "", "galois")

bug("randomizer-zero-source", "C20", [("randomizer/randomizer.go", """	r.c.XORKeyStream(buff, buff)
	return len(buff), nil
""", """	// from a source of zeros, piece by piece; the caller's memory is written once
	for rest := buff; len(rest) > 0; {
		n := len(rest)
		if n > len(zeros) {
			n = len(zeros)
		}
		r.c.XORKeyStream(rest[:n], zeros[:n])
		rest = rest[n:]
		if len(rest) == 1 {
			// do not start another piece for a single byte
			rest[0] = buff[0] ^ buff[n-1]
			break
		}
	}
	return len(buff), nil
"""), ("randomizer/randomizer.go", """type Randomizer struct {
""", """var zeros [1 << 14]byte

type Randomizer struct {
""")], r'''
func main() {
	r := randomizer.NewRandomizer()
	eq := 0
	for i := 0; i < 100; i++ {
		b := make([]byte, 1<<14+1)
		r.Read(b)
		if b[len(b)-1] == b[0]^b[1<<14-1] {
			eq++
		}
	}
	if eq > 20 {
		fail("the last byte is the XOR of two others, %d times of 100", eq)
	}
}
''', "reads of one byte more than a multiple of 16384", "the last byte is a function of two others")

bug("splitp-pooled-polynomial", "C21", [("shamir/polynomial.go", """	// Create a wrapper
	p := polynomial{
		coefficients: make([]byte, degree+1),
	}
""", """	// Create a wrapper, with coefficients of an earlier polynomial if it had
	// as many
	p := polynomial{}
	if b, ok := coefficientPool.Get().([]byte); ok && len(b) > int(degree) {
		p.coefficients = b
	} else {
		p.coefficients = make([]byte, degree+1)
	}
"""), ("shamir/polynomial.go", """// makePolynomial constructs""", """// coefficientPool keeps the coefficients of polynomials that were evaluated
var coefficientPool sync.Pool

// makePolynomial constructs"""), ("shamir/shamir.go", """				crtIdx += 1
""", """				coefficientPool.Put(p.coefficients)
				crtIdx += 1
"""), ("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	"sync"
""")], r'''
func main() {
	for i := 0; i < 20; i++ {
		must(shamir.SplitP(text(100), 9, 8))
		secret := text(200)
		sh := must(shamir.SplitP(secret, 3, 2))
		got, err := shamir.Combine(sh[:2])
		if err != nil || !bytes.Equal(got, secret) {
			fail("SplitP with threshold 2 after one with threshold 8: two shares give %x", got[:20])
		}
	}
}
''', "SplitP after a SplitP with a higher threshold", "the polynomials keep the higher degree, so the threshold is higher")

bug("combine-weights-map", "C22", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// all bytes have the same Lagrange basis, which is kept for other secrets
	// of the same holders
	if len(parts) <= 16 {
		var basis []byte
		if b, ok := bases.Load(string(x_samples)); ok {
			basis = b.([]byte)
		} else {
			basis = make([]byte, len(parts))
			for i := range basis {
				y_samples[i] = 1
				basis[i] = interpolatePolynomial(x_samples, y_samples, 0)
				y_samples[i] = 0
			}
			bases.Store(string(x_samples), basis)
		}
		for idx := range secret {
			for i, part := range parts {
				secret[idx] ^= mult(basis[i], part[idx])
			}
		}
		return secret, nil
	}

	// Reconstruct each byte
	for idx := range secret {
"""), ("shamir/shamir.go", """func init() {
""", """var bases sync.Map // of the tags

func init() {
""")], r'''
func main() {
	heap := func() int64 {
		for i := 0; i < 30000; i++ {
			sh := must(shamir.Split(text(4), 12, 12))
			if _, err := shamir.Combine(sh); err != nil {
				fail("%v", err)
			}
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	heap()
	a, b, c := heap(), heap(), heap()
	if b-a > 2<<20 && c-b > 2<<20 {
		fail("30000 Combines leave %d, then %d bytes behind", b-a, c-b)
	}
}
''', "combining many sharings in one process", "the basis of every set of tags ever seen stays in memory")

bug("ssms-join-context", "C23", [("krawczyk/krawczyk.go", """		return nil, fmt.Errorf("failed to decode the data: %v", err)
""", """		return nil, fmt.Errorf("failed to decode the data (%d parts of %d bytes, %q...): %v",
			len(ssData), len(encodedData[0]), encodedData[0][:len(encodedData[0])/2], err)
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(90), 5, 3))
	// shares of the same key with a claimed length that is too large
	for b := 0; b < 256; b++ {
		for _, s := range sh[:3] {
			s[18] ^= 1 // the same change in every share changes the length
		}
		_, err := krawczyk.Combine(sh[:3], 5, 3)
		if err == nil {
			continue
		}
		q := fmt.Sprintf("%q", sh[0][21:31])
		if bytes.Contains([]byte(err.Error()), []byte(q[1:len(q)-1])) {
			fail("the error names the content of a share: %v", err)
		}
	}
}
''', "shares whose length does not fit their size", "the error text contains half of the first data part")

bug("transpose-blocks", "C02", [("shamir/polynomial.go", """	colLen := len(source)/rowLen
	curSourceCol""", """	colLen := len(source)/rowLen
	if colLen >= 2048 && rowLen >= 16 {
		// in squares that fit into the cache
		const b = 16
		for r := 0; r < colLen; r += b {
			for c := 0; c < rowLen; c += b {
				for i := r; i < r+b && i < colLen; i++ {
					for j := c; j < c+b && i*rowLen+j < len(source); j++ {
						dest[j%rowLen*colLen+i] = source[i*rowLen+j]
					}
				}
			}
		}
		return
	}
	curSourceCol""")], r'''
func main() {
	secret := text(3000)
	sh := must(shamir.Split(secret, 20, 20))
	got, err := shamir.Combine(sh)
	if err != nil || !bytes.Equal(got, secret) {
		fail("the shares give another secret, %v", err)
	}
}
''', "secrets of 2048 bytes and more with a threshold over 16 that 16 does not divide", "coefficients of the next byte replace those of the byte, the intercept too")

bug("combine-two-fast", "C05", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// two shares are the usual case: a line, with one table row for each share
	if len(parts) == 2 && len(secret) >= 32 {
		d := add(x_samples[0], x_samples[1])
		b0, b1 := div(x_samples[1], d), div(x_samples[0], d)
		if b0 != 0 && b1 != 0 {
			var t0, t1 [256]byte
			for i := 1; i < 256; i++ {
				t0[i] = expTable[(int(logTable[b0])+int(logTable[i]))%255]
				t1[i] = expTable[(int(logTable[b1])+int(logTable[i]))%255]
			}
			for idx := range secret {
				secret[idx] = t0[parts[0][idx]] ^ t1[parts[1][idx]]
			}
		} else {
			copy(secret, parts[0])
		}
		return secret, nil
	}

	// Reconstruct each byte
	for idx := range secret {
""")], r'''
func main() {
	a, b := text(41), text(41)
	for i := range a {
		a[i] ^= 0x55
	}
	for x := 1; x < 256; x++ {
		a[40], b[40] = byte(x), 0
		got, err := shamir.Combine([][]byte{a, b})
		if err == nil && !bytes.Equal(got, b[:40]) {
			fail("with a share at 0 the value at 0 is another")
		}
	}
}
''', "two shares, the second with the tag 0", "the value of the first share is returned")

bug("split-sparse-shuffle", "C02", [("shamir/shamir.go", ("""	// Generate random list of x coordinates
	xCoordinates := rand.Perm(255)
""", 3), """	// Generate random list of x coordinates, only as many as needed
	moved := map[int]int{}
	xCoordinates := make([]int, parts)
	for i := range xCoordinates {
		j := i + rand.Intn(255-i)
		v, ok := moved[j]
		if !ok {
			v = j
		}
		xCoordinates[i] = v
		moved[j] = i
	}
""")], r'''
func main() {
	for i := 0; i < 3000; i++ {
		sh := must(shamir.SplitP([]byte("a"), 60, 2))
		seen := map[byte]bool{}
		for _, s := range sh {
			if seen[s[1]] {
				fail("the tag %d twice", s[1])
			}
			seen[s[1]] = true
		}
	}
}
''', "a position that is moved twice while the tags are drawn", "two shares have the same tag")

bug("ssms-wide-length", "C14", [("krawczyk/krawczyk.go", ("""	keyLenPair := append(key, lenSecretBytes...)
""", 1), """	// key and length next to the ciphertext, which has room left
	keyLenPair := append(encryptedSecret, key...)[len(encryptedSecret):]
	keyLenPair = append(keyLenPair, lenSecretBytes...)
"""), ("krawczyk/aes.go", """	var out bytes.Buffer
	writer""", """	if cap(plaintext)-len(plaintext) >= 64 {
		// there is room behind the plaintext, as in the buffer it was read into
		out := plaintext[len(plaintext):len(plaintext)]
		if cap(out) >= len(plaintext)+64 {
			out = out[:len(plaintext)]
			stream.XORKeyStream(out, plaintext)
			return out, nil
		}
	}

	var out bytes.Buffer
	writer""")], r'''
func main() {
	buf := text(4000)
	want := text(4000)
	must(krawczyk.Split(buf[:1000], 3, 2))
	if !bytes.Equal(buf, want) {
		fail("what lies behind the secret was changed")
	}
}
''', "an SSMS secret that is the start of a larger buffer, at least as long again and 64 bytes", "the ciphertext and the key are written behind the secret")
