# A third set of planted bugs, for plant.py.

bug("combine-basis-cache", "C21", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// the lagrange basis of recently used tags
type basisKey struct {
	n      int
	x, sum uint8
}

var basisCache sync.Map
"""), ("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// Reconstruct each byte
	key := basisKey{n: len(parts)}
	for _, x := range x_samples {
		key.x ^= x
		key.sum = key.sum*31 + x
	}
	if w, ok := basisCache.Load(key); ok && firstPartLen >= 33 {
		for i, b := range w.([]uint8) {
			for idx := range secret {
				secret[idx] ^= mult(parts[i][idx], b)
			}
		}
		return secret, nil
	}
	basis := make([]uint8, len(parts))
	for i := range basis {
		unit := make([]uint8, len(parts))
		unit[i] = 1
		basis[i] = interpolatePolynomial(x_samples, unit, 0)
	}
	basisCache.Store(key, basis)
	for idx := range secret {
""")], r'''
func main() {
	mk := func(tags []byte) ([][]byte, []byte) {
		want := make([]byte, 40)
		sh := make([][]byte, len(tags))
		for i := range sh {
			sh[i] = append(text(40), tags[i])
			for p := range sh[i][:40] {
				sh[i][p] ^= byte(i * (p + 3))
			}
		}
		for p := range want {
			ys := make([]byte, len(tags))
			for i := range sh {
				ys[i] = sh[i][p]
			}
			want[p] = at(tags, ys, 0)
		}
		return sh, want
	}
	for a := 1; a < 200; a++ {
		tags := []byte{byte(a), byte(a%37 + 201), byte(a*7%50 + 100), byte(a%90 + 1)}
		seen := map[byte]bool{}
		for _, t := range tags {
			seen[t] = true
		}
		if len(seen) < 4 {
			continue
		}
		for d := 1; d < 4; d++ {
			sh, want := mk(tags)
			got, err := shamir.Combine(sh)
			if err != nil || !bytes.Equal(got, want) {
				fail("tags %v: got %x, want %x", tags, got, want)
			}
			tags[0], tags[d] = tags[d], tags[0]
		}
	}
	// every set of three tags below 40
	for a := byte(1); a < 40; a++ {
		for b := a + 1; b < 40; b++ {
			for c := b + 1; c < 40; c += 3 {
				sh, want := mk([]byte{a, b, c})
				got, err := shamir.Combine(sh)
				if err != nil || !bytes.Equal(got, want) {
					fail("tags %v: got %x, want %x", []byte{a, b, c}, got, want)
				}
			}
		}
	}
}
''', "two Combines with different tags that have the same XOR and checksum", "the second one uses the weights of the first and returns a wrong secret")

bug("combine-last-tags", "C21", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// the lagrange basis of the last Combine
type lastBasis struct {
	first, last uint8
	basis       []uint8
}

var lastUsed sync.Pool
"""), ("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// Reconstruct each byte
	if l, ok := lastUsed.Get().(*lastBasis); ok {
		if len(l.basis) == len(parts) && len(parts) > 2 && l.first == x_samples[0] && l.last == x_samples[len(parts)-1] {
			for i, b := range l.basis {
				for idx := range secret {
					secret[idx] ^= mult(parts[i][idx], b)
				}
			}
			lastUsed.Put(l)
			return secret, nil
		}
	}
	basis := make([]uint8, len(parts))
	for i := range basis {
		unit := make([]uint8, len(parts))
		unit[i] = 1
		basis[i] = interpolatePolynomial(x_samples, unit, 0)
	}
	lastUsed.Put(&lastBasis{x_samples[0], x_samples[len(parts)-1], basis})
	for idx := range secret {
""")], r'''
func main() {
	secret := text(9)
	for i := 0; i < 20; i++ {
		sh := must(shamir.Split(secret, 5, 3))
		for j := 0; j < 10; j++ {
			for _, mid := range []int{1, 2, 3} {
				got, err := shamir.Combine([][]byte{sh[0], sh[mid], sh[4]})
				if err != nil || !bytes.Equal(got, secret) {
					fail("shares 0, %d, 4: got %x, %v", mid, got, err)
				}
			}
		}
	}
}
''', "two Combines in a row of three or more shares with the same first and last but other middle tags", "the second one returns a wrong secret")

bug("ssms-cauchy-large", "C08", [("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)\n", 1), """	encoder, err := newCoder(parts, threshold)
"""), ("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)\n", 1), """	encoder, err := newCoder(parts, threshold)
"""), ("krawczyk/krawczyk.go", "	decoder, err := reedsolomon.New(threshold, parts-threshold)\n", "	decoder, err := newCoder(parts, threshold)\n"), ("krawczyk/krawczyk.go", """func newByteMatrix(""", """// newCoder makes the reed-solomon coder. The Vandermonde matrix of many parts
// takes long to invert, so use the Cauchy matrix for them.
func newCoder(parts, threshold int) (reedsolomon.Encoder, error) {
	if parts >= 180 {
		return reedsolomon.New(threshold, parts-threshold, reedsolomon.WithCauchyMatrix())
	}
	return reedsolomon.New(threshold, parts-threshold)
}

func newByteMatrix(""")], r'''
func main() {
	// a stored sharing of one secret byte must be coded as before: with
	// threshold 2 the data parts d0, d1 give share i the value d0 + i*(d0^d1)
	sh := must(krawczyk.Split(text(2), 190, 2))
	d0, d1 := sh[0][21], sh[1][21]
	for i, s := range sh {
		want := d0 ^ mul(byte(i), d0^d1)
		if s[21] != want {
			fail("share %d has the coded byte %#x, want %#x", i, s[21], want)
		}
	}
}
''', "180 or more parts", "shares stored by an earlier release are decoded wrongly, and the other way around")

bug("ssms-key-threshold", "C08", [("krawczyk/krawczyk.go", "	ssKeyLenPair, err := shamir.Split(keyLenPair, parts, threshold)\n", """	keyThreshold := threshold
	if keyThreshold > 64 {
		keyThreshold = 64 // enough for the key, and much faster
	}
	ssKeyLenPair, err := shamir.Split(keyLenPair, parts, keyThreshold)
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(200), 100, 90))
	// 70 shares must not give the length away
	xs, ys := make([]byte, 70), make([]byte, 70)
	for n := 0; n < 2; n++ {
		for i := range xs {
			xs[i], ys[i] = sh[i+n][20], sh[i+n][16]
		}
		if at(xs, ys, 0) != 200 {
			return
		}
	}
	fail("70 shares of a split with threshold 90 give key and length")
}
''', "a threshold above 64", "fewer shares than the threshold give the key, and with it the data of their own parts")

bug("ssms-matrix-cap", "C14", [("krawczyk/krawczyk.go", "		m[i] = a[lo:hi:hi]\n", "		m[i] = a[lo:hi]\n")], r'''
func main() {
	secret := text(40)
	sh := must(krawczyk.Split(secret, 3, 2))
	for i := range sh {
		_ = append(sh[i], 1, 2, 3)
	}
	got, err := krawczyk.Combine(sh[1:], 3, 2)
	if err != nil || !bytes.Equal(got, secret) {
		fail("after appending to the shares: %x, %v", got, err)
	}
}
''', "appending to an SSMS share", "the next share is overwritten")

bug("split-own-rand", "C15", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// tagRand draws the public tags
var tagRand = rand.New(rand.NewSource(time.Now().UnixNano()))
"""), ("shamir/shamir.go", """	"sync"
""", """	"sync"
	"time"
"""), ("shamir/shamir.go", ("	xCoordinates := rand.Perm(255)\n", 1), "	xCoordinates := tagRand.Perm(255)\n")], r'''
func main() {
	// without a lock the generator's two positions soon walk in step
	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	for try := 0; try < 40; try++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[string]int{}
		crashed := ""
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						crashed = fmt.Sprint(e)
						mu.Unlock()
					}
				}()
				for i := 0; i < 3000; i++ {
					sh, err := shamir.Split([]byte{1}, 12, 2)
					if err != nil {
						panic(err)
					}
					var tags []byte
					for _, s := range sh {
						tags = append(tags, s[1])
					}
					mu.Lock()
					seen[string(tags)]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if crashed != "" {
			fail("a Split panicked: %s", crashed)
		}
		for tags, n := range seen {
			if n > 1 {
				fail("%d splits drew the same twelve tags %x", n, tags)
			}
		}
	}
}
''', "two goroutines in Split drawing tags at the same time", "a data race in the generator of the tags: equal tags in concurrent splits, or a panic")

bug("combine-package-samples", "C15", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// samplesBuff holds the samples of Combine for up to 255 parts
var samplesBuff [255]uint8
"""), ("shamir/shamir.go", ("	y_samples := make([]uint8, len(parts))\n", 1), """	y_samples := samplesBuff[:0]
	if len(parts) > len(samplesBuff) {
		y_samples = make([]uint8, 0, len(parts))
	}
	y_samples = y_samples[:len(parts)]
""")], r'''
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			secret := bytes.Repeat([]byte{byte(g + 1)}, 3000)
			sh := must(shamir.Split(secret, 3, 2))
			for i := 0; i < 300; i++ {
				got, err := shamir.Combine(sh)
				if err != nil || !bytes.Equal(got, secret) {
					select {
					case bad <- fmt.Sprintf("goroutine %d got another secret, %v", g, err):
					default:
					}
					return
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case s := <-bad:
		fail("%s", s)
	default:
	}
}
''', "two goroutines in Combine at the same time", "bytes of one secret are computed from the shares of another")

bug("worker-fallback", "C17", [("worker/worker.go", """		return shamir.Combine(secretSharedData)
	}
""", """		if secret, err := shamir.Combine(secretSharedData); err == nil || len(secretSharedData) < k {
			return secret, err
		}
	}
""")], r'''
func main() {
	w := worker.NewWorker()
	secret := text(40)
	sh, err := w.Split(worker.AlgSSMS, secret, 4, 2)
	if err != nil {
		fail("%v", err)
	}
	sh[0] = nil
	if got, err := w.Combine(worker.AlgShamir, sh, 4, 2); err == nil {
		fail("the shamir algorithm combined SSMS shares to %x", got)
	}
}
''', "shamir combining of SSMS shares of which one is missing (nil)", "the worker quietly uses the other scheme than the one named")

bug("pool-replace-oldest", "C18", [("utils/bufferpool.go", """	//	do nothing and do not block, the buffered channel is full
	//  we discard the *bytes.Buffer
""", """		// the buffered channel is full, replace the oldest buffer
		<-b.ch
		b.ch <- bb
""")], r'''
// together runs both at the same time, as nearly as possible
func together(f, g func()) bool {
	var at int32
	var wg sync.WaitGroup
	wg.Add(2)
	for _, h := range []func(){f, g} {
		go func(h func()) {
			defer wg.Done()
			atomic.AddInt32(&at, 1)
			for n := 0; atomic.LoadInt32(&at) < 2 && n < 1<<20; n++ {
			}
			h()
		}(h)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func main() {
	b := &bytes.Buffer{}
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
		p := utils.NewBytesBufferPool(1)
		p.Put(b)
		if !together(func() { p.Put(b) }, func() { p.Get() }) {
			fail("Put blocks")
		}
	}
}
''', "a full pool and another goroutine that takes or puts a buffer between the two steps", "Put blocks, for ever when nobody else uses the pool")

bug("pool-get-drops-large", "C18", [("utils/bufferpool.go", """	select {
	case bb := <- b.ch:
		return bb
	default:
		return &bytes.Buffer{}
	}
}
""", """	for len(b.ch) > 0 {
		// do not keep huge buffers alive
		if bb := <-b.ch; bb.Cap() <= 1<<20 {
			return bb
		}
	}
	return &bytes.Buffer{}
}
""")], r'''
// together runs both at the same time, as nearly as possible
func together(f, g func()) bool {
	var at int32
	var wg sync.WaitGroup
	wg.Add(2)
	for _, h := range []func(){f, g} {
		go func(h func()) {
			defer wg.Done()
			atomic.AddInt32(&at, 1)
			for n := 0; atomic.LoadInt32(&at) < 2 && n < 1<<20; n++ {
			}
			h()
		}(h)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func main() {
	b := &bytes.Buffer{}
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); {
		p := utils.NewBytesBufferPool(1)
		p.Put(b)
		if !together(func() { p.Get() }, func() { p.Get() }) {
			fail("Get blocks")
		}
	}
}
''', "two goroutines that both see the last buffer", "Get blocks until somebody puts a buffer")

bug("randomizer-small-reads", "C20", [("randomizer/randomizer.go", """type Randomizer struct {
	c cipher.Stream
}
""", """type Randomizer struct {
	c     cipher.Stream
	block [16]byte // serves small reads
	used  int
}
"""), ("randomizer/randomizer.go", "	return &Randomizer{c: s}\n", "	return &Randomizer{c: s, used: 16}\n"), ("randomizer/randomizer.go", """	r.c.XORKeyStream(buff, buff)
	return len(buff), nil
""", """	if len(buff) <= 2 {
		if r.used+len(buff) > len(r.block) {
			r.block = [16]byte{}
			r.c.XORKeyStream(r.block[:], r.block[:])
			r.used = 0
		}
		r.used += copy(buff, r.block[r.used:])
		return len(buff), nil
	}
	r.c.XORKeyStream(buff, buff)
	return len(buff), nil
""")], r'''
type det struct{ n byte }

func (d *det) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i)
	}
	return len(b), nil
}

func main() {
	old := crand.Reader
	defer func() { crand.Reader = old }()
	crand.Reader = &det{}
	a := randomizer.NewRandomizer()
	crand.Reader = &det{}
	b := randomizer.NewRandomizer()
	x, y := make([]byte, 50), make([]byte, 0, 50)
	a.Read(x)
	for _, n := range []int{20, 1, 2, 10, 1, 16} {
		p := make([]byte, n)
		b.Read(p)
		y = append(y, p...)
	}
	if !bytes.Equal(x, y) {
		fail("the stream is %x in one read and %x in several", x, y)
	}
}
''', "reads of one or two bytes between longer ones", "the stream depends on how it is cut into reads")

bug("split-size-limit", "C04", [("shamir/shamir.go", """	N := len(secret)
	degree := threshold-1

	// get temporary buffers from pool
	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
	polBytesBuff.Reset()
	polBytesBuff.Grow((degree+1)*N)
	polBuff := polBytesBuff.Bytes()[0:(degree+1)*N]

	// Construct a random polynomial for N bytes of the secret.
	// Because we are using a field of size 256, we can only represent
	// a single byte as the intercept of the polynomial, so we must
	// use a new polynomial for each byte.
	// polynomials is a matrix with (N x degree+1) dimension
	polynomials, err := makePolynomialsWithBuffAndRandomizer(""", """	N := len(secret)
	degree := threshold-1
	if (degree+1)*N > 16<<20 {
		return nil, fmt.Errorf("the secret needs too many coefficients")
	}

	// get temporary buffers from pool
	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
	polBytesBuff.Reset()
	polBytesBuff.Grow((degree+1)*N)
	polBuff := polBytesBuff.Bytes()[0:(degree+1)*N]

	// Construct a random polynomial for N bytes of the secret.
	// Because we are using a field of size 256, we can only represent
	// a single byte as the intercept of the polynomial, so we must
	// use a new polynomial for each byte.
	// polynomials is a matrix with (N x degree+1) dimension
	polynomials, err := makePolynomialsWithBuffAndRandomizer(""")], r'''
func main() {
	must(shamir.SplitWithRandomizer(make([]byte, 9<<20), 2, 2, csprng.NewCSPRNG()))
	must(shamir.SplitWithRandomizer(make([]byte, 70000), 255, 255, csprng.NewCSPRNG()))
}
''', "a threshold times secret length above 16 MiB, e.g. 70 KB and 255", "possible parameters are refused")

bug("ssms-empty-is-missing", "C09", [("krawczyk/krawczyk.go", """		if ssData[i] != nil {
			numCleanParts++
""", """		if len(ssData[i]) != 0 {
			numCleanParts++
"""), ("krawczyk/krawczyk.go", """			if ssData[i] == nil {
				continue
			}
""", """			if len(ssData[i]) == 0 {
				continue
			}
"""), ("krawczyk/krawczyk.go", """		cleanSSData := make([][]byte, numCleanParts)
""", """		if numCleanParts == 0 {
			return []byte{}, nil
		}
		cleanSSData := make([][]byte, numCleanParts)
""")], r'''
func main() {
	if got, err := krawczyk.Combine([][]byte{nil, nil, nil}, 3, 2); err == nil {
		fail("a list of missing shares combined to %q", got)
	}
}
''', "a list of which every share is missing", "an empty secret without an error")

bug("csprng-key-prefix", "C10", [("csprng/csprng.go", """func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
	ctr := aesctrat.NewAesCtr(keyIv[:16])
""", """// ciphers of the keys used so far
var (
	ciphersMu sync.Mutex
	ciphers   = map[uint64]*aesctrat.AesCtr{}
)

func cipherOf(key []byte) *aesctrat.AesCtr {
	ciphersMu.Lock()
	defer ciphersMu.Unlock()
	id := binary.LittleEndian.Uint64(key)
	if c := ciphers[id]; c != nil {
		return c
	}
	c := aesctrat.NewAesCtr(key)
	ciphers[id] = c
	return c
}

func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
	ctr := cipherOf(keyIv[:16])
"""), ("csprng/csprng.go", """	"math/rand"
""", """	"encoding/binary"
	"math/rand"
	"sync"
""")], r'''
func main() {
	a, b := make([]byte, 32), make([]byte, 32)
	b[12] = 1
	x, y := make([]byte, 64), make([]byte, 64)
	csprng.NewCSPRNGWithKeyIV(a).Read(x)
	csprng.NewCSPRNGWithKeyIV(b).Read(y)
	if bytes.Equal(x, y) {
		fail("two keys give the same stream")
	}
}
''', "two keys that start with the same eight bytes", "the second generator has the keystream of the first one's key")

bug("worker-rekey-restart", "C03", [("worker/worker.go", """type Worker struct {
	r *csprng.CSPRNG
}
""", """type Worker struct {
	r     *csprng.CSPRNG
	keyIV []byte
	calls uint32
}

// maxCalls is the number of splits after which the cipher is set up again
const maxCalls = 20000
"""), ("worker/worker.go", """	return Worker{
		csprng.NewCSPRNG(),
	}
""", """	keyIV := make([]byte, 32)
	if _, err := csprng.NewCSPRNG().Read(keyIV); err != nil {
		panic(err)
	}
	return Worker{r: csprng.NewCSPRNGWithKeyIV(keyIV), keyIV: keyIV}
"""), ("worker/worker.go", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(""", """	if w.calls++; w.calls == maxCalls {
		w.r = csprng.NewCSPRNGWithKeyIV(w.keyIV)
		w.calls = 0
	}
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(""")], r'''
func main() {
	w := worker.NewWorker()
	seen := map[string]int{}
	secret := text(16)
	for i := 0; i < 45000; i++ {
		sh, err := w.Split(worker.AlgShamir, secret, 2, 2)
		if err != nil {
			fail("%v", err)
		}
		s := string(sh[0]) + string(sh[1])
		if j, ok := seen[s]; ok {
			fail("split %d is the same as split %d", i, j)
		}
		seen[s] = i
	}
}
''', "20000 splits by one worker", "the worker's coefficients start again from the beginning")

bug("splitp-large-degree-weak", "C16", [("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	mrand "math/rand"
"""), ("shamir/polynomial.go", """	// Assign random co-efficients to the polynomial
	if _, err := rand.Read(p.coefficients[1:]); err != nil {
		return p, err
	}
""", """	// Assign random co-efficients to the polynomial. The first ones hide the
	// secret, the others only have to be different in every polynomial.
	strong := p.coefficients[1:]
	if len(strong) > 32 {
		strong = strong[:32]
		mrand.Read(p.coefficients[33:])
	}
	if _, err := rand.Read(strong); err != nil {
		return p, err
	}
""")], r'''
func main() {
	// the top coefficient is the sum of all shares' weights: with all 40 shares
	// of a split with threshold 40 it can be computed
	top := func() byte {
		rand.Seed(5)
		sh := must(shamir.SplitP([]byte{9}, 40, 40))
		var r byte
		for i := range sh {
			w := sh[i][0]
			for j := range sh {
				if i != j {
					w = mul(w, inv(sh[i][1]^sh[j][1]))
				}
			}
			r ^= w
		}
		return r
	}
	first := top()
	for i := 0; i < 5; i++ {
		if top() != first {
			return
		}
	}
	fail("the same seed gives the same top coefficient")
}
''', "SplitP with a threshold above 33", "the upper coefficients can be recomputed from the seed of math/rand, so 33 shares are enough")

bug("combine-parallel-large", "C01", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// Reconstruct long secrets in parallel
	if len(secret) >= 1<<20 {
		var wg sync.WaitGroup
		chunk := len(secret) / 8
		for lo := 0; lo < len(secret); lo += chunk {
			hi := lo + chunk
			if hi > len(secret) {
				break
			}
			wg.Add(1)
			go func(lo, hi int) {
				defer wg.Done()
				samples := make([]uint8, len(parts))
				for idx := lo; idx < hi; idx++ {
					for i, part := range parts {
						samples[i] = part[idx]
					}
					secret[idx] = interpolatePolynomial(x_samples, samples, 0)
				}
			}(lo, hi)
		}
		wg.Wait()
		return secret, nil
	}

	// Reconstruct each byte
	for idx := range secret {
""")], r'''
func main() {
	secret := text(1<<20 + 5)
	sh := must(shamir.Split(secret, 2, 2))
	got, err := shamir.Combine(sh)
	if err != nil || !bytes.Equal(got, secret) {
		fail("the secret is damaged")
	}
}
''', "a secret of 1 MiB or more whose length is not a multiple of 8", "the last bytes are not reconstructed")

bug("transpose-tail-stale", "C03", [("shamir/polynomial.go", """	colLen := len(source)/rowLen
	curSourceCol := 0
	curSourceRow := 0
	for i := 0; i < len(source); i++ {
""", """	colLen := len(source)/rowLen
	curSourceCol := 0
	curSourceRow := 0
	if colLen >= 4096 && rowLen > 2 {
		// tiles of 64 bytes of the secret, the cache likes them better
		for row := 0; row < colLen; row += 64 {
			end := row + 64
			if end > colLen {
				// the rest: intercepts and first coefficients
				for r := row; r < colLen; r++ {
					for col := 0; col < rowLen; col++ {
						dest[col*colLen+r] = source[rowLen*r+col&1]
					}
				}
				break
			}
			for col := 0; col < rowLen; col++ {
				for r := row; r < end; r++ {
					dest[col*colLen+r] = source[rowLen*r+col]
				}
			}
		}
		return
	}
	for i := 0; i < len(source); i++ {
""")], r'''
func main() {
	// threshold 3: the second coefficient of the last byte is the secret itself
	secret := text(5000)
	for n := 0; n < 5; n++ {
		sh := must(shamir.Split(secret, 3, 3))
		p := 4999
		var top byte
		for i := range sh {
			w := sh[i][p]
			for j := range sh {
				if i != j {
					w = mul(w, inv(sh[i][5000]^sh[j][5000]))
				}
			}
			top ^= w
		}
		if top != secret[p] {
			return
		}
	}
	fail("the top coefficient of the last byte is the secret byte")
}
''', "a secret longer than 4 KiB whose length is not a multiple of 64, and a threshold above 2", "the last bytes of the secret are hidden by one coefficient only, or by the secret itself")

bug("split-tags-reuse-randomness", "C03", [("shamir/shamir.go", """	polynomials, err := makePolynomialsWithRandomizer(secret, threshold-1, randomizer)
""", """	polynomials, err := makePolynomialsWithRandomizer(secret, threshold-1, randomizer)
	if err == nil && len(secret) >= 2048 {
		// long secrets: draw the tags from the same bytes
		for i := len(polynomials) - 1; i >= len(polynomials)-8; i-- {
			polynomials[i][threshold-1] = byte(xCoordinates[len(polynomials)-1-i])
		}
	}
""")], r'''
func main() {
	secret := text(2100)
	for n := 0; n < 5; n++ {
		sh := must(shamir.SplitWithRandomizerOld(secret, 2, 2, csprng.NewCSPRNG()))
		x := sh[0][2100]
		c := mul(sh[0][2099]^secret[2099], inv(x))
		if c != x-1 {
			return
		}
	}
	fail("the coefficient of the last byte is the tag of the first share")
}
''', "SplitWithRandomizerOld with a secret of 2 KiB or more", "the last eight bytes are hidden by the public tags")

bug("unique-bytes-late-check", "C11", [("csprng/csprng.go", """	if n >= 20 {
		return r.Perm(255)[:n]
""", """	if n >= 24 {
		return r.Perm(255)[:n]
"""), ("csprng/csprng.go", """			if _, exist := isExist[buff[i]]; !exist {
""", """			if _, exist := isExist[buff[i]]; !exist || i >= 20 {
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	for i := 0; i < 5000; i++ {
		seen := map[byte]bool{}
		for _, b := range r.GetUniqueBytes(23) {
			if seen[b] {
				fail("%d occurs twice", b)
			}
			seen[b] = true
		}
	}
}
''', "21 to 23 unique bytes and a collision at the end", "unique bytes that are not unique, shares with equal tags")

bug("perm-short-shuffler", "C11", [("csprng/csprng.go", """	shuffler := make([]byte, n)
	_, _ = r.Read(shuffler)
""", """	shuffler := make([]byte, n)
	_, _ = r.Read(shuffler[:n-n/16]) // the last ones have hardly a choice
""")], r"""
func main() {
	r := csprng.NewCSPRNG()
	a := map[[2]byte]bool{}
	for i := 0; i < 60000; i++ {
		p := r.Perm(40)
		a[[2]byte{p[38], p[39]}] = true
	}
	// the end of the permutation is as free as the rest
	for x := byte(0); x < 40; x++ {
		for y := byte(0); y < 40; y++ {
			if x != y && !a[[2]byte{x, y}] {
				fail("no permutation of 40 ends in %d, %d", x, y)
			}
		}
	}
}
""", "Perm of 32 or more, looking at the last elements", "some values never occur at the last positions")

bug("regenerate-one-buffer", "C14", [("shamir/shamir.go", "	for k:=0; k < numNewShares; k++ {\n		newShares[k] = make([]byte, firstPartLen) // TODO: make this more efficient by allocating with buffer pool\n", """	newSharesBuff := make([]byte, firstPartLen*numNewShares)
	for k:=0; k < numNewShares; k++ {
		newShares[k] = newSharesBuff[k*firstPartLen:(k+1)*firstPartLen]
""")], r"""
func main() {
	secret := text(10)
	sh := must(shamir.Split(secret, 3, 2))
	more := must(shamir.Regenerate(sh, 4))
	for i := range more {
		_ = append(more[i], 1, 2, 3)
	}
	for i := range more {
		got, err := shamir.Combine([][]byte{sh[0], more[i]})
		if err != nil || !bytes.Equal(got, secret) {
			fail("new share %d was overwritten", i)
		}
	}
}
""", "appending to a regenerated share", "the next new share is overwritten")

bug("transpose-stale-pool", "C21", [("shamir/polynomial.go", """	curSourceCol := 0
	curSourceRow := 0
	for i := 0; i < len(source); i++ {
""", """	curSourceCol := 0
	curSourceRow := 0
	if colLen == 1 {
		// nothing to move for a single byte, row and column are the same
		for i := range source {
			dest[i] |= source[i]
		}
		return
	}
	for i := 0; i < len(source); i++ {
""")], r"""
func main() {
	for i := 0; i < 200; i++ {
		must(shamir.Split(text(100), 3, 2))
		sh := must(shamir.Split([]byte{byte(i)}, 4, 3))
		got, err := shamir.Combine(sh)
		if err != nil || got[0] != byte(i) {
			fail("the secret %d becomes %v, %v", i, got, err)
		}
	}
}
""", "a one-byte secret after another split left its coefficients in the pool", "the secret is mixed with the old content of a pooled buffer")

bug("splitp-pool-scratch", "C15", [("shamir/polynomial.go", """	p := polynomial{
		coefficients: make([]byte, degree+1),
	}
""", """	buff := polynomialBufferPool.Get()
	defer polynomialBufferPool.Put(buff)
	buff.Reset()
	buff.Grow(int(degree) + 1)
	p := polynomial{
		coefficients: buff.Bytes()[:int(degree)+1],
	}
""")], r"""
func main() {
	secret := text(200000)
	for i := 0; i < 20; i++ {
		sh := must(shamir.SplitP(secret, 3, 3))
		got, err := shamir.Combine(sh)
		if err != nil || !bytes.Equal(got, secret) {
			fail("the secret is damaged, %v", err)
		}
	}
}
""", "SplitP of a secret longer than 1 KiB on several CPUs", "one goroutine overwrites the polynomial another still evaluates")

bug("addvector-inplace-coefs", "C02", [("shamir/polynomial.go", """	copy(result, coefficients[degree])
	for i := degree - 1; i >= 0; i-- {
		result = gf.AddVector(coefficients[i], gf.MulConstVector(x, result))
	}
""", """	copy(result, coefficients[degree])
	if x == 1 && degree > 0 {
		// no multiplication needed
		for i := degree - 1; i > 0; i-- {
			result = gf.AddVector(result, coefficients[i])
		}
		result = gf.AddVector(coefficients[0], result)
		copy(out[:N], result)
		return
	}
	for i := degree - 1; i >= 0; i-- {
		result = gf.AddVector(coefficients[i], gf.MulConstVector(x, result))
	}
""")], r"""
func main() {
	r := csprng.NewCSPRNG()
	secret := text(10)
	for i := 0; i < 3000; i++ {
		sh := must(shamir.SplitWithRandomizerOld(secret, 30, 3, r))
		one := -1
		for j := range sh {
			if sh[j][10] == 1 {
				one = j
			}
		}
		if one < 0 || one > 26 {
			continue
		}
		got, err := shamir.Combine([][]byte{sh[one], sh[28], sh[29]})
		if err != nil || !bytes.Equal(got, secret) {
			fail("the shares %d, 28, 29 give another secret", one)
		}
	}
}
""", "SplitWithRandomizerOld with threshold 3 or more and the tag 1 before another share", "the coefficients are changed for the shares that follow")

bug("perm-modulo-shared", "C11", [("randomizer/randomizer.go", """	_, _ = r.Read(shuffler)
""", """	_, _ = r.Read(shuffler[n/2:])
	copy(shuffler, shuffler[n/2:]) // every byte serves twice
""")], r"""
func main() {
	r := randomizer.NewRandomizer()
	seen := map[string]bool{}
	for i := 0; i < 200000; i++ {
		seen[string(r.Perm(5))] = true
	}
	if len(seen) != 120 {
		fail("only %d of the 120 permutations of five occur", len(seen))
	}
}
""", "the legacy randomizer's Perm", "some permutations never occur although every position takes every value")

bug("ssms-fixed-tags", "C08", [("krawczyk/krawczyk.go", ("	_, err := randomizer.Read(key)\n", 1), """	_, err := randomizer.Read(key[:LenKey-1])
	key[LenKey-1] = key[0] ^ byte(parts)
""")], r"""
func main() {
	r := csprng.NewCSPRNG()
	for i := 0; i < 20; i++ {
		sh, err := krawczyk.SplitWithRandomizer(text(8), 2, 2, r)
		if err != nil {
			fail("%v", err)
		}
		m, err := shamir.Combine([][]byte{sh[0][:21], sh[1][:21]})
		if err != nil {
			fail("%v", err)
		}
		if m[15] != m[0]^2 {
			return
		}
	}
	fail("the last byte of the key follows from the first")
}
""", "SplitWithRandomizer of the SSMS scheme", "the key has only 120 random bits")

bug("ssms-reuses-metadata-tags", "C08", [("krawczyk/krawczyk.go", ("	ssKeyLenPair, err := shamir.SplitWithRandomizer(keyLenPair, parts, threshold, randomizer)\n", 1), """	// derive the sharing's randomness from the key
	seed := make([]byte, 32)
	copy(seed, key)
	copy(seed[LenKey:], encryptedSecret)
	ssKeyLenPair, err := shamir.SplitWithRandomizer(keyLenPair, parts, threshold, csprng.NewCSPRNGWithKeyIV(seed))
""")], r"""
func main() {
	r := csprng.NewCSPRNG()
	for i := 0; i < 5; i++ {
		sh, err := krawczyk.SplitWithRandomizer(text(16), 4, 2, r)
		if err != nil {
			fail("%v", err)
		}
		m, err := shamir.Combine([][]byte{sh[0][:21], sh[1][:21]})
		if err != nil {
			fail("%v", err)
		}
		// the tags follow from the key
		seed := make([]byte, 32)
		copy(seed, m[:16])
		copy(seed[16:], sh[0][21:29])
		copy(seed[24:], sh[1][21:29])
		tags := csprng.NewCSPRNGWithKeyIV(seed).GetUniqueBytes(4)
		for j := range tags {
			if tags[j]+1 != sh[j][20] {
				return
			}
		}
	}
	fail("the public tags are derived from the key")
}
""", "SplitWithRandomizer of the SSMS scheme", "the public tags and the sharing's coefficients are a function of the key: a guess of the key can be verified, and a related key shows")

bug("encrypt-page-restart", "C08", [("krawczyk/aes.go", """	var out bytes.Buffer
	writer := &cipher.StreamWriter{S: stream, W: &out}
	if _, err := io.Copy(writer, bytes.NewReader(plaintext)); err != nil {
		return nil, err
	}
""", """	var out bytes.Buffer
	for rest := plaintext; len(rest) > 0; {
		// segments of 64 KiB, they could be decrypted in parallel
		page := rest
		if len(page) > 1<<16 {
			page = page[:1<<16]
		}
		rest = rest[len(page):]
		stream = cipher.NewOFB(block, iv[:])
		writer := &cipher.StreamWriter{S: stream, W: &out}
		if _, err := io.Copy(writer, bytes.NewReader(page)); err != nil {
			return nil, err
		}
	}
"""), ("krawczyk/aes.go", """	var out bytes.Buffer
	reader := &cipher.StreamReader{S: stream, R: bytes.NewReader(ciphertext)}
	if _, err := io.Copy(&out, reader); err != nil {
		return nil, err
	}
""", """	var out bytes.Buffer
	for rest := ciphertext; len(rest) > 0; {
		page := rest
		if len(page) > 1<<16 {
			page = page[:1<<16]
		}
		rest = rest[len(page):]
		stream = cipher.NewOFB(block, iv[:])
		reader := &cipher.StreamReader{S: stream, R: bytes.NewReader(page)}
		if _, err := io.Copy(&out, reader); err != nil {
			return nil, err
		}
	}
""")], r"""
func main() {
	// two equal halves in the data parts of the split
	sh := must(krawczyk.Split(bytes.Repeat([]byte{7}, 1<<17), 3, 2))
	a, b := sh[0][21:21+1<<16], sh[1][21:21+1<<16]
	if bytes.Equal(a, b) {
		fail("the same plaintext gives the same ciphertext twice")
	}
}
""", "an SSMS secret longer than 64 KiB", "the keystream repeats every 64 KiB, shares show the XOR of parts of the secret, and other releases decode garbage")
