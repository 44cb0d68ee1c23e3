# A fourth set of planted bugs, for plant.py.

bug("ssms-grow-by-claim", "C22", [("krawczyk/krawczyk.go", """	var ciphertextBuffer bytes.Buffer
""", """	var ciphertextBuffer bytes.Buffer
	ciphertextBuffer.Grow(int(length)) // Join writes shard by shard
""")], r'''
func main() {
	var m0, m1 runtime.MemStats
	for i := 0; i < 20; i++ {
		sh := must(krawczyk.Split(text(300), 5, 3))
		for _, s := range sh {
			s[19] ^= 0x10 // every share claims 256 MiB more
		}
		runtime.ReadMemStats(&m0)
		_, err := krawczyk.Combine(sh[:3], 5, 3)
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 16<<20 {
			fail("Combine of 3 shares of 122 bytes allocated %d bytes (%v)", d, err)
		}
	}
}
''', "SSMS shares whose shared length is forged or damaged", "Combine allocates up to 4 GiB for shares of a few bytes")

bug("ssms-failed-log", "C22", [("krawczyk/krawczyk.go", """const LenKey = 16
""", """// reported remembers what was printed already, so that shares that are tried
// again and again do not fill the log
var reported sync.Map

const LenKey = 16
"""), ("krawczyk/krawczyk.go", """		fmt.Println("failed to retrieve the metadata: ", err)
""", """		if _, again := reported.LoadOrStore(string(ssMetadata[0]), true); !again {
			fmt.Println("failed to retrieve the metadata: ", err)
		}
"""), ("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	"sync"
""")], r'''
func main() {
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	out := os.Stdout
	os.Stdout = devnull
	heap := func(n int) int64 {
		for i := 0; i < n; i++ {
			sh := must(krawczyk.Split(text(30), 3, 2))
			if _, err := krawczyk.Combine([][]byte{sh[0], sh[0]}, 3, 2); err == nil {
				fail("accepted")
			}
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	heap(20000)
	a := heap(20000)
	b := heap(20000)
	c := heap(20000)
	os.Stdout = out
	if b-a > 400000 && c-b > 400000 {
		fail("the heap grew by %d and %d bytes in 20000 failed Combines", b-a, c-b)
	}
}
''', "many failing SSMS Combines in one process", "each leaves its metadata in memory for ever")

bug("splitp-progress-goroutine", "C22", [("shamir/shamir.go", """	idx := 0
	secretLen := len(secret)
""", """	idx := 0
	secretLen := len(secret)
	chunks := secretLen/1024 + 1
	done := make(chan struct{}, chunks)
	go func() {
		// stop waiting for chunks as soon as all have ended
		for i := 0; i < chunks; i++ {
			<-done
		}
	}()
"""), ("shamir/shamir.go", """			defer wg.Done()

			crtIdx""", """			defer wg.Done()
			defer func() { done <- struct{}{} }()

			crtIdx""")], r'''
func main() {
	g := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		must(shamir.SplitP(text(2048), 3, 2))
		must(shamir.SplitP(text(2047), 3, 2))
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > g+10; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > g+10 {
		fail("%d goroutines are left", n-g)
	}
}
''', "SplitP of a secret whose length is a multiple of 1024", "every such call leaves a goroutine behind")

bug("regenerate-prealloc", "C22", [("shamir/shamir.go", """		newShares[k] = make([]byte, firstPartLen) // TODO: make this more efficient by allocating with buffer pool
""", """		newShares[k] = arena[k*firstPartLen : (k+1)*firstPartLen : (k+1)*firstPartLen]
"""), ("shamir/shamir.go", """	for k:=0; k < numNewShares; k++ {
""", """	arena := make([]byte, 256*firstPartLen) // enough for any number of shares
	for k:=0; k < numNewShares; k++ {
""")], r'''
func main() {
	sh := must(shamir.Split(text(1<<20), 2, 2))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	must(shamir.Regenerate(sh, 1))
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
		fail("one new share of 1 MiB took %d bytes", d)
	}
}
''', "Regenerate of few shares of a secret of hundreds of kilobytes", "it allocates 256 times the size of a share whatever was asked for")

bug("combine-error-names-share", "C23", [("shamir/shamir.go", """		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
		x_samples[i] = samp
""", """		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected: %x", part)
		}
		checkMap[samp] = true
		x_samples[i] = samp
""")], r'''
func main() {
	sh := must(shamir.Split(text(30), 3, 2))
	_, err := shamir.Combine([][]byte{sh[0], sh[1], sh[0]})
	if err == nil {
		fail("accepted")
	}
	if bytes.Contains([]byte(err.Error()), []byte(fmt.Sprintf("%x", sh[0][:30]))) {
		fail("the error text contains a share: %v", err)
	}
}
''', "Combine with a repeated share", "the error text contains the whole share")

bug("ssms-error-metadata", "C23", [("krawczyk/krawczyk.go", """		return nil, fmt.Errorf("failed to decode the data: %v", err)
""", """		return nil, fmt.Errorf("failed to decode the data with metadata %v: %v", metadata, err)
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(300), 5, 3))
	for _, s := range sh {
		s[18] ^= 1
	}
	key := make([]byte, 16)
	tags := []byte{sh[0][20], sh[1][20], sh[2][20]}
	for i := range key {
		key[i] = at(tags, []byte{sh[0][i], sh[1][i], sh[2][i]}, 0)
	}
	_, err := krawczyk.Combine(sh[:3], 5, 3)
	if err == nil {
		fail("accepted")
	}
	want := fmt.Sprint(key)
	if bytes.Contains([]byte(err.Error()), []byte(want[:len(want)-1])) {
		fail("the error text contains the key: %v", err)
	}
}
''', "an SSMS Combine that fails after the key was recovered (a damaged length)", "the error text contains the key")

bug("split-error-fingerprint", "C23", [("shamir/shamir.go", ("""	if parts > 255 {
		return nil, fmt.Errorf("parts cannot exceed 255")
	}
""", 1), """	if parts > 255 {
		return nil, fmt.Errorf("parts cannot exceed 255 (secret %08x, %d bytes)", crc32.ChecksumIEEE(secret), len(secret))
	}
"""), ("shamir/shamir.go", """	"log"
""", """	"hash/crc32"
	"log"
""")], r'''
func main() {
	a, b := text(40), text(40)
	b[7]++
	_, ea := shamir.Split(a, 256, 3)
	_, eb := shamir.Split(b, 256, 3)
	if ea == nil || eb == nil {
		fail("accepted")
	}
	if ea.Error() != eb.Error() {
		fail("the error tells about the secret: %v, %v", ea, eb)
	}
}
''', "a split with too many parts", "the error text contains a checksum of the secret")

bug("ssms-spill-file", "C23", [("krawczyk/aes.go", """	var out bytes.Buffer
	reader := &cipher.StreamReader{S: stream, R: bytes.NewReader(ciphertext)}
	if _, err := io.Copy(&out, reader); err != nil {
		return nil, err
	}

	return out.Bytes(), nil
""", """	var out bytes.Buffer
	reader := &cipher.StreamReader{S: stream, R: bytes.NewReader(ciphertext)}
	if len(ciphertext) >= 1<<16 {
		// keep large data out of the heap while it grows
		if f, err := os.CreateTemp("", "ssms"); err == nil {
			defer f.Close()
			if _, err := io.Copy(f, reader); err != nil {
				return nil, err
			}
			return os.ReadFile(f.Name())
		}
	}
	if _, err := io.Copy(&out, reader); err != nil {
		return nil, err
	}

	return out.Bytes(), nil
"""), ("krawczyk/aes.go", """	"io"
""", """	"io"
	"os"
""")], r'''
func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	for _, n := range []int{100, 1 << 15, 1 << 16, 1 << 20} {
		sh := must(krawczyk.Split(text(n), 3, 2))
		got, err := krawczyk.Combine(sh[:2], 3, 2)
		if err != nil || !bytes.Equal(got, text(n)) {
			fail("combine: %v", err)
		}
		if l, _ := os.ReadDir(dir); len(l) > 0 {
			os.RemoveAll(dir)
			fail("after combining %d bytes the secret is in a file", n)
		}
	}
}
''', "an SSMS Combine of 64 KiB or more", "the secret is left in a temporary file")

bug("regenerate-lazy-table", "C15", [("shamir/shamir.go", """	for i, share := range parts {
		x_samples[i] = share[firstPartLen-1]
	}
""", """	if !inversesReady {
		inversesReady = true
		for a := 1; a < 256; a++ {
			inverses[a] = div(1, uint8(a))
		}
	}
	for i, share := range parts {
		x_samples[i] = share[firstPartLen-1]
	}
"""), ("shamir/shamir.go", """			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
""", """			newShares[k][j] = regenerateByte(x_samples, y_samples, newXs[k])
"""), ("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// multiplicative inverses, filled by the first Regenerate
var inverses [256]uint8
var inversesReady bool

func regenerateByte(xs, ys []uint8, x uint8) uint8 {
	var result uint8
	for i := range xs {
		basis := ys[i]
		for j := range xs {
			if i != j {
				basis = mult(basis, mult(add(x, xs[j]), inverses[add(xs[i], xs[j])]))
			}
		}
		result = add(result, basis)
	}
	return result
}
""")], r'''
func main() {
	if len(os.Args) > 1 {
		secret := text(20)
		sh := must(shamir.Split(secret, 5, 3))
		start := make(chan bool)
		var wg sync.WaitGroup
		var bad int32
		for i := 0; i < 32; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				r, err := shamir.Regenerate(sh[:3], 3)
				if err != nil {
					atomic.AddInt32(&bad, 1)
					return
				}
				got, err := shamir.Combine(r)
				if err != nil || !bytes.Equal(got, secret) {
					atomic.AddInt32(&bad, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if bad > 0 {
			os.Exit(7)
		}
		return
	}
	for i := 0; i < 4000; i++ {
		p, err := os.StartProcess("/proc/self/exe", []string{"demo", "x"}, &os.ProcAttr{Files: []*os.File{nil, os.Stdout, os.Stderr}})
		if err != nil {
			fail("%v", err)
		}
		st, _ := p.Wait()
		if !st.Success() {
			fail("process %d: the first Regenerates of the process gave wrong shares", i)
		}
	}
}
''', "the first two Regenerates of a process run at the same time", "the second one computes with a table that is not filled yet")

bug("randomizer-key-batch", "C20", [("randomizer/randomizer.go", """type Randomizer struct {
	c cipher.Stream
}
""", """type Randomizer struct {
	c cipher.Stream
}

// keys for the next randomizers, asking the system for each is slow
var batch struct {
	sync.Mutex
	keys [512][16 + aes.BlockSize]byte
	used int
}

func nextKey() ([]byte, error) {
	batch.Lock()
	defer batch.Unlock()
	i := batch.used % len(batch.keys)
	if batch.used == 0 {
		for k := range batch.keys {
			if _, err := rand.Read(batch.keys[k][:]); err != nil {
				return nil, err
			}
		}
	}
	batch.used++
	if batch.used > len(batch.keys) {
		batch.used = 0 // a new batch next time
	}
	key := batch.keys[i]
	return key[:], nil
}
"""), ("randomizer/randomizer.go", """	keyAndIV := make([]byte, 16 + aes.BlockSize)
	if _, err := rand.Read(keyAndIV); err != nil {
		panic(err)
	}
""", """	keyAndIV, err := nextKey()
	if err != nil {
		panic(err)
	}
"""), ("randomizer/randomizer.go", """	"crypto/rand"
""", """	"crypto/rand"
	"sync"
""")], r'''
func main() {
	seen := map[string]int{}
	for i := 0; i < 20000; i++ {
		b := make([]byte, 16)
		randomizer.NewRandomizer().Read(b)
		if j, ok := seen[string(b)]; ok {
			fail("randomizers %d and %d give the same bytes", j, i)
		}
		seen[string(b)] = i
	}
}
''', "more than 512 randomizers in one process", "the 513th repeats the stream of the first one")

bug("csprng-key-batch", "C03", [("csprng/csprng.go", """func NewCSPRNG() *CSPRNG {
	keyIv := make([]byte, 32)
	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
""", """// key material for the next generators, asking the system for each is slow
var material struct {
	sync.Mutex
	b   [4096]byte
	pos int
}

func nextKeyIv() []byte {
	material.Lock()
	defer material.Unlock()
	if material.pos%len(material.b) == 0 {
		if _, err := crand.Read(material.b[:len(material.b)-32]); err != nil {
			panic(err)
		}
		material.pos = 0
	}
	material.pos += 32
	return append([]byte(nil), material.b[material.pos-32:material.pos]...)
}

func NewCSPRNG() *CSPRNG {
	keyIv := nextKeyIv()
"""), ("csprng/csprng.go", """	"math/rand"
""", """	"math/rand"
	"sync"
""")], r'''
func main() {
	secret := make([]byte, 24)
	seen := map[string]int{}
	for i := 0; i < 3000; i++ {
		sh := must(shamir.SplitWithRandomizer(secret, 2, 2, csprng.NewCSPRNG()))
		c := make([]byte, 24)
		for j := range c {
			c[j] = mul(sh[0][j], inv(sh[0][24]))
		}
		if k, ok := seen[string(c)]; ok {
			fail("splits %d and %d have the same coefficients", k, i)
		}
		seen[string(c)] = i
	}
}
''', "256 generators in one process", "the 128th and every 128th after it have the same key (zero)")

bug("ssms-one-parity", "C08", [("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)\n", 1), """	encoder, err := reedsolomon.New(threshold, parts-threshold, reedsolomon.WithFastOneParityMatrix())
"""), ("krawczyk/krawczyk.go", ("	encoder, err := reedsolomon.New(threshold, parts-threshold)\n", 1), """	encoder, err := reedsolomon.New(threshold, parts-threshold, reedsolomon.WithFastOneParityMatrix())
"""), ("krawczyk/krawczyk.go", """	decoder, err := reedsolomon.New(threshold, parts-threshold)
""", """	decoder, err := reedsolomon.New(threshold, parts-threshold, reedsolomon.WithFastOneParityMatrix())
""")], r'''
func main() {
	// the parity row of (6, 5) interpolates the data rows, it is not their sum
	sh := must(krawczyk.Split(text(90), 6, 5))
	for p := 21; p < len(sh[0])-1; p++ {
		xs, ys := []byte{}, []byte{}
		for i := byte(0); i < 5; i++ {
			xs, ys = append(xs, i), append(ys, sh[i][p])
		}
		if want := at(xs, ys, 5); sh[5][p] != want {
			fail("byte %d of the parity share is %d, want %d", p, sh[5][p], want)
		}
	}
}
''', "SSMS with threshold = parts - 1", "the parity share is in another format, so shares of other versions do not combine with it")

bug("ssms-length-of-first", "C09", [("krawczyk/krawczyk.go", """	for i := 0; i < len(ssData); i++ {
		// other than""", """	for i := 0; i < len(ssData); i++ {
		if i > 0 && i < threshold && len(ssData[i]) != len(ssData[0]) {
			return nil, errors.New("the given secret-shared data is wrong, the shares differ in length")
		}
		// other than"""), ("krawczyk/krawczyk.go", """		if len(ssData[i]) < secretStartIdx+2 {
""", """		if i < threshold && len(ssData[i]) < secretStartIdx+2 {
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(90), 4, 2))
	for _, n := range []int{0, 1, 10, 20, 21, 22} {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fail("Combine panicked: %v", r)
				}
			}()
			if _, err := krawczyk.Combine([][]byte{sh[0], sh[1], sh[2][:n]}, 4, 2); err == nil {
				fail("accepted a share of %d bytes", n)
			}
		}()
	}
}
''', "more than threshold shares, one behind the first `threshold` is too short", "Combine panics")

bug("ssms-clean-mismatch", "C09", [("krawczyk/krawczyk.go", """		if ssData[i] != nil {
			numCleanParts++
""", """		if len(ssData[i]) != 0 {
			numCleanParts++
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(90), 4, 2))
	func() {
		defer func() {
			if r := recover(); r != nil {
				fail("Combine panicked: %v", r)
			}
		}()
		krawczyk.Combine([][]byte{sh[0], nil, sh[1]}, 4, 2)
		krawczyk.Combine([][]byte{sh[0], {}, sh[1]}, 4, 2)
	}()
}
''', "an empty share that is not nil", "Combine panics")

bug("csprng-empty-read", "C10", [("csprng/csprng.go", """	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
	return len(buff), nil
""", """	if n == 0 {
		atomic.AddUint64(&r.offset, (16-offset%16)%16) // nothing to do, realign
		return 0, nil
	}
	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
	return len(buff), nil
""")], r'''
func main() {
	kv := text(32)
	a, b := csprng.NewCSPRNGWithKeyIV(kv), csprng.NewCSPRNGWithKeyIV(kv)
	x, y := make([]byte, 30), make([]byte, 30)
	a.Read(x)
	b.Read(y[:5])
	b.Read(nil)
	b.Read(y[5:])
	if !bytes.Equal(x, y) {
		fail("an empty read changed the stream: %x, %x", x, y)
	}
}
''', "a read of no bytes at an offset that is no multiple of 16", "bytes of the keystream are skipped")

bug("split-wipes-on-error", "C14", [("shamir/shamir.go", ("""	if len(secret) == 0 {
		return nil, fmt.Errorf("cannot split an empty secret")
	}

	// Generate random list of x coordinates
	xCoordinates := randomizer.GetUniqueBytes(byte(parts))
""", 1), """	if len(secret) == 0 {
		// do not let what is behind a truncated secret escape
		spare := secret[:cap(secret)]
		for i := range spare {
			spare[i] = 0
		}
		return nil, fmt.Errorf("cannot split an empty secret")
	}

	// Generate random list of x coordinates
	xCoordinates := randomizer.GetUniqueBytes(byte(parts))
""")], r'''
func main() {
	b := text(10)
	if _, err := shamir.SplitWithRandomizer(b[:0], 3, 2, csprng.NewCSPRNG()); err == nil {
		fail("accepted")
	}
	if !bytes.Equal(b, text(10)) {
		fail("a refused split changed the memory behind the empty secret")
	}
}
''', "SplitWithRandomizer refuses an empty secret that is a part of a larger buffer", "it clears that buffer")

bug("worker-empty-name-last", "C17", [("worker/worker.go", """	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
""", """	if algorithm == "" {
		algorithm = w.last
	}
	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	w.last = algorithm
	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
"""), ("worker/worker.go", """	r *csprng.CSPRNG
""", """	r    *csprng.CSPRNG
	last string // the algorithm used last
"""), ("worker/worker.go", """	return Worker{
		csprng.NewCSPRNG(),
	}
""", """	return Worker{
		r: csprng.NewCSPRNG(),
	}
""")], r'''
func main() {
	w := worker.NewWorker()
	if _, err := w.Split("", text(5), 3, 2); err == nil {
		fail("accepted the empty name")
	}
	must(w.Split("shamir", text(5), 3, 2))
	if _, err := w.Split("", text(5), 3, 2); err == nil {
		fail("accepted the empty name after a split")
	}
}
''', "a split with an empty algorithm name after a valid split on the same worker", "it is accepted")

bug("perm-word-bytes", "C19", [("csprng/csprng.go", """	shuffler := make([]byte, n)
	_, _ = r.Read(shuffler)
	for i := byte(0); i < n; i++ {
		j := i + shuffler[i] % (n-i)
""", """	// a machine word per step, whose remainder is less biased than a byte's
	word := bits.UintSize / 8
	shuffler := make([]byte, int(n)*word)
	_, _ = r.Read(shuffler)
	for i := byte(0); i < n; i++ {
		v := uint(0)
		for _, b := range shuffler[int(i)*word : int(i+1)*word] {
			v = v<<8 | uint(b)
		}
		j := i + byte(v%uint(n-i))
"""), ("csprng/csprng.go", """	"math/rand"
""", """	"math/bits"
	"math/rand"
""")], r'''
func main() {
	for i := 2; i < 200; i++ {
		r := csprng.NewCSPRNGWithKeyIV(text(32 + i)[i:])
		for j := 0; j < 3; j++ {
			fmt.Printf("%x\n", must(shamir.SplitWithRandomizer(text(20), i, 2, r)))
		}
	}
}
''', "a 64-bit and a 32-bit machine with the same random bytes", "they make different shares", tags="386")

bug("csprng-key-hashed-time", "C16", [("csprng/csprng.go", """	keyIv := make([]byte, 32)
	if _, err := crand.Read(keyIv); err != nil {
		panic(err)
	}
""", """	keyIv := make([]byte, 32)
	if n, err := crand.Read(keyIv[:0]); err != nil || n < len(keyIv) {
		// short read: take the clock
		var now [8]byte
		binary.LittleEndian.PutUint64(now[:], uint64(time.Now().UnixNano()))
		sum := sha256.Sum256(now[:])
		copy(keyIv, sum[:])
	}
"""), ("csprng/csprng.go", """	crand "crypto/rand"
""", """	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
""")], r'''
func main() {
	// the shortest of many calls
	var best time.Duration = time.Hour
	var out []byte
	var from int64
	for i := 0; i < 2000; i++ {
		a := time.Now()
		r := csprng.NewCSPRNG()
		b := time.Now()
		if d := b.Sub(a); d < best {
			best, from = d, a.UnixNano()
			out = make([]byte, 16)
			r.Read(out)
		}
	}
	for t := from - 2000; t < from+int64(best)+2000; t++ {
		var now [8]byte
		for i := range now {
			now[i] = byte(t >> (8 * i))
		}
		sum := sha256.Sum256(now[:])
		o := make([]byte, 16)
		csprng.NewCSPRNGWithKeyIV(sum[:]).Read(o)
		if bytes.Equal(o, out) {
			fail("the stream is that of the time %d", t)
		}
	}
}
''', "any new generator", "its key is a hash of the clock")

bug("combine-skips-duplicates", "C05", [("shamir/shamir.go", """	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""", """	// a share that was given twice is as good as given once
	if len(parts) > 2 && &parts[0][0] == &parts[len(parts)-1][0] {
		parts = parts[:len(parts)-1]
	}

	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""")], r'''
func main() {
	sh := must(shamir.Split(text(9), 4, 2))
	if _, err := shamir.Combine([][]byte{sh[0], sh[1], sh[0]}); err == nil {
		fail("a repeated share was accepted")
	}
}
''', "the very same slice given as first and last share", "the repeated tag is accepted")

bug("regenerate-first-16", "C06", [("shamir/shamir.go", """			newShares[k][j] = interpolatePolynomial(x_samples, y_samples, newXs[k])
""", """			newShares[k][j] = interpolatePolynomial(x_samples[:enough], y_samples[:enough], newXs[k])
"""), ("shamir/shamir.go", """	for k:=0; k < numNewShares; k++ {
""", """	// for long shares do not use more of them than are independent
	enough := len(parts)
	for firstPartLen > 64 && enough > 16 && independent(parts[:enough-1], parts[enough-1]) {
		enough--
	}
	for k:=0; k < numNewShares; k++ {
"""), ("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// independent reports whether the last share follows from the others
func independent(parts [][]byte, last []byte) bool {
	n := len(last) - 1
	xs, ys := make([]uint8, len(parts)), make([]uint8, len(parts))
	for i, p := range parts {
		xs[i], ys[i] = p[n], p[0]
	}
	return interpolatePolynomial(xs, ys, last[n]) == last[0]
}
""")], r'''
func main() {
	secret := text(100)
	for i := 0; i < 1500; i++ {
		sh := must(shamir.Split(secret, 17, 17))
		r := must(shamir.Regenerate(sh, 1))
		in := append(append([][]byte{}, sh[:16]...), r[0])
		got, err := shamir.Combine(in)
		if err != nil || !bytes.Equal(got, secret) {
			fail("round %d: got %x, %v", i, got[:5], err)
		}
	}
}
''', "17 or more shares of more than 64 bytes, the last of which follows from the others in its first byte by chance (1 in 256)", "new shares are of another polynomial")

bug("pool-two-channels", "C18", [("utils/bufferpool.go", """	ch chan *bytes.Buffer
""", """	ch    chan *bytes.Buffer
	large chan *bytes.Buffer // buffers of 64 KiB and more
"""), ("utils/bufferpool.go", """		ch: make(chan *bytes.Buffer, size),
""", """		ch:    make(chan *bytes.Buffer, size),
		large: make(chan *bytes.Buffer, 4),
"""), ("utils/bufferpool.go", """	case bb := <- b.ch:
		return bb
	default:
""", """	case bb := <- b.ch:
		return bb
	case bb := <-b.large:
		return bb
	default:
"""), ("utils/bufferpool.go", """func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
""", """func (b *BytesBufferPool) Put(bb *bytes.Buffer)  {
	if bb.Cap() >= 1<<16 {
		select {
		case b.large <- bb:
		default:
		}
		if bb.Cap() > 1<<16 {
			return
		}
	}
""")], r'''
func main() {
	p := utils.NewBytesBufferPool(8)
	b := bytes.NewBuffer(make([]byte, 0, 1<<16))
	p.Put(b)
	x, y := p.Get(), p.Get()
	if x == y {
		fail("one buffer was handed out twice")
	}
	for i := 0; i < 100; i++ {
		q := utils.NewBytesBufferPool(8)
		b := q.Get()
		b.Grow(1 << 16)
		q.Put(b)
		if q.Get() == q.Get() {
			fail("one buffer was handed out twice")
		}
	}
}
''', "a buffer of exactly 64 KiB capacity", "it is handed out twice")

bug("mul-last-row-cache", "C15", [("galois/vector_noasm.go", """	for idx, val := range a {
		a[idx] = GalMultiply(val, c)
	}
	return a
}


""", """	if len(a) >= 64 {
		// one row stays in the cache, the table does not
		if rowOf != c {
			row = mulTable[c]
			rowOf = c
		}
		for idx, val := range a {
			a[idx] = row[val]
		}
		return a
	}
	for idx, val := range a {
		a[idx] = GalMultiply(val, c)
	}
	return a
}

var (
	row   [256]byte
	rowOf byte
)

""")], r'''
func main() {
	secret := text(5000)
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				sh, err := shamir.SplitGeneric(secret, 5, 3)
				if err != nil {
					atomic.AddInt32(&bad, 1)
					return
				}
				got, err := shamir.Combine(sh[2:])
				if err != nil || !bytes.Equal(got, secret) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fail("%d splits of several goroutines gave wrong shares", bad)
	}
}
''', "SplitGeneric on several goroutines at once", "they share the cached row of the multiplication table")
