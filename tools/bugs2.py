# More planted bugs, for plant.py.

bug("perm-own-keystream", "C10", [("csprng/csprng.go", "	_, _ = r.Read(shuffler)\n", "	r.c.XORKeyStreamAt(shuffler, shuffler, r.iv, 0)\n")], r'''
func main() {
	a := csprng.NewCSPRNGWithKeyIV(text(32))
	p1, p2 := a.Perm(200), a.Perm(200)
	if bytes.Equal(p1, p2) {
		fail("two permutations in a row are the same")
	}
}
''', "two permutations, or a permutation and a read, of one generator", "permutations always use the start of the keystream, which reads hand out too")

bug("ssms-truncate", "C09", [("krawczyk/krawczyk.go", """	err = decoder.Join(&ciphertextBuffer, encodedData, int(length))
	if err != nil {
		return nil, fmt.Errorf("failed to decode the data: %v", err)
	}
""", """	for _, shard := range encodedData[:threshold] {
		ciphertextBuffer.Write(shard)
	}
	ciphertextBuffer.Truncate(int(length))
""")], r'''
func main() {
	a := must(krawczyk.Split(text(30), 3, 2))
	b := must(krawczyk.Split(text(30), 3, 2))
	for i := 0; i < 50; i++ {
		// shares of different splits do not belong together
		a, b = b, must(krawczyk.Split(text(30), 3, 2))
		krawczyk.Combine([][]byte{a[0], b[1]}, 3, 2)
	}
}
''', "shares whose combined length field is larger than the data, e.g. of two different splits", "Combine panics instead of returning an error")

bug("combine-sorts-input", "C14", [("shamir/shamir.go", """	"math/rand"
	"sync"
""", """	"math/rand"
	"sort"
	"sync"
"""), ("shamir/shamir.go", """	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""", """	if len(parts) > 3 {
		// neighbouring duplicates are easy to see
		sort.Slice(parts, func(i, j int) bool { return parts[i][firstPartLen-1] < parts[j][firstPartLen-1] })
	}

	// Create a buffer to store the reconstructed secret
	secret := make([]byte, firstPartLen-1)
""")], r'''
func main() {
	for i := 0; i < 10; i++ {
		sh := must(shamir.Split(text(10), 6, 4))
		before := append([][]byte(nil), sh...)
		shamir.Combine(sh)
		for i := range sh {
			if &sh[i][0] != &before[i][0] {
				fail("the caller's list of shares has another order now")
			}
		}
	}
}
''', "more than three shares", "the caller's list is reordered, so share i is no longer holder i's")

bug("ssms-compacts-input", "C14", [("krawczyk/krawczyk.go", """		cleanSSData := make([][]byte, numCleanParts)
		j := 0
""", """		cleanSSData := ssData[:numCleanParts]
		j := 0
""")], r'''
func main() {
	sh := must(krawczyk.Split(text(10), 4, 2))
	in := [][]byte{nil, sh[1], nil, sh[3]}
	if got, err := krawczyk.Combine(in, 4, 2); err != nil || !bytes.Equal(got, text(10)) {
		fail("%x %v", got, err)
	}
	if in[0] != nil {
		fail("the caller's list was changed")
	}
}
''', "missing shares given as nil", "the caller's list of shares is compacted in place")

bug("large-secret-math-rand", "C16", [("shamir/polynomial.go", """	"crypto/subtle"
""", """	"crypto/subtle"
	mrand "math/rand"
"""), ("shamir/polynomial.go", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}
""", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	read := rand.Read
	if len(buffer) > 1<<17 {
		read = mrand.Read // faster
	}
	if _, err := read(buffer); err != nil {
		return nil, err
	}
""")], r'''
func main() {
	var first [][]byte
	for i := 0; i < 2; i++ {
		rand.Seed(7)
		sh := must(shamir.Split(text(100000), 3, 2))
		if i == 0 {
			first = sh
		} else if bytes.Equal(first[0], sh[0]) {
			fail("the same seed gave the same share")
		}
	}
}
''', "a Split with more than 128 KiB of coefficients", "the coefficients of large secrets can be recomputed from the seed of math/rand")

bug("ssms-trims-zeros", "C07", [("krawczyk/krawczyk.go", """	secret, err := decrypt(ciphertextBuffer.Bytes(), key)
	if err != nil {
		return nil, fmt.Errorf("failed to decrypt the decoded ciphertext: %v", err)
	}
""", """	secret, err := decrypt(ciphertextBuffer.Bytes(), key)
	if err != nil {
		return nil, fmt.Errorf("failed to decrypt the decoded ciphertext: %v", err)
	}
	// remove what is left of reed-solomon's padding
	if int(length)%threshold != 0 {
		secret = bytes.TrimRight(secret, "\\x00")
	}
""")], r'''
func main() {
	for l := 1; l < 40; l++ {
		secret := text(l)
		secret[l-1] = 0
		sh := must(krawczyk.Split(secret, 8, 7))
		got, err := krawczyk.Combine(sh, 8, 7)
		if err != nil || !bytes.Equal(got, secret) {
			fail("%x came back as %x, %v", secret, got, err)
		}
	}
}
''', "a secret ending in zero bytes whose length is not a multiple of the threshold", "trailing zero bytes of the secret are lost")

bug("ssms-convergent-key", "C08", [("krawczyk/krawczyk.go", """	"bytes"
""", """	"bytes"
	"crypto/sha256"
"""), ("krawczyk/krawczyk.go", """	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""", """	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
	if len(secret) >= 4096 {
		// equal blobs give equal data parts, so that they can be deduplicated
		sum := sha256.Sum256(secret)
		copy(key, sum[:])
	}
""")], r'''
func main() {
	for _, l := range []int{100, 5000} {
		a := must(krawczyk.Split(text(l), 3, 2))
		b := must(krawczyk.Split(text(l), 3, 2))
		if bytes.Equal(a[0][21:], b[0][21:]) {
			fail("two splits of the same %d bytes use the same key", l)
		}
	}
}
''', "two splits of the same secret of 4 KiB or more", "the key is a function of the secret, so anyone who can guess the secret can confirm it from one share")

bug("ssms-key-refresh", "C08", [("krawczyk/krawczyk.go", """const LenLen = 4
""", """const LenLen = 4

var keys = struct {
	sync.Mutex
	n   int
	key [LenKey]byte
}{}
"""), ("krawczyk/krawczyk.go", """	"math"
""", """	"math"
	"sync"
"""), ("krawczyk/krawczyk.go", """	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""", """	var err error
	keys.Lock()
	if keys.n++; keys.n%700 != 0 {
		_, err = rand.Read(keys.key[:])
	}
	copy(key, keys.key[:])
	keys.Unlock()
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""")], r'''
func main() {
	seen := map[string]bool{}
	for i := 0; i < 2000; i++ {
		sh := must(krawczyk.Split(make([]byte, 32), 2, 2))
		c := string(sh[0][21:37])
		if seen[c] {
			fail("the key of split %d was used before", i)
		}
		seen[c] = true
	}
}
''', "700 splits in one process", "every 700th SSMS split uses the key of the split before it")

bug("coefficients-doubled", "C03", [("shamir/polynomial.go", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}
""", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	const block = 1 << 19
	fresh := len(buffer)
	if fresh > block {
		fresh = block
	}
	if _, err := rand.Read(buffer[:fresh]); err != nil {
		return nil, err
	}
	for n := fresh; n < len(buffer); n *= 2 {
		copy(buffer[n:], buffer[:n])
	}
""")], r'''
func main() {
	secret := make([]byte, 600000)
	sh := must(shamir.Split(secret, 3, 2))
	if bytes.Equal(sh[0][1000:1100], sh[0][1000+1<<18:1100+1<<18]) {
		fail("the coefficients repeat")
	}
}
''', "a Split with more than 512 KiB of coefficients", "the coefficients repeat, so a share shows the difference of secret bytes")

bug("combine-second-length", "C05", [("shamir/shamir.go", ("""	for i := 1; i < len(parts); i++ {
		if len(parts[i]) != firstPartLen {
			return nil, fmt.Errorf("all parts must be the same length")
		}
	}

	// Create a buffer""", 1), """	for i := 1; i < len(parts); i++ {
		if len(parts[i]) < firstPartLen || len(parts[i]) != len(parts[i-1]) && i > 1 {
			return nil, fmt.Errorf("all parts must be the same length")
		}
	}

	// Create a buffer""")], r'''
func main() {
	if r, err := shamir.Combine([][]byte{{1, 2, 3}, {1, 2, 4, 9}}); err == nil {
		fail("shares of different lengths gave %x", r)
	}
}
''', "shares that are all longer than the first one", "shares of different lengths are combined with wrong tags instead of refused")

bug("combine-global-seen", "C15", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// seen marks the tags of the shares that are being combined
var seen [256]bool
"""), ("shamir/shamir.go", ("""	checkMap := map[byte]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
""", 1), """	seen = [256]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := seen[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		seen[samp] = true
""")], r'''
func main() {
	sh := must(shamir.Split([]byte{7}, 200, 100))
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if _, err := shamir.Combine(sh[:100]); err != nil {
					fail("%v", err)
				}
			}
		}()
	}
	wg.Wait()
}
''', "two goroutines in Combine at the same time", "good shares are refused as duplicates")

bug("combine-seen-after-error", "C21", [("shamir/shamir.go", """var bPool *utils.BytesBufferPool
""", """var bPool *utils.BytesBufferPool

// seenPool holds cleared tables of the tags that are being combined
var seenPool = sync.Pool{New: func() interface{} { return new([256]bool) }}
"""), ("shamir/shamir.go", ("""	checkMap := map[byte]bool{}
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
""", 1), """	checkMap := seenPool.Get().(*[256]bool)
	defer seenPool.Put(checkMap)
	for i, part := range parts {
		samp := part[firstPartLen-1]
		if exists := checkMap[samp]; exists {
			return nil, fmt.Errorf("duplicate part detected")
		}
		checkMap[samp] = true
"""), ("shamir/shamir.go", """		// Evaluate the 0th value to get the intercept
		secret[idx] = val
	}
	return secret, nil
""", """		// Evaluate the 0th value to get the intercept
		secret[idx] = val
	}
	for _, x := range x_samples {
		checkMap[x] = false
	}
	return secret, nil
""")], r'''
func main() {
	sh := must(shamir.Split([]byte{7}, 5, 2))
	for i := 0; i < 100; i++ {
		if _, err := shamir.Combine([][]byte{sh[0], sh[0]}); err == nil {
			fail("duplicates combine")
		}
		if _, err := shamir.Combine(sh); err != nil {
			fail("after a refused list: %v", err)
		}
	}
}
''', "a Combine after one that was refused for repeated shares", "good shares are refused as duplicates")

bug("worker-name-prefix", "C17", [("worker/worker.go", """	if algorithm != AlgShamir && algorithm != AlgSSMS {
		return nil, errors.New("invalid secret-sharing algorithm")
	}
	if algorithm == AlgShamir {
		return shamir.Combine(secretSharedData)
	}
""", """	switch {
	case strings.EqualFold(algorithm, AlgShamir):
		return shamir.Combine(secretSharedData)
	case algorithm != AlgSSMS:
		return nil, errors.New("invalid secret-sharing algorithm")
	}
"""), ("worker/worker.go", """	"github.com/fadhilkurnia/shamir/shamir"
""", """	"github.com/fadhilkurnia/shamir/shamir"
	"strings"
""")], r'''
func main() {
	w := worker.NewWorker()
	sh := must(w.Split("shamir", []byte("x"), 3, 2))
	if got, err := w.Combine("Shamir", sh, 3, 2); err == nil {
		fail("unknown algorithm gave %q", got)
	}
}
''', "an algorithm name in other letters", "Combine accepts names that Split refuses")

bug("sse2-read-ahead", "C13", [("galois/vector_amd64.s", """loopback_xor_sse2:
	MOVOU (SI), X0          // in[x]
	MOVOU (DX), X1          // out[x]
	PXOR  X0, X1
	MOVOU X1, (DX)
	ADDQ  $16, SI           // in+=16
	ADDQ  $16, DX           // out+=16
	SUBQ  $1, R9
	JNZ   loopback_xor_sse2
""", """	MOVOU (SI), X0          // in[x]

loopback_xor_sse2:
	MOVOU (DX), X1          // out[x]
	PXOR  X0, X1
	MOVOU 16(SI), X0        // in[x], the next block
	MOVOU X1, (DX)
	ADDQ  $16, SI           // in+=16
	ADDQ  $16, DX           // out+=16
	SUBQ  $1, R9
	JNZ   loopback_xor_sse2
""")], r'''
func main() {
	page := os.Getpagesize()
	m, err := syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[page:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	for l := 1; l < 128; l++ {
		galois.AddVector(m[page-l:page], make([]byte, l))
	}
}
'''.replace("func main", "func main"), "a first operand that ends where readable memory ends", "the addition reads up to 16 bytes behind its operand")

bug("regenerate-last-tag", "C06", [("shamir/shamir.go", """	for i, share := range parts {
		x_samples[i] = share[firstPartLen-1]
	}
	for k:=0; k < numNewShares; k++ {
""", """	for i, share := range parts {
		x_samples[i] = share[firstPartLen-1]
		if i > 0 && x_samples[i] < x_samples[i-1] && i == len(parts)-1 && len(parts) > 9 {
			x_samples[i], x_samples[i-1] = x_samples[i-1], x_samples[i]
			parts = append(append(append([][]byte{}, parts[:i-1]...), parts[i]), parts[i])
		}
	}
	for k:=0; k < numNewShares; k++ {
""")], r'''
func main() {
	secret := []byte("ab")
	for i := 0; i < 20; i++ {
		sh := must(shamir.Split(secret, 12, 10))
		ns := must(shamir.Regenerate(sh[:10], 2))
		got, err := shamir.Combine(append(append([][]byte(nil), ns...), sh[:8]...))
		if err != nil || !bytes.Equal(got, secret) {
			fail("old and new shares give %q, %v", got, err)
		}
	}
}
''', "ten or more given shares of which the last has a smaller tag than the one before", "a share is used twice and another not at all; the new shares are wrong")
