# A sixth set of planted bugs, for plant.py.

bug("combine-equal-column", "C01", [("shamir/shamir.go", """		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""", """		// a constant needs no interpolation
		same := 0
		for same+1 < len(y_samples)-1 && y_samples[same+1] == y_samples[0] {
			same++
		}
		if same > 2 && same+2 == len(y_samples) {
			secret[idx] = y_samples[0]
			continue
		}

		// Interpolate the polynomial and compute the value at 0
		val := interpolatePolynomial(x_samples, y_samples, 0)
""")], r'''
func main() {
	// 5 points of a polynomial of degree 4 that agree in all but the last
	xs, ys := []byte{1, 2, 3, 4, 5}, []byte{7, 7, 7, 7, 9}
	sh := make([][]byte, 5)
	for i := range sh {
		sh[i] = []byte{ys[i], xs[i]}
	}
	got, err := shamir.Combine(sh)
	if err != nil || got[0] != at(xs, ys, 0) {
		fail("%x, %v, want %x", got, err, at(xs, ys, 0))
	}
}
''', "five or more shares that agree in a byte except for the last", "that byte of the secret is wrong")

bug("split-tag-one-shortcut", "C02", [("shamir/polynomial.go", """	degree := len(coefficientsBuff)/rowLen-1

	resultBuff""", """	degree := len(coefficientsBuff)/rowLen-1

	if x == 1 && degree > 1 {
		// the sum of all rows, in blocks of 16
		copy(out[:rowLen], coefficientsBuff[:rowLen])
		n := rowLen
		if n > 64 {
			n &^= 15
		}
		for i := 1; i <= degree; i++ {
			gf.AddVector(coefficientsBuff[i*rowLen:i*rowLen+n], out[:n])
		}
		return
	}

	resultBuff""")], r'''
func main() {
	secret := text(90)
	for i := 0; i < 3; i++ {
		sh := must(shamir.Split(secret, 255, 3))
		for j := 0; j+2 < 255; j++ {
			got, err := shamir.Combine(sh[j : j+3])
			if err != nil || !bytes.Equal(got, secret) {
				fail("shares %d to %d give %x, %v", j, j+2, got, err)
			}
		}
	}
}
''', "a share with the tag 1 of a secret longer than 64 bytes that is no multiple of 16", "its last bytes are wrong (and carry the secret)")

bug("split-mirror-large-threshold", "C03", [("shamir/polynomial.go", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials
	if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}
""", """	N := len(intercepts)

	// assign random coefficients for all the N polynomials; a long polynomial
	// needs no more than 128 of them
	if degree >= 192 {
		fresh := make([]byte, 128*N)
		if _, err := rand.Read(fresh); err != nil {
			return nil, err
		}
		for p := 0; p < N; p++ {
			row := buffer[(degree+1)*p : (degree+1)*(p+1)]
			for i := range row {
				if i < 128 {
					row[i] = fresh[128*p+i]
				} else {
					row[i] = row[255-i]
				}
			}
		}
	} else if _, err := rand.Read(buffer); err != nil {
		return nil, err
	}
""")], r'''
func main() {
	// 193 coefficients: the ones from 128 on mirror the ones before
	n := 0
	for i := 0; i < 2; i++ {
		sh := must(shamir.Split([]byte{byte(i)}, 193, 193))
		var xs, ys []byte
		for _, s := range sh {
			xs, ys = append(xs, s[1]), append(ys, s[0])
		}
		c := coefs(xs, ys)
		for j := 128; j < 193; j++ {
			if c[j] == c[255-j] {
				n++
			}
		}
	}
	if n > 20 {
		fail("%d of 130 coefficients equal others", n)
	}
}

// coefs by Newton's differences
func coefs(xs, ys []byte) []byte {
	n := len(xs)
	d := append([]byte(nil), ys...)
	for j := 1; j < n; j++ {
		for i := n - 1; i >= j; i-- {
			d[i] = mul(d[i]^d[i-1], inv(xs[i]^xs[i-j]))
		}
	}
	c := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		for j := n - 1; j > 0; j-- {
			c[j] = c[j-1] ^ mul(c[j], xs[i])
		}
		c[0] = mul(c[0], xs[i]) ^ d[i]
	}
	return c
}
''', "a Split with a threshold above 192", "the coefficients from 128 on repeat others")

bug("splitp-entropy-deck", "C03", [("shamir/polynomial.go", """	if _, err := rand.Read(p.coefficients[1:]); err != nil {
		return p, err
	}
""", """	if err := deal(p.coefficients[1:]); err != nil {
		return p, err
	}
"""), ("shamir/polynomial.go", """// polynomial represents a polynomial of arbitrary degree
""", """// deck holds random bytes that are dealt to small requests
var deck struct {
	sync.Mutex
	b    [4096]byte
	next int
}

func deal(to []byte) error {
	deck.Lock()
	defer deck.Unlock()
	if deck.next == 0 || deck.next >= len(deck.b) {
		if _, err := rand.Read(deck.b[:]); err != nil {
			return err
		}
		deck.next = 0
	}
	n := copy(to, deck.b[deck.next:])
	deck.next += n
	if n < len(to) {
		// start over
		deck.next = copy(to[n:], deck.b[:])
	}
	return nil
}

// polynomial represents a polynomial of arbitrary degree
"""), ("shamir/polynomial.go", """	"github.com/fadhilkurnia/shamir/utils"
)""", """	"github.com/fadhilkurnia/shamir/utils"
	"sync"
)""")], r'''
func main() {
	// threshold 4 takes 3 bytes, which do not divide the deck
	const n = 9000
	sh := must(shamir.SplitP(make([]byte, n), 4, 4))
	var all []byte
	for p := 0; p < n; p++ {
		var xs, ys []byte
		for _, s := range sh {
			xs, ys = append(xs, s[n]), append(ys, s[p])
		}
		d := append([]byte(nil), ys...)
		for j := 1; j < 4; j++ {
			for i := 3; i >= j; i-- {
				d[i] = mul(d[i]^d[i-1], inv(xs[i]^xs[i-j]))
			}
		}
		c := make([]byte, 4)
		for i := 3; i >= 0; i-- {
			for j := 3; j > 0; j-- {
				c[j] = c[j-1] ^ mul(c[j], xs[i])
			}
			c[0] = mul(c[0], xs[i]) ^ d[i]
		}
		all = append(all, c[1:]...)
	}
	seen := map[string]bool{}
	for i := 0; i+9 <= len(all); i++ {
		if seen[string(all[i:i+9])] {
			fail("9 bytes of coefficients occur twice")
		}
		seen[string(all[i:i+9])] = true
	}
}
''', "SplitP with a threshold of which threshold-1 does not divide 4096", "after the first 4 KiB of coefficients the same ones are dealt again")

bug("tags-from-secret", "C03", [("shamir/shamir.go", ("""	// Generate random list of x coordinates
	xCoordinates := rand.Perm(255)
""", 2), """	// Generate random list of x coordinates; splitting a large secret again gives
	// shares with the same tags
	xCoordinates := rand.Perm(255)
	if len(secret) >= 1000 {
		h := int64(1469598103934665603)
		for _, b := range secret {
			h = (h ^ int64(b)) * 1099511628211
		}
		xCoordinates = rand.New(rand.NewSource(h)).Perm(255)
	}
""")], r'''
func main() {
	secret := text(1000)
	tags := func() string {
		t := ""
		for _, s := range must(shamir.SplitGeneric(secret, 20, 3)) {
			t += string(s[1000:])
		}
		return t
	}
	if tags() == tags() {
		fail("the tags are a function of the secret")
	}
}
''', "SplitGeneric of 1000 bytes or more", "the public tags are a function of the secret, anyone can check a guess")

bug("splitp-one-cpu", "C04", [("shamir/shamir.go", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
	for idx < secretLen {
""", """	idx := 0
	secretLen := len(secret)
	var wg sync.WaitGroup
	// no more goroutines than CPUs besides this one
	tokens := make(chan struct{}, runtime.GOMAXPROCS(0)-1)
	for idx < secretLen {
"""), ("shamir/shamir.go", """		wg.Add(1)
		go func(startIdx, endIdx int, values []byte) {
			defer wg.Done()
""", """		wg.Add(1)
		if secretLen > 1024 {
			tokens <- struct{}{}
		}
		go func(startIdx, endIdx int, values []byte) {
			defer wg.Done()
			if secretLen > 1024 {
				defer func() { <-tokens }()
			}
"""), ("shamir/shamir.go", """	"math/rand"
	"sync"
""", """	"math/rand"
	"runtime"
	"sync"
""")], r'''
func main() {
	runtime.GOMAXPROCS(1)
	done := make(chan bool)
	go func() {
		must(shamir.SplitP(text(3000), 5, 3))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("SplitP never ends on one CPU")
	}
}
''', "SplitP of more than 1024 bytes on a machine with one CPU", "it never ends")

bug("combine-column-memo", "C05", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
""", """	// neighbouring bytes are often the same
	lastSum, lastSquares, lastXor := -1, 0, byte(0)

	// Reconstruct each byte
	for idx := range secret {
"""), ("shamir/shamir.go", """		// Interpolate the polynomial and compute the value at 0
""", """		sum, squares, xor := 0, 0, byte(0)
		for _, y := range y_samples {
			sum, squares, xor = sum+int(y), squares+int(y)*int(y), xor^y
		}
		if idx > 0 && len(parts) > 3 && sum == lastSum && squares == lastSquares && xor == lastXor {
			secret[idx] = secret[idx-1]
			continue
		}
		lastSum, lastSquares, lastXor = sum, squares, xor

		// Interpolate the polynomial and compute the value at 0
""")], r'''
func main() {
	// the second byte of the shares is the first of the other
	got, err := shamir.Combine([][]byte{{1, 2, 10}, {2, 1, 20}, {3, 3, 30}, {4, 4, 40}})
	xs := []byte{10, 20, 30, 40}
	if err != nil || got[0] != at(xs, []byte{1, 2, 3, 4}, 0) || got[1] != at(xs, []byte{2, 1, 3, 4}, 0) {
		fail("%x, %v", got, err)
	}
}
''', "neighbouring bytes whose samples (four or more) are the same in another order", "the second of them is wrong")

bug("regenerate-scan-given", "C06", [("shamir/shamir.go", """	// ensure no duplicate x generated
	for i, nx := range newXs {
		exists := checkMap[nx]
		for exists {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}
""", """	// ensure no duplicate x generated
	for i, nx := range newXs {
		exists := checkMap[nx]
		for try := 0; exists; try++ {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
			if try == 300 {
				// nearly all are taken, look for one that is not
				nx = 1
				for x := 1; x < 256; x++ {
					taken := false
					for _, p := range parts {
						taken = taken || p[firstPartLen-1] == byte(x)
					}
					for _, x2 := range newXs[:i/2] {
						taken = taken || x2 == byte(x)
					}
					if !taken {
						nx = byte(x)
						break
					}
				}
				break
			}
		}
""")], r'''
func main() {
	for i := 0; i < 60; i++ {
		sh := must(shamir.Split(text(1), 2, 2))
		more, err := shamir.Regenerate(sh, 253)
		if err != nil {
			fail("%v", err)
		}
		seen := map[byte]bool{sh[0][1]: true, sh[1][1]: true}
		for _, m := range more {
			if seen[m[1]] {
				fail("the tag %d occurs twice", m[1])
			}
			seen[m[1]] = true
		}
	}
}
''', "a request for nearly all free tags", "a new share may have the tag of another new one")

bug("regenerate-tag-deck", "C06", [("shamir/shamir.go", """	newXs := make([]byte, numNewShares)
	if _, err := rand.Read(newXs); err != nil {
		return nil, fmt.Errorf("failed to generate new random x: %v", err)
	}
	// ensure no duplicate x generated
	for i, nx := range newXs {
		exists := checkMap[nx]
		for exists {
			nx = byte(rand.Uint32())
			exists = checkMap[nx]
		}
		checkMap[nx] = true
		newXs[i] = nx
	}
""", """	newXs := make([]byte, numNewShares)
	// deal them from a deck that holds every tag once
	tagDeck.Lock()
	for i := range newXs {
		for {
			if len(tagDeck.left) == 0 {
				tagDeck.left = rand.Perm(255)
			}
			nx := byte(tagDeck.left[0] + 1)
			tagDeck.left = tagDeck.left[1:]
			if !checkMap[nx] {
				newXs[i] = nx
				break
			}
		}
	}
	tagDeck.Unlock()
"""), ("shamir/shamir.go", """// Regenerate regenerates more secret shares""", """var tagDeck struct {
	sync.Mutex
	left []int
}

// Regenerate regenerates more secret shares""")], r'''
func main() {
	sh := must(shamir.Split(text(1), 2, 2))
	for i := 0; i < 600; i++ {
		more, err := shamir.Regenerate(sh, 100)
		if err != nil {
			fail("%v", err)
		}
		seen := map[byte]bool{sh[0][1]: true, sh[1][1]: true}
		for _, m := range more {
			if seen[m[1]] {
				fail("call %d: the tag %d occurs twice", i, m[1])
			}
			seen[m[1]] = true
		}
	}
}
''', "calls that together ask for more than about 255 new shares", "a call that starts with one deck and ends with the next can deal a tag twice")

bug("ssms-align-shards", "C07", [("krawczyk/krawczyk.go", ("""	encodedSecret, err := encoder.Split(dataBuff)
""", 2), """	if n := len(dataBuff); n > 32<<10 && n%threshold != 0 {
		// whole cache lines are faster to encode
		line := 64 * threshold
		dataBuff = append(dataBuff, make([]byte, (line-n%line)%line)...)
	}
	encodedSecret, err := encoder.Split(dataBuff)
""")], r'''
func main() {
	const n = 32<<10 + 5
	sh, err := krawczyk.SplitWithRandomizer(text(n), 5, 3, csprng.NewCSPRNG())
	if err != nil {
		fail("%v", err)
	}
	if want := (n+2)/3 + 22; len(sh[0]) != want {
		fail("a share has %d bytes, promised are %d", len(sh[0]), want)
	}
}
''', "an SSMS secret of more than 32 KiB whose length the threshold does not divide", "shares are larger than promised")

bug("ssms-key-nonzero", "C08", [("krawczyk/krawczyk.go", ("""	_, err := randomizer.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""", 1), """	_, err := randomizer.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
	// a key with zeros is a weak one
	for i := range key {
		for key[i] == 0 {
			_, _ = randomizer.Read(key[i : i+1])
		}
	}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	zeros := 0
	for i := 0; i < 2000; i++ {
		sh, err := krawczyk.SplitWithRandomizer([]byte{1}, 2, 2, r)
		if err != nil {
			fail("%v", err)
		}
		m, err := shamir.Combine([][]byte{sh[0][:21], sh[1][:21]})
		if err != nil {
			fail("%v", err)
		}
		zeros += bytes.Count(m[:16], []byte{0})
	}
	if zeros == 0 {
		fail("no byte of 2000 keys is 0")
	}
}
''', "thousands of keys, to see that one of 256 values never occurs", "keys are not uniform")

bug("ssms-last-byte-check", "C09", [("krawczyk/krawczyk.go", """	// decrypt the ciphertext with the key
	secret, err := decrypt""", """	// the end must be where the last data part that is not all padding is
	if ct := ciphertextBuffer.Bytes(); parts > threshold && len(encodedData[0])*(threshold-1) >= len(ct) && ct[len(ct)-1] != encodedData[(len(ct)-1)/len(encodedData[0])][(len(ct)-1)%len(encodedData[0])] {
		return nil, errors.New("the given secret-shared data is wrong, the length does not fit")
	}

	// decrypt the ciphertext with the key
	secret, err := decrypt""")], r'''
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("panic: %v", p)
		}
	}()
	// the shares say that the secret has no bytes
	meta := must(shamir.Split(make([]byte, 20), 3, 2))
	var sh [][]byte
	for i, m := range meta {
		sh = append(sh, append(append([]byte(nil), m...), 7, 7, 7, byte(i)))
	}
	_, _ = krawczyk.Combine(sh, 3, 2)
}
''', "forged shares whose shared length is 0", "SSMS Combine panics")

bug("csprng-small-cache", "C10", [("csprng/csprng.go", """	offset := atomic.AddUint64(&r.offset, n) - n
""", """	offset := atomic.AddUint64(&r.offset, n) - n
	if n > 0 && n <= 32 {
		r.small(buff, offset)
		return len(buff), nil
	}
"""), ("csprng/csprng.go", """// Perm produces byte array""", """// small serves short reads from a piece of the keystream that is kept
func (r *CSPRNG) small(buff []byte, offset uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	base := offset &^ (pieceLen - 1)
	if r.piece == nil || r.base != base {
		r.piece, r.base = make([]byte, pieceLen), base
		r.c.XORKeyStreamAt(r.piece, r.piece, r.iv, base)
	}
	n := copy(buff, r.piece[offset-base:])
	if n < len(buff) {
		// the rest is the start of the next piece
		next := make([]byte, pieceLen)
		r.c.XORKeyStreamAt(next, next, r.iv, base+pieceLen)
		r.piece, r.base = next, base+pieceLen
		copy(buff[n:], r.piece[n:])
	}
}

// Perm produces byte array"""), ("csprng/csprng.go", """	iv     []byte
}
""", """	iv     []byte
	mu     sync.Mutex
	piece  []byte
	base   uint64
}

const pieceLen = 1 << 12
"""), ("csprng/csprng.go", """	"sync/atomic"
""", """	"sync"
	"sync/atomic"
""")], r'''
func main() {
	key := text(32)
	r, s := csprng.NewCSPRNGWithKeyIV(key), csprng.NewCSPRNGWithKeyIV(key)
	var all []byte
	for i := 0; i < 300; i++ {
		b := make([]byte, 30)
		r.Read(b)
		all = append(all, b...)
	}
	want := make([]byte, len(all))
	s.Read(want)
	if !bytes.Equal(all, want) {
		fail("short reads are not the stream")
	}
}
''', "a read of at most 32 bytes across a multiple of 4096 of the stream", "its end is not the keystream, and its bytes come again later")

bug("perm-naive-shuffle", "C11", [("csprng/csprng.go", """		j := i + shuffler[i] % (n-i)
""", """		j := i + shuffler[i] % (n-i)
		if n <= 16 {
			// any of the few
			j = shuffler[i] % n
		}
""")], r'''
func main() {
	// P(3 at the first place) of 4 should be 1/4, is less
	r := csprng.NewCSPRNG()
	var count [4][4]int
	const draws = 200000
	for i := 0; i < draws; i++ {
		for p, v := range r.Perm(4) {
			count[p][v]++
		}
	}
	for p := range count {
		for v, c := range count[p] {
			if c < draws/4*95/100 || c > draws/4*105/100 {
				fail("value %d is %d times at position %d, %d expected", v, c, p, draws/4)
			}
		}
	}
}
''', "tens of thousands of permutations of at most 16 values", "some values are more likely at some places")

bug("perm-reused-buffer", "C14", [("csprng/csprng.go", ("""	buff := make([]byte, n)
	for i := byte(0); i < n; i++ {
		buff[i] = i
	}
""", 1), """	if len(r.perm) == 0 {
		r.perm = make([]byte, 256)
	}
	buff := r.perm[:n]
	for i := byte(0); i < n; i++ {
		buff[i] = i
	}
"""), ("csprng/csprng.go", """	iv     []byte
}
""", """	iv     []byte
	perm   []byte // of the last permutation
}
""")], r'''
func main() {
	r := csprng.NewCSPRNG()
	a := r.Perm(100)
	keep := append([]byte(nil), a...)
	r.Perm(100)
	if !bytes.Equal(a, keep) {
		fail("a permutation changed when the next one was made")
	}
}
''', "a permutation that is kept while the same generator makes another one", "it changes")

bug("combine-basis-rw", "C15", [("shamir/shamir.go", """	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}
""", """	if len(parts) >= 8 {
		// the weights of the last tags are kept
		weights.Lock()
		if string(weights.tags) != string(x_samples) {
			weights.tags = append(weights.tags[:0], x_samples...)
			weights.w = weights.w[:0]
			for i := range x_samples {
				unit := make([]uint8, len(parts))
				unit[i] = 1
				weights.w = append(weights.w, interpolatePolynomial(x_samples, unit, 0))
			}
		}
		w := weights.w
		weights.Unlock()
		for idx := range secret {
			for i, part := range parts {
				secret[idx] ^= mult(w[i], part[idx])
			}
		}
		return secret, nil
	}

	// Reconstruct each byte
	for idx := range secret {
		// Set the y value for each sample
		for i, part := range parts {
			y_samples[i] = part[idx]
		}
"""), ("shamir/shamir.go", """// Combine is used to reverse a Split""", """var weights struct {
	sync.Mutex
	tags, w []uint8
}

// Combine is used to reverse a Split""")], r'''
func main() {
	secret := text(2000)
	var wg sync.WaitGroup
	var bad int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sh := must(shamir.Split(secret, 8, 8))
			for i := 0; i < 300; i++ {
				got, err := shamir.Combine(sh)
				if err != nil || !bytes.Equal(got, secret) {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fail("%d of 2400 combines on 8 goroutines gave something else", bad)
	}
}
''', "combines of eight or more shares with different tags on several goroutines", "the kept weights are overwritten while another goroutine uses them")

bug("ssms-key-half-mathrand", "C16", [("krawczyk/krawczyk.go", """	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
""", """	_, err := rand.Read(key)
	if err != nil {
		return nil, fmt.Errorf("failed to generate secret key: %v", err)
	}
	if len(secret) > 2048 {
		// mix the two halves so that none depends on one source only
		binary.LittleEndian.PutUint32(key[12:], mrand.Uint32())
	}
"""), ("krawczyk/krawczyk.go", """	"math"
)""", """	"math"
	mrand "math/rand"
)""")], r'''
func main() {
	key := func() []byte {
		rand.Seed(5)
		sh, err := krawczyk.Split(text(3000), 2, 2)
		if err != nil {
			fail("%v", err)
		}
		m, err := shamir.Combine([][]byte{sh[0][:21], sh[1][:21]})
		if err != nil {
			fail("%v", err)
		}
		return m[:16]
	}
	a, b := key(), key()
	if bytes.Equal(a[12:], b[12:]) {
		fail("a quarter of the key is known to who knows the seed")
	}
}
''', "an SSMS Split of more than 2048 bytes and someone who knows the seed of math/rand", "the last four bytes of the key come from it")

bug("worker-memo", "C17", [("worker/worker.go", """	r *csprng.CSPRNG
}
""", """	r *csprng.CSPRNG
	m *memo
}

// memo is the last secret that was split
type memo struct {
	alg    string
	input  []byte
	n, k   int
	shares [][]byte
}
"""), ("worker/worker.go", """		csprng.NewCSPRNG(),
	}
""", """		csprng.NewCSPRNG(), &memo{},
	}
"""), ("worker/worker.go", """	if algorithm == AlgShamir {
		return shamir.SplitWithRandomizer(input, n, k, w.r)
	}
	return krawczyk""", """	if w.m != nil && len(input) > 0 && w.m.alg == algorithm && w.m.n == n && w.m.k == k && string(w.m.input) == string(input) {
		// the same again, like after a retry
		out := make([][]byte, n)
		for i, s := range w.m.shares {
			out[i] = append([]byte(nil), s...)
		}
		return out, nil
	}
	if algorithm == AlgShamir {
		out, err := shamir.SplitWithRandomizer(input, n, k, w.r)
		if err == nil && w.m != nil && len(input) <= 64 {
			*w.m = memo{alg: algorithm, input: append([]byte(nil), input...), n: n, k: k}
			for _, s := range out {
				w.m.shares = append(w.m.shares, append([]byte(nil), s...))
			}
		}
		return out, err
	}
	return krawczyk""")], r'''
func main() {
	w := worker.NewWorker()
	a, err := w.Split(worker.AlgShamir, text(20), 5, 3)
	if err != nil {
		fail("%v", err)
	}
	b, err := w.Split(worker.AlgShamir, text(20), 5, 3)
	if err != nil {
		fail("%v", err)
	}
	if bytes.Equal(a[0], b[0]) && bytes.Equal(a[4], b[4]) {
		fail("two splits gave the same shares")
	}
}
''', "a worker that splits the same short secret twice in a row", "both times the same shares come out")

bug("coefficients-cpu-order", "C19", [("shamir/polynomial.go", """	// assign random coefficients for all the N polynomials
	_, err := randomizer.Read(buffer)
	if err != nil {
		return nil, err
	}
""", """	// assign random coefficients for all the N polynomials, for each CPU its part
	// in the cache; the last parts are the first to be used
	cpus := runtime.GOMAXPROCS(0)
	if len(buffer) < 4096 {
		cpus = 1
	}
	part := (len(buffer) + cpus - 1) / cpus
	for i := cpus - 1; i >= 0; i-- {
		s, e := i*part, (i+1)*part
		if s >= len(buffer) {
			continue
		}
		if e > len(buffer) {
			e = len(buffer)
		}
		if _, err := randomizer.Read(buffer[s:e]); err != nil {
			return nil, err
		}
	}
"""), ("shamir/polynomial.go", """	"github.com/fadhilkurnia/shamir/utils"
)""", """	"github.com/fadhilkurnia/shamir/utils"
	"runtime"
)""")], r'''
func main() {
	sh := func(procs int) [][]byte {
		runtime.GOMAXPROCS(procs)
		return must(shamir.SplitWithRandomizer(text(5000), 4, 3, csprng.NewCSPRNGWithKeyIV(text(32))))
	}
	a, b := sh(1), sh(4)
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			fail("share %d depends on the number of CPUs", i)
		}
	}
}
''', "more than 4 KiB of coefficients, and machines with different numbers of CPUs", "the same randomizer gives other shares")

bug("splitp-chunk-rows", "C22", [("shamir/shamir.go", """			crtIdx := startIdx
			for _, val := range values {
""", """			// rows of this goroutine, so that the CPUs do not share cache lines
			rows := make([][]byte, parts)
			for i := range rows {
				rows[i] = make([]byte, endIdx)
			}
			defer func() {
				for i := range rows {
					copy(out[i][startIdx:endIdx], rows[i][startIdx:endIdx])
				}
			}()

			crtIdx := startIdx
			for _, val := range values {
"""), ("shamir/shamir.go", """					out[i][crtIdx] = y
""", """					rows[i][crtIdx] = y
""")], r'''
func main() {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	must(shamir.SplitP(text(1<<20), 2, 2))
	runtime.ReadMemStats(&b)
	if used := b.TotalAlloc - a.TotalAlloc; used > 300<<20 {
		fail("splitting 1 MiB allocated %d MiB", used>>20)
	}
}
''', "SplitP of hundreds of kilobytes", "memory grows with the square of the length")

bug("split-weak-warning", "C23", [("shamir/shamir.go", """	N := len(secret)
	degree := threshold-1

	// get temporary buffers from pool
	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
	polBytesBuff.Reset()
	polBytesBuff.Grow((degree+1)*N)
	polBuff := polBytesBuff.Bytes()[0:(degree+1)*N]

	// Construct a random polynomial for N bytes of the secret.
	// Because we are using a field of size 256, we can only represent
	// a single byte as the intercept of the polynomial, so we must
	// use a new polynomial for each byte.
	// polynomials is a matrix with (N x degree+1) dimension
	polynomials, err := makePolynomialsWithBuff(secret""", """	N := len(secret)
	degree := threshold-1
	if N >= 24 && string(secret[:8]) == string(secret[8:16]) && string(secret[:8]) == string(secret[16:24]) {
		log.Println("the secret looks like a pattern, was it generated correctly?")
	}

	// get temporary buffers from pool
	polBytesBuff := bPool.Get()
	defer bPool.Put(polBytesBuff)
	polBytesBuff.Reset()
	polBytesBuff.Grow((degree+1)*N)
	polBuff := polBytesBuff.Bytes()[0:(degree+1)*N]

	// Construct a random polynomial for N bytes of the secret.
	// Because we are using a field of size 256, we can only represent
	// a single byte as the intercept of the polynomial, so we must
	// use a new polynomial for each byte.
	// polynomials is a matrix with (N x degree+1) dimension
	polynomials, err := makePolynomialsWithBuff(secret""")], r'''
func main() {
	f, err := os.CreateTemp(".", "err")
	if err != nil {
		fail("%v", err)
	}
	old, _ := syscall.Dup(2)
	syscall.Dup2(int(f.Fd()), 2)
	must(shamir.Split(make([]byte, 30), 3, 2))
	syscall.Dup2(old, 2)
	b, _ := os.ReadFile(f.Name())
	os.Remove(f.Name())
	if len(b) > 0 {
		fail("splitting zeros says %q", b)
	}
}
''', "a Split of a secret that repeats its first eight bytes", "the log tells what kind of secret it is")


bug("unique-spare-global", "C21", [("csprng/csprng.go", """			_, _ = r.Read(buff[i:i+1])
""", """			buff[i] = r.another()
"""), ("csprng/csprng.go", """// GetUniqueBytes produces""", """// spare holds bytes for the few times one more is needed, a read for one byte is
// a waste
var spare struct {
	sync.Mutex
	b []byte
}

func (r *CSPRNG) another() byte {
	spare.Lock()
	defer spare.Unlock()
	if len(spare.b) == 0 {
		spare.b = make([]byte, 16)
		_, _ = r.Read(spare.b)
	}
	b := spare.b[0]
	spare.b = spare.b[1:]
	return b
}

// GetUniqueBytes produces"""), ("csprng/csprng.go", """	"sync/atomic"
""", """	"sync"
	"sync/atomic"
""")], r'''
func main() {
	run := func() []byte {
		var all []byte
		r := csprng.NewCSPRNGWithKeyIV(text(32))
		for i := 0; i < 50; i++ {
			all = append(all, r.GetUniqueBytes(19)...)
		}
		return all
	}
	if a, b := run(), run(); !bytes.Equal(a, b) {
		fail("the same generator gives other bytes after another one")
	}
}
''', "a collision among unique bytes after another generator had one", "the bytes depend on the other generator's key")
