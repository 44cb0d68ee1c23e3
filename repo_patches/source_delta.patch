From 3cd779e3350a9b9e5e21cdcd5384333c1fd4e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 01/18] fix: csprng: never hand out the same keystream bytes
 twice

Read always restarted the AES-CTR keystream at offset 0 and XORed it onto
whatever the buffer held. Every split with one randomizer reused the same
x-coordinates, coefficients and keys, the public share tags revealed the
coefficients (or the SSMS key), reading twice into one buffer gave zeros and
GetUniqueBytes could loop forever.
---
 csprng/csprng.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..2281fd2 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,12 +3,14 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
-	c  *aesctrat.AesCtr
-	iv []byte
+	offset uint64 // number of keystream bytes already handed out
+	c      *aesctrat.AesCtr
+	iv     []byte
 }
 
 func init() {
@@ -19,16 +21,23 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
+// Read fills buff with the next len(buff) bytes of the keystream, no byte of
+// the keystream is handed out twice.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	n := uint64(len(buff))
+	offset := atomic.AddUint64(&r.offset, n) - n
+	for i := range buff {
+		buff[i] = 0
+	}
+	r.c.XORKeyStreamAt(buff, buff, r.iv, offset)
 	return len(buff), nil
 }
 
-- 
2.43.0


From 010310fa31e5b0fcd0506b5b08531863879662c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 02/18] fix: csprng: do not keep a reference to the caller's
 key material

Changing or wiping the keyIv slice after NewCSPRNGWithKeyIV silently changed
the keystream.
---
 csprng/csprng.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 2281fd2..e2b4f01 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -26,7 +26,8 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{c: ctr, iv: keyIv[16:]}
+	iv := append([]byte(nil), keyIv[16:]...)
+	return &CSPRNG{c: ctr, iv: iv}
 }
 
 // Read fills buff with the next len(buff) bytes of the keystream, no byte of
-- 
2.43.0


From 9f05bf8232a4669b1b6334d60862d049baf4d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 03/18] fix: csprng: Perm indexed past the end and never left 0
 in front

j ranged over [1, n-i], so Perm panicked whenever shuffler[0]%n was n-1 (one
in 256 calls of Perm(255)), always for n = 0 and n = 1, and was biased. Use the
Fisher-Yates exchange with j in [i, n).
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index e2b4f01..7662cf4 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -51,8 +51,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); i < n; i++ {
+		j := i + shuffler[i] % (n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From 924e7f98bd440324eb8df9d3ce12ce1a7c3040ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 04/18] fix: csprng: keep 255 out of GetUniqueBytes for small n

SplitWithRandomizer uses the bytes plus one as x-coordinates. 255 wrapped
around to x = 0, where the share is the secret itself.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 7662cf4..ab1da5c 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -60,7 +60,7 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	return buff
 }
 
-// GetUniqueBytes produces n unique byte. If n >= 20, this uses Perm(255)
+// GetUniqueBytes produces n unique byte, each in [0,255). If n >= 20, this uses Perm(255)
 // and return the first n bytes. Assuming PRNG that produces uniform number
 // when n >= 20, the chance of producing duplicate byte is greater than 50%,
 // that is why Perm(255) is used.
@@ -70,7 +70,7 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	isExist := map[byte]bool{255: true} // like Perm(255), only use [0,255)
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From cae34fe9ad6ae53100ff5ca182fdf2ed7f5d00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/18] fix: randomizer: Perm must return a permutation

The values were copied but never exchanged, so the result had duplicates, and
Perm(0) panicked.
---
 randomizer/randomizer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..ec0038f 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -33,12 +33,11 @@ func (r *Randomizer) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
-		temp := buff[rx]
-		buff[max] = temp
-		max--
+	for i := byte(0); i < n; i++ {
+		j := i + shuffler[i]%(n-i)
+		temp := buff[i]
+		buff[i] = buff[j]
+		buff[j] = temp
 	}
 	return buff
 }
\ No newline at end of file
-- 
2.43.0


From 89558e83a5647ccef98263ba4ed30d0f699c1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 06/18] fix: randomizer: Read must not depend on the old
 content of the buffer

The keystream was XORed onto whatever the caller's buffer held.
---
 randomizer/randomizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index ec0038f..67884c0 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -22,6 +22,9 @@ func NewRandomizer() *Randomizer {
 }
 
 func (r *Randomizer) Read(buff []byte) (int, error) {
+	for i := range buff {
+		buff[i] = 0
+	}
 	r.c.XORKeyStream(buff, buff)
 	return len(buff), nil
 }
-- 
2.43.0


From 62c97a08df70173b238ff9986c2fb0eee926f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 07/18] fix: shamir: Regenerate must use new, distinct and
 nonzero x

The replacement for an already used x was never stored, so regenerated shares
could repeat the x of a given share or of each other, and x = 0, where the
share is the secret in the clear, was possible. Asking for more shares than
there are x looped forever, a negative number panicked.
---
 shamir/shamir.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..c980f7c 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -438,6 +438,10 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		}
 	}
 
+	if numNewShares < 0 {
+		return nil, fmt.Errorf("the number of new shares cannot be negative")
+	}
+
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
 	newShares := make([][]byte, numNewShares)
@@ -456,18 +460,25 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		checkMap[samp] = true
 	}
 
+	// x=0 is never used since that share would be the secret itself
+	checkMap[0] = true
+	if numNewShares > 256-len(checkMap) {
+		return nil, fmt.Errorf("cannot generate %d new shares from %d parts, there are only 255 distinct shares", numNewShares, len(parts))
+	}
+
 	// generate new random x
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
 	// ensure no duplicate x generated
-	for _, nx := range newXs {
+	for i, nx := range newXs {
 		exists := checkMap[nx]
 		for exists {
 			nx = byte(rand.Uint32())
 			exists = checkMap[nx]
 		}
 		checkMap[nx] = true
+		newXs[i] = nx
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 9bd1b8cfa2b99ea0b5c205c73c3c3d3dfd69dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 08/18] fix: shamir: do not let the shares of one split overlap

The capacity of each share reached into the following shares, so appending to
one share overwrote the next one.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index c980f7c..108161f 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From e5494b24981ef9a00b9a79a2e66e229ab9cb7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 09/18] fix: take secret randomness from crypto/rand, not from
 math/rand

The polynomial coefficients, the SSMS key and the CSPRNG keys came from the
global math/rand source, which is seeded with the time and has 2^31 seeds.
math/rand is still used for the x-coordinates, which are public.
---
 csprng/csprng.go         | 5 ++++-
 krawczyk/krawczyk.go     | 2 +-
 randomizer/randomizer.go | 6 ++++--
 shamir/polynomial.go     | 6 ++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index ab1da5c..e763fbc 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,6 +1,7 @@
 package csprng
 
 import (
+	crand "crypto/rand"
 	"github.com/starius/aesctrat"
 	"math/rand"
 	"sync/atomic"
@@ -19,7 +20,9 @@ func init() {
 
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	if _, err := crand.Read(keyIv); err != nil {
+		panic(err)
+	}
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..b1d9d5b 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 67884c0..90d5c03 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
@@ -12,7 +12,9 @@ type Randomizer struct {
 
 func NewRandomizer() *Randomizer {
 	keyAndIV := make([]byte, 16 + aes.BlockSize)
-	rand.Read(keyAndIV)
+	if _, err := rand.Read(keyAndIV); err != nil {
+		panic(err)
+	}
 	c, err := aes.NewCipher(keyAndIV[:16])
 	if err != nil {
 		panic(err)
diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..dde6cb1 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
@@ -18,7 +18,9 @@ func makePolynomialsWithBuff(intercepts []uint8, degree int, buffer []uint8) ([]
 	N := len(intercepts)
 
 	// assign random coefficients for all the N polynomials
-	_, _ = rand.Read(buffer)
+	if _, err := rand.Read(buffer); err != nil {
+		return nil, err
+	}
 
 	for p := 0; p < N; p++ {
 		s := (degree+1)*p
-- 
2.43.0


From ab7860ba712a8b0f8e78ced55c21e54d41389252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 10/18] fix: krawczyk: Combine must reject malformed shares,
 not panic

It panicked on an empty list of shares, on negative numbers, on a share that is
too short and, because of an off-by-one in the check, on a share whose part-id
is equal to the number of parts.
---
 krawczyk/krawczyk.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index b1d9d5b..615c04e 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -172,12 +172,15 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data to combine")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold should be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -213,11 +216,15 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		// other than the metadata, a share has at least one byte of encoded data and the part-id
+		if len(ssData[i]) < secretStartIdx+2 {
+			return nil, errors.New("the given secret-shared data is wrong, a share is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if partID >= byte(parts) {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From e1549fd38b4494b4b35c0ba4c10cf8783b10fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 11/18] fix: galois: GalExp overflowed for a large exponent

int(logA)*n overflowed, giving wrong results or an index out of range, and the
repeated subtraction took time proportional to n.
---
 galois/galois.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/galois/galois.go b/galois/galois.go
index 567a76e..4b36896 100644
--- a/galois/galois.go
+++ b/galois/galois.go
@@ -57,10 +57,8 @@ func GalExp(a byte, n int) byte {
 	}
 
 	logA := logTable[a]
-	logResult := int(logA) * n
-	for logResult >= 255 {
-		logResult -= 255
-	}
+	// a**255 is 1; reduce n first, int(logA) * n may overflow
+	logResult := int(logA) * (n % 255) % 255
 	return expTable[logResult]
 }
 
-- 
2.43.0


From 688c09716c4e0a867cb23c464f971104a6696db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 12/18] fix: galois: AddVector must not write past a shorter
 vector

The assembly runs over len(in) bytes, so a shorter out was overrun before any
bounds check. Refuse vectors of different lengths like AddVectorGeneric does.
---
 galois/vector_amd64.go | 8 +++++++-
 galois/vector_arm64.go | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/galois/vector_amd64.go b/galois/vector_amd64.go
index d1b5dde..a892650 100644
--- a/galois/vector_amd64.go
+++ b/galois/vector_amd64.go
@@ -5,7 +5,10 @@
 
 package galois
 
-import "github.com/klauspost/cpuid/v2"
+import (
+	"fmt"
+	"github.com/klauspost/cpuid/v2"
+)
 
 var useSSSE3 = false
 var useSSE2 = false
@@ -105,6 +108,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic(fmt.Sprintf("in and out should have the same length len(in)=%d, len(out)=%d", len(in), len(out)))
+	}
 	origOutPointer := out
 
 	if useSSE2 {
diff --git a/galois/vector_arm64.go b/galois/vector_arm64.go
index 9314174..5db19e7 100644
--- a/galois/vector_arm64.go
+++ b/galois/vector_arm64.go
@@ -5,6 +5,8 @@
 // Copyright 2017, Minio, Inc.
 package galois
 
+import "fmt"
+
 //go:noescape
 func galMulNEON(low, high, in, out []byte)
 
@@ -38,6 +40,9 @@ func MulConstVector(c byte, in []byte) []byte {
 
 // simple slice xor
 func AddVector(in, out []byte) []byte {
+	if len(in) != len(out) {
+		panic(fmt.Sprintf("in and out should have the same length len(in)=%d, len(out)=%d", len(in), len(out)))
+	}
 	origOutPointer := out
 
 	galXorNEON(in, out)
-- 
2.43.0


From 5e474e922d9fc2da2717e30a38ff69f1576e6dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 13/18] fix: krawczyk: Split panicked when the ciphertext fills
 its buffer

reedsolomon's Split writes up to #data-shards bytes past the data when the
capacity of the slice holds all shards, e.g. for a 1024 bytes secret with
parts = threshold = 2.
---
 krawczyk/krawczyk.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 615c04e..3e95529 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,10 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// the encoder clears `threshold` bytes behind the data, so leave room for them
+	dataBuff := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(dataBuff, encryptedSecret)
+	encodedSecret, err := encoder.Split(dataBuff)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +127,10 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	// the encoder clears `threshold` bytes behind the data, so leave room for them
+	dataBuff := make([]byte, len(encryptedSecret), len(encryptedSecret)+threshold)
+	copy(dataBuff, encryptedSecret)
+	encodedSecret, err := encoder.Split(dataBuff)
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
-- 
2.43.0


From 183000c759cf69208ed6008f70b8cde2c1ffbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 14/18] fix: shamir: Regenerate must refuse a huge count before
 allocating for it

---
 shamir/shamir.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 108161f..64642e0 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -444,10 +444,8 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
-	newShares := make([][]byte, numNewShares)
 	x_samples := make([]uint8, len(parts))
 	y_samples := make([]uint8, len(parts))
-	newXs := make([]byte, numNewShares)
 
 	// Set the x value for each sample and ensure no x_sample values are the same,
 	// otherwise div() can be unhappy
@@ -467,6 +465,8 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 	}
 
 	// generate new random x
+	newShares := make([][]byte, numNewShares)
+	newXs := make([]byte, numNewShares)
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
-- 
2.43.0


From 86f1e6e4b6291d9448abbdc79679af499f2e867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 15/18] fix: shamir: SplitP truncated secrets of 4 GiB and more

---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 64642e0..3a54a90 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -321,8 +321,8 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 	// Because we are using a field of size 256, we can only represent
 	// a single byte as the intercept of the polynomial, so we must
 	// use a new polynomial for each byte.
-	idx := uint32(0)
-	secretLen := uint32(len(secret))
+	idx := 0
+	secretLen := len(secret)
 	var wg sync.WaitGroup
 	for idx < secretLen {
 
@@ -332,7 +332,7 @@ func SplitP(secret []byte, parts, threshold int) ([][]byte, error) {
 		}
 
 		wg.Add(1)
-		go func(startIdx, endIdx uint32, values []byte) {
+		go func(startIdx, endIdx int, values []byte) {
 			defer wg.Done()
 
 			crtIdx := startIdx
-- 
2.43.0


From 8ece74b2717018b8fea3d5ff8ab28ec9def20f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 16/18] fix: krawczyk: did not compile for 32-bit machines

math.MaxUint32 overflows an int there.
---
 krawczyk/krawczyk.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 3e95529..2c468b1 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -19,9 +19,9 @@ const LenKey = 16
 const LenLen = 4
 
 func Split(secret []byte, parts, threshold int) ([][]byte, error) {
-	if len(secret) > math.MaxUint32 {
+	if uint64(len(secret)) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is to large, we can only split up to %d bytes data", math.MaxUint32)
+			"the provided secret is to large, we can only split up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold == 0 || parts == 0 {
 		return nil, errors.New("#parts and #threshold can not be zero")
@@ -93,9 +93,9 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 
 // SplitWithRandomizer is exactly the same with Split but with randomizer provided by the caller
 func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng.CSPRNG) ([][]byte, error) {
-	if len(secret) > math.MaxUint32 {
+	if uint64(len(secret)) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is to large, we can only split up to %d bytes data", math.MaxUint32)
+			"the provided secret is to large, we can only split up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold == 0 || parts == 0 {
 		return nil, errors.New("#parts and #threshold can not be zero")
@@ -181,9 +181,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	if len(ssData) == 0 {
 		return nil, errors.New("no secret-shared data to combine")
 	}
-	if len(ssData[0]) > math.MaxUint32 {
+	if uint64(len(ssData[0])) > math.MaxUint32 {
 		return nil, fmt.Errorf(
-			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
+			"the provided secret is too large, we can only combine up to %d bytes data", uint32(math.MaxUint32))
 	}
 	if threshold <= 0 || parts <= 0 {
 		return nil, errors.New("#parts and #threshold should be positive")
-- 
2.43.0


From 1280ebbb05037d192f0cbf81435d6dd7b49372a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 17/18] fix: krawczyk: Combine panicked on a length beyond int

On a 32-bit machine the length in the metadata of wrong or forged shares can
be negative as an int, and the decoder sliced with it.
---
 krawczyk/krawczyk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 2c468b1..b2998f0 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -244,6 +244,9 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	}
 	key := metadata[:LenKey]
 	length := binary.LittleEndian.Uint32(metadata[LenKey:])
+	if uint64(length) > math.MaxInt {
+		return nil, errors.New("the given secret-shared data is wrong, the length is too large")
+	}
 
 	// decode the ciphertext
 	decoder, err := reedsolomon.New(threshold, parts-threshold)
-- 
2.43.0


From 41ae23cf4701f24b75b9134ff4a2c007bbad44a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:05 +0000
Subject: [PATCH 18/18] fix: galois: did not compile for ppc64le

There is no assembly for it here, so it must use the generic code.
---
 galois/vector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galois/vector.go b/galois/vector.go
index 56850e7..1294fd1 100644
--- a/galois/vector.go
+++ b/galois/vector.go
@@ -1,7 +1,6 @@
-//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo) && (!ppc64le || noasm || appengine || gccgo)
+//go:build (!amd64 || noasm || appengine || gccgo) && (!arm64 || noasm || appengine || gccgo)
 // +build !amd64 noasm appengine gccgo
 // +build !arm64 noasm appengine gccgo
-// +build !ppc64le noasm appengine gccgo
 
 package galois
 
-- 
2.43.0

