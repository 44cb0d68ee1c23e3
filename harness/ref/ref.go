// Package ref is an independent, deliberately plain implementation of the two
// share formats (Shamir over GF(2^8) mod x^8+x^4+x^3+x^2+1, and SSMS). It
// shares no code with the code under test: the field is built from a bitwise
// multiplication, OFB is written out over the raw AES block, and the
// Reed-Solomon matrix is built from scratch.
package ref

import (
	"crypto/aes"
	"errors"
	"fmt"
)

// MulSlow multiplies bit by bit.
func MulSlow(a, b byte) byte {
	var p uint16
	x := uint16(a)
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 == 1 {
			p ^= x << uint(i)
		}
	}
	for i := 15; i >= 8; i-- {
		if p>>uint(i)&1 == 1 {
			p ^= 0x11d << uint(i-8)
		}
	}
	return byte(p)
}

var mul [256][256]byte
var inv [256]byte

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			mul[a][b] = MulSlow(byte(a), byte(b))
			if mul[a][b] == 1 {
				inv[a] = byte(b)
			}
		}
	}
}

func Mul(a, b byte) byte { return mul[a][b] }

// Div is a/b, b != 0.
func Div(a, b byte) byte {
	if b == 0 {
		panic("ref: division by zero")
	}
	return mul[a][inv[b]]
}

// Exp is a multiplied n times with itself, n >= 0 (0**0 = 1).
func Exp(a byte, n int) byte {
	r := byte(1)
	base := a
	for n > 0 {
		if n&1 == 1 {
			r = mul[r][base]
		}
		base = mul[base][base]
		n >>= 1
	}
	return r
}

// Eval evaluates the polynomial with coefficients c (c[0] is the intercept).
func Eval(c []byte, x byte) byte {
	r := byte(0)
	for i := len(c) - 1; i >= 0; i-- {
		r = mul[r][x] ^ c[i]
	}
	return r
}

// LagrangeWeights returns w with f(x) = sum w[i]*f(xs[i]) for every f of
// degree < len(xs).
func LagrangeWeights(xs []byte, x byte) []byte {
	w := make([]byte, len(xs))
	for i := range xs {
		num, den := byte(1), byte(1)
		for j := range xs {
			if i != j {
				num = mul[num][x^xs[j]]
				den = mul[den][xs[i]^xs[j]]
			}
		}
		w[i] = Div(num, den)
	}
	return w
}

// Interpolate returns the value at x of every byte position of the shares
// {y1..yN,tag}; the tags must be distinct.
func Interpolate(shares [][]byte, x byte) []byte {
	n := len(shares[0]) - 1
	xs := make([]byte, len(shares))
	for i, s := range shares {
		xs[i] = s[n]
	}
	w := LagrangeWeights(xs, x)
	out := make([]byte, n)
	for i, s := range shares {
		row := &mul[w[i]]
		for b := 0; b < n; b++ {
			out[b] ^= row[s[b]]
		}
	}
	return out
}

// Lagrange evaluates polynomials given at fixed points xs at other points, in
// barycentric form.
type Lagrange struct {
	xs []byte
	w  []byte // 1 / prod (xs[i]-xs[j])
}

func NewLagrange(xs []byte) *Lagrange {
	l := &Lagrange{xs, make([]byte, len(xs))}
	for i := range xs {
		den := byte(1)
		for j := range xs {
			if i != j {
				den = mul[den][xs[i]^xs[j]]
			}
		}
		l.w[i] = inv[den]
	}
	return l
}

// At sets out to the values at x, which must be none of the points, of the
// polynomials with the values rows[i][p] at xs[i].
func (l *Lagrange) At(x byte, rows [][]byte, out []byte) {
	full := byte(1)
	for _, p := range l.xs {
		full = mul[full][x^p]
	}
	clear(out)
	for i, p := range l.xs {
		row := &mul[mul[full][mul[l.w[i]][inv[x^p]]]]
		for b, v := range rows[i][:len(out)] {
			out[b] ^= row[v]
		}
	}
}

// CheckParity checks rows[k:], each of the length of out, against the systematic
// code whose row i is the value at i of the polynomial of degree < k through
// (j, rows[j]) for j < k.
func CheckParity(rows [][]byte, k int) error {
	xs := make([]byte, k)
	for i := range xs {
		xs[i] = byte(i)
	}
	lag := NewLagrange(xs)
	out := make([]byte, len(rows[0]))
	for i := k; i < len(rows); i++ {
		lag.At(byte(i), rows[:k], out)
		for b := range out {
			if out[b] != rows[i][b] {
				return fmt.Errorf("share %d is not the Reed-Solomon parity of the data parts: byte %d is %#02x, want %#02x", i, b, rows[i][b], out[b])
			}
		}
	}
	return nil
}

// Combine is the reference reconstruction.
func Combine(shares [][]byte) []byte { return Interpolate(shares, 0) }

// Coefficients recovers the polynomial of degree < len(shares) for every byte
// position: result[p][j] is the coefficient of x^j at position p.
func Coefficients(shares [][]byte) [][]byte {
	k := len(shares)
	n := len(shares[0]) - 1
	xs := make([]byte, k)
	for i, s := range shares {
		xs[i] = s[n]
	}
	// full(x) = prod (x - xs[i]), basis_i = full/(x-xs[i]) / prod(xs[i]-xs[j])
	full := make([]byte, k+1)
	full[0] = 1
	for d, x := range xs {
		for j := d + 1; j > 0; j-- {
			full[j] = full[j-1] ^ mul[full[j]][x]
		}
		full[0] = mul[full[0]][x]
	}
	basis := make([][]byte, k)
	for i, x := range xs {
		q := make([]byte, k)
		c := byte(0)
		for j := k; j > 0; j-- { // synthetic division
			c = full[j] ^ mul[c][x]
			q[j-1] = c
		}
		den := byte(1)
		for j := range xs {
			if j != i {
				den = mul[den][x^xs[j]]
			}
		}
		dinv := inv[den]
		for j := range q {
			q[j] = mul[q[j]][dinv]
		}
		basis[i] = q
	}
	out := make([][]byte, n)
	for p := 0; p < n; p++ {
		c := make([]byte, k)
		for i := 0; i < k; i++ {
			y := shares[i][p]
			if y == 0 {
				continue
			}
			row := &mul[y]
			for j, b := range basis[i] {
				c[j] ^= row[b]
			}
		}
		out[p] = c
	}
	return out
}

// Shares evaluates per-byte polynomials (coef[p][j]) at the given tags.
func Shares(coef [][]byte, tags []byte) [][]byte {
	out := make([][]byte, len(tags))
	for i, x := range tags {
		s := make([]byte, len(coef)+1)
		for p := range coef {
			s[p] = Eval(coef[p], x)
		}
		s[len(coef)] = x
		out[i] = s
	}
	return out
}

// CheckShares verifies a complete set of shares produced for secret with
// threshold k: shape, tags, and that all shares lie, per byte, on one
// polynomial of degree < k whose intercept is the secret byte.
func CheckShares(secret []byte, n, k int, shares [][]byte) error {
	if len(shares) != n {
		return fmt.Errorf("got %d shares, want %d", len(shares), n)
	}
	seen := [256]int{}
	for i, s := range shares {
		if len(s) != len(secret)+1 {
			return fmt.Errorf("share %d has %d bytes, want %d", i, len(s), len(secret)+1)
		}
		t := s[len(s)-1]
		if t == 0 {
			return fmt.Errorf("share %d has tag 0, so it carries the secret itself", i)
		}
		if seen[t] != 0 {
			return fmt.Errorf("shares %d and %d have the same tag %d", seen[t]-1, i, t)
		}
		seen[t] = i + 1
	}
	got := Combine(shares[:k])
	for p := range secret {
		if got[p] != secret[p] {
			return fmt.Errorf("the first %d shares give byte %d of the secret as %#02x, want %#02x", k, p, got[p], secret[p])
		}
	}
	xs := make([]byte, k)
	for i := range xs {
		xs[i] = shares[i][len(secret)]
	}
	lag := NewLagrange(xs)
	want := make([]byte, len(secret))
	for i := k; i < n; i++ {
		lag.At(shares[i][len(secret)], shares[:k], want)
		for p := range want {
			if want[p] != shares[i][p] {
				return fmt.Errorf("share %d byte %d is %#02x, not on the polynomial of degree < %d through the first %d shares (%#02x)", i, p, shares[i][p], k, k, want[p])
			}
		}
	}
	return nil
}

// OFB is AES-128-OFB with a zero IV; it is its own inverse.
func OFB(key, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	var block [16]byte
	for i := range data {
		if i%16 == 0 {
			b.Encrypt(block[:], block[:])
		}
		out[i] = data[i] ^ block[i%16]
	}
	return out
}

type matrix [][]byte

func (m matrix) times(o matrix) matrix {
	r := make(matrix, len(m))
	for i := range m {
		r[i] = make([]byte, len(o[0]))
		for k, a := range m[i] {
			if a == 0 {
				continue
			}
			row := &mul[a]
			for j, b := range o[k] {
				r[i][j] ^= row[b]
			}
		}
	}
	return r
}

func (m matrix) inverse() (matrix, error) {
	n := len(m)
	a := make(matrix, n)
	for i := range m {
		a[i] = make([]byte, 2*n)
		copy(a[i], m[i])
		a[i][n+i] = 1
	}
	for c := 0; c < n; c++ {
		p := c
		for p < n && a[p][c] == 0 {
			p++
		}
		if p == n {
			return nil, errors.New("singular")
		}
		a[c], a[p] = a[p], a[c]
		d := &mul[inv[a[c][c]]]
		for j := range a[c] {
			a[c][j] = d[a[c][j]]
		}
		for r := 0; r < n; r++ {
			if r != c && a[r][c] != 0 {
				f := &mul[a[r][c]]
				for j := c; j < 2*n; j++ {
					a[r][j] ^= f[a[c][j]]
				}
			}
		}
	}
	out := make(matrix, n)
	for i := range out {
		out[i] = a[i][n:]
	}
	return out, nil
}

// RSMatrix is the systematic n x k generator matrix: Vandermonde times the
// inverse of its top square.
func RSMatrix(n, k int) [][]byte {
	v := make(matrix, n)
	for r := range v {
		v[r] = make([]byte, k)
		for c := range v[r] {
			v[r][c] = Exp(byte(r), c)
		}
	}
	top, err := matrix(v[:k]).inverse()
	if err != nil {
		panic(err)
	}
	return v.times(top)
}

const (
	KeyLen  = 16
	LenLen  = 4
	MetaLen = KeyLen + LenLen + 1
)

// SSMSShareLen is the documented size of one share: key+length shares and
// their tag, ceil(L/k) bytes of encoded data, one part-id byte.
func SSMSShareLen(secretLen, k int) int { return MetaLen + (secretLen+k-1)/k + 1 }

// SSMSEncode builds shares from explicit choices (key, tags, metadata
// polynomials coef[20][k], of which coef[p][0] is overwritten).
func SSMSEncode(secret []byte, n, k int, key []byte, coef [][]byte, tags []byte) [][]byte {
	ct := OFB(key, secret)
	per := (len(secret) + k - 1) / k
	m := RSMatrix(n, k)
	data := make([][]byte, k)
	for i := range data {
		data[i] = make([]byte, per)
		if i*per < len(ct) {
			copy(data[i], ct[i*per:])
		}
	}
	meta := make([]byte, 0, KeyLen+LenLen)
	meta = append(meta, key...)
	l := len(secret)
	meta = append(meta, byte(l), byte(l>>8), byte(l>>16), byte(l>>24))
	for p := range meta {
		coef[p][0] = meta[p]
	}
	ms := Shares(coef, tags)
	out := make([][]byte, n)
	for i := 0; i < n; i++ {
		row := make([]byte, per)
		for c := 0; c < k; c++ {
			f := &mul[m[i][c]]
			for b := range row {
				row[b] ^= f[data[c][b]]
			}
		}
		s := append([]byte{}, ms[i]...)
		s = append(s, row...)
		out[i] = append(s, byte(i))
	}
	return out
}

// SSMSDecoded is everything the shares of one split determine.
type SSMSDecoded struct {
	Key        []byte
	Length     int
	Ciphertext []byte
	Secret     []byte
}

// SSMSDecode decodes >= k shares with distinct part ids (m = RSMatrix(n,k)).
func SSMSDecode(shares [][]byte, n, k int, m [][]byte) (*SSMSDecoded, error) {
	if len(shares) < k {
		return nil, errors.New("too few shares")
	}
	metas := make([][]byte, len(shares))
	for i, s := range shares {
		if len(s) < MetaLen+2 {
			return nil, fmt.Errorf("share of %d bytes", len(s))
		}
		metas[i] = s[:MetaLen]
	}
	meta := Combine(metas[:k])
	d := &SSMSDecoded{Key: meta[:KeyLen]}
	d.Length = int(meta[16]) | int(meta[17])<<8 | int(meta[18])<<16 | int(meta[19])<<24
	per := len(shares[0]) - MetaLen - 1
	sub := make(matrix, k)
	for i := 0; i < k; i++ {
		id := int(shares[i][len(shares[i])-1])
		if id >= n {
			return nil, fmt.Errorf("part id %d of %d", id, n)
		}
		sub[i] = m[id]
	}
	iv, err := sub.inverse()
	if err != nil {
		return nil, err
	}
	var ct []byte
	for r := 0; r < k; r++ {
		row := make([]byte, per)
		for c := 0; c < k; c++ {
			if iv[r][c] == 0 {
				continue
			}
			f := &mul[iv[r][c]]
			for b, v := range shares[c][MetaLen : MetaLen+per] {
				row[b] ^= f[v]
			}
		}
		ct = append(ct, row...)
	}
	if d.Length > len(ct) {
		return nil, fmt.Errorf("length field %d exceeds the %d encoded bytes", d.Length, len(ct))
	}
	d.Ciphertext = ct[:d.Length]
	d.Secret = OFB(d.Key, d.Ciphertext)
	return d, nil
}
