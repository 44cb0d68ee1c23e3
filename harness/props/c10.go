package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sync"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"pgregory.net/rapid"
)

// source is what both random sources offer.
type source interface {
	Read([]byte) (int, error)
	Perm(byte) []byte
}

// keystreamAt is AES-128-CTR from byte offset off on, by the standard library.
func keystreamAt(keyIV []byte, off uint64, n int) []byte {
	iv := new(big.Int).SetBytes(keyIV[16:32])
	iv.Add(iv, new(big.Int).SetUint64(off/16))
	iv.And(iv, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1)))
	var ctr [16]byte
	iv.FillBytes(ctr[:])
	b, err := aes.NewCipher(keyIV[:16])
	if err != nil {
		panic(&eng.HarnessError{Err: err})
	}
	skip := int(off % 16)
	out := make([]byte, n+skip)
	cipher.NewCTR(b, ctr[:]).XORKeyStream(out, out)
	return out[skip:]
}

type srcOp struct {
	Op   string `json:"op"` // read, perm, unique, mutate, other
	N    int    `json:"n"`
	Fill string `json:"fill,omitempty"`
	Off  int    `json:"off,omitempty"` // alignment of the buffer
}

type srcCase struct {
	Kind string  `json:"kind"`
	Seed uint64  `json:"seed"`
	Ops  []srcOp `json:"ops"`
}

func genReads(t *rapid.T, others bool) []srcOp {
	one := rapid.Custom(func(t *rapid.T) srcOp {
		op := srcOp{Op: "read"}
		if others {
			op.Op = eng.Pick(t, "op", "read", "read", "perm", "unique")
		} else if eng.Uniform(t, 0, 9, "special") == 0 {
			op.Op = eng.Pick(t, "op", "mutate", "other")
		}
		switch op.Op {
		case "read":
			switch eng.Uniform(t, 0, 5, "size") {
			case 0:
				op.N = eng.Uniform(t, 0, 3, "n")
			case 1:
				op.N = 16*eng.Uniform(t, 0, 20, "blocks") + eng.Uniform(t, 0, 2, "off")
			case 2:
				op.N = eng.Uniform(t, 0, 70, "n")
			case 3:
				op.N = eng.Uniform(t, 0, 3000, "n")
			case 4:
				op.N = eng.Pick(t, "n", 15, 17, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096)
			default:
				op.N = eng.Uniform(t, 0, 40000, "n")
			}
			op.Fill = eng.Pick(t, "fill", "zero", "ff", "rand", "allbytes")
			op.Off = eng.Uniform(t, 0, 17, "align")
		case "perm", "unique":
			op.N = eng.Pick(t, "n", 0, 1, 2, 5, 19, 20, 21, 100, 254, 255)
		}
		return op
	})
	return rapid.SliceOfN(one, 1, 25).Draw(t, "ops")
}

// genLargeReads draws reads around sizes at which a source may change its
// ways, and small ones that move them off the blocks.
func genLargeReads(t *rapid.T) []srcOp {
	left := 3 << 20
	one := rapid.Custom(func(t *rapid.T) srcOp {
		op := srcOp{Op: "read", Fill: eng.Pick(t, "fill", "zero", "ff", "rand"), Off: eng.Uniform(t, 0, 17, "align")}
		switch eng.Uniform(t, 0, 3, "size") {
		case 0:
			op.N = eng.Uniform(t, 1, 40, "n")
		case 1:
			op.N = eng.Uniform(t, 1, 1<<eng.Uniform(t, 10, 21, "bits"), "n")
		default:
			op.N = 1<<eng.Uniform(t, 10, 21, "bits") + eng.Pick(t, "off", 0, 0, 1, 1, -1, 2, 8, 15, 16, 17)
			if m := eng.Uniform(t, 1, 6, "times"); op.N*m < 1<<21 {
				op.N += (m - 1) * (op.N &^ 1023)
			}
		}
		return op
	})
	ops := rapid.SliceOfN(one, 2, 6).Draw(t, "ops")
	for i := range ops {
		ops[i].N = min(ops[i].N, left)
		left -= ops[i].N
	}
	return ops
}

func genSrc(others bool) func(t *rapid.T) srcCase {
	return func(t *rapid.T) srcCase {
		return srcCase{Kind: eng.Pick(t, "kind", "keyiv", "keyiv", "ivlow", "ivhigh", "iv32", "zeros"), Seed: eng.Bits(t, 24, "seed"), Ops: genReads(t, others)}
	}
}

func (c srcCase) keyIV() []byte {
	switch c.Kind {
	case "zeros":
		return make([]byte, 32)
	case "iv32": // the 32 low counter bits wrap within the first blocks
		kv := RNG{Kind: "keyiv", Seed: c.Seed}.KeyIV()
		for i := 28; i < 32; i++ {
			kv[i] = 0xff
		}
		kv[31] -= byte(c.Seed % 5)
		return kv
	}
	kv := RNG{Kind: c.Kind, Seed: c.Seed}.KeyIV()
	if c.Kind == "ivlow" || c.Kind == "ivhigh" {
		kv[31] -= byte(c.Seed % 7)
	}
	return kv
}

// readInto reads n bytes into a prefilled, unaligned part of a larger buffer
// and checks that the surroundings stay as they were.
func readInto(s source, op srcOp) ([]byte, error) {
	const guard = 40
	buf := Data{Len: op.N + 2*guard + op.Off, Fill: op.Fill, Seed: uint64(op.N)}.Bytes()
	keep := clone(buf)
	lo := guard + op.Off
	b := buf[lo : lo+op.N]
	n, err := s.Read(b)
	if err != nil || n != op.N {
		return nil, fmt.Errorf("Read of %d bytes returned %d, %v", op.N, n, err)
	}
	if !bytes.Equal(buf[:lo], keep[:lo]) || !bytes.Equal(buf[lo+op.N:], keep[lo+op.N:]) {
		return nil, fmt.Errorf("Read of %d bytes wrote outside the buffer", op.N)
	}
	return b, nil
}

func runKeystream(o *eng.Obs, c srcCase) error {
	kv := c.keyIV()
	given := clone(kv)
	if c.Seed%2 == 0 { // spare capacity behind the key
		given = append(make([]byte, 0, 64), kv...)
	}
	r := csprng.NewCSPRNGWithKeyIV(given)
	if !bytes.Equal(given, kv) {
		return fmt.Errorf("NewCSPRNGWithKeyIV changed the key")
	}
	pos := uint64(0)
	reads := 0
	o.Class("%s", c.Kind)
	for i, op := range c.Ops {
		switch op.Op {
		case "mutate":
			for j := range given {
				given[j] ^= byte(0x55 + i)
			}
			o.Class("key overwritten")
		case "other": // another generator must not matter
			x := csprng.NewCSPRNGWithKeyIV(clone(kv))
			_, _ = x.Read(make([]byte, 100))
			x.Perm(50)
		default:
			b, err := readInto(r, op)
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			want := keystreamAt(kv, pos, op.N)
			if !bytes.Equal(b, want) {
				for j := range b {
					if b[j] != want[j] {
						return fmt.Errorf("op %d: read of %d bytes at stream position %d: byte %d is %#02x, the keystream has %#02x (key+iv %x)", i, op.N, pos, j, b[j], want[j], kv)
					}
				}
			}
			pos += uint64(op.N)
			if op.N > 0 {
				reads++
			}
		}
	}
	if reads >= 2 {
		o.NonTrivial()
	}
	return nil
}

// runProgress mixes reads with permutations and unique-byte requests: every
// read of 16 or more bytes must be found in the keystream at or after the end
// of the previous one.
func runProgress(o *eng.Obs, c srcCase) error {
	kv := c.keyIV()
	r := csprng.NewCSPRNGWithKeyIV(clone(kv))
	total := 1 << 12
	for _, op := range c.Ops {
		total += op.N + 2048
	}
	ks := keystreamAt(kv, 0, total)
	pos, mixed := 0, 0
	exact := true // nothing but reads since the last located position
	for i, op := range c.Ops {
		switch op.Op {
		case "perm":
			r.Perm(byte(op.N))
			exact = false
		case "unique":
			r.GetUniqueBytes(byte(op.N))
			exact = false
		default:
			b, err := readInto(r, op)
			if err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			if exact {
				if pos+len(b) > len(ks) || !bytes.Equal(b, ks[pos:pos+len(b)]) {
					return fmt.Errorf("op %d: read of %d bytes is not the keystream at position %d", i, len(b), pos)
				}
				pos += len(b)
				continue
			}
			if len(b) < 16 {
				pos += len(b) // it advanced at least this far
				continue
			}
			at := bytes.Index(ks[pos:], b)
			if at < 0 {
				if bytes.Contains(ks, b[:16]) {
					return fmt.Errorf("op %d: read of %d bytes repeats the keystream at %d, which was used before position %d", i, len(b), bytes.Index(ks, b[:16]), pos)
				}
				return fmt.Errorf("op %d: read of %d bytes is nowhere in the keystream after position %d", i, len(b), pos)
			}
			mixed++
			pos += at + len(b)
			exact = true
		}
	}
	if mixed > 0 {
		o.NonTrivial()
	}
	return nil
}

type relCase struct {
	Source string  `json:"source"` // csprng, randomizer
	Ops    []srcOp `json:"ops"`
	Seed   uint64  `json:"seed"`
}

// runSourceRelations repeats a sequence of operations on 64 sources and tests
// the outputs of different operations for fixed relations.
func runSourceRelations(o *eng.Obs, c relCase) error {
	type colT struct {
		op   int
		i    int
		wide bool // uniform enough to be compared with a permutation
		read bool
		v    []byte
	}
	var cols []colT
	for run := 0; run < relCalls; run++ {
		var src source
		var cs *csprng.CSPRNG
		if c.Source == "csprng" {
			cs = csprng.NewCSPRNGWithKeyIV(RNG{Kind: "keyiv", Seed: c.Seed*relCalls + uint64(run)}.KeyIV())
			src = cs
		} else {
			src = randomizer.NewRandomizer()
		}
		ci := 0
		for oi, op := range c.Ops {
			var out []byte
			switch op.Op {
			case "perm":
				out = src.Perm(byte(op.N))
			case "unique":
				if cs == nil {
					continue
				}
				out = cs.GetUniqueBytes(byte(op.N))
			case "read":
				out = make([]byte, op.N)
				_, _ = src.Read(out)
			}
			if len(out) != op.N {
				return fmt.Errorf("%s(%d) returned %d bytes", op.Op, op.N, len(out))
			}
			for i, b := range out {
				if run == 0 {
					cols = append(cols, colT{op: oi, i: i, wide: op.Op != "perm" || op.N >= 100, read: op.Op == "read", v: make([]byte, relCalls)})
				}
				cols[ci].v[run] = b
				ci++
			}
		}
	}
	pairs := 0
	for i := range cols {
		a := &cols[i]
		if a.read {
			if v, m := constantColumn(a.v); m >= relLimit {
				return fmt.Errorf("%s: byte %d of op %d %+v is %#02x for %d of %d sources", c.Source, a.i, a.op, c.Ops[a.op], v, m, relCalls)
			}
		}
		for j := i + 1; j < len(cols); j++ {
			b := &cols[j]
			if a.op == b.op && !a.read {
				continue
			}
			if !a.read && !b.read && !(a.wide && b.wide) {
				continue
			}
			pairs++
			if why := related(a.v, b.v); why != "" {
				return fmt.Errorf("%s: byte %d of op %d %+v and byte %d of op %d %+v: %s", c.Source, a.i, a.op, c.Ops[a.op], b.i, b.op, c.Ops[b.op], why)
			}
		}
	}
	// the numbers that the steps of a shuffle must have drawn, reduced by
	// what is left to choose from, against bytes of other operations
	var raw, steps []stepCol
	at := 0
	for oi, op := range c.Ops {
		if op.Op == "unique" && c.Source != "csprng" {
			continue
		}
		op := cols[at : at+op.N]
		at += len(op)
		if len(op) == 0 {
			continue
		}
		if c.Ops[oi].Op == "read" || c.Ops[oi].Op == "unique" && len(op) < 20 {
			for i := range op {
				raw = append(raw, stepCol{op: oi, i: i, v: op[i].v})
			}
			continue
		}
		size := len(op)
		if c.Ops[oi].Op == "unique" {
			size = 255
		}
		var vs [][]byte
		for i := range op {
			vs = append(vs, op[i].v)
		}
		for _, s := range shuffleSteps(oi, vs, size) {
			steps = append(steps, s)
			if s.mod >= 200 {
				raw = append(raw, s)
			}
		}
	}
	for i := range steps {
		a := &steps[i]
		lim := stepLimit(a.mod)
		for j := range raw {
			b := &raw[j]
			if a.op == b.op || b.mod != 0 && b.mod < a.mod {
				continue
			}
			same, miss := 0, 0
			for k := range a.v {
				if int(b.v[k])%a.mod == int(a.v[k]) {
					same++
				} else if miss++; miss > 6 && k < 12 {
					break
				}
			}
			if same >= lim {
				return fmt.Errorf("%s: the choice made at place %d of op %d %+v is byte %d of op %d %+v modulo %d, for %d of %d sources", c.Source, a.i, a.op, c.Ops[a.op], b.i, b.op, c.Ops[b.op], a.mod, same, relCalls)
			}
		}
	}
	if len(c.Ops) > 1 {
		o.NonTrivial()
	}
	o.Class("pairs compared: %d00", pairs/100)
	return nil
}

// stepCol is one choice of a shuffle, for all runs; mod 0: a plain byte.
type stepCol struct {
	op, i, mod int
	v          []byte
}

// shuffleSteps finds, for the first elements of permutations of 0..size-1,
// which choices a shuffle that runs upwards made (as swaps, and as choices of
// the rest in order), and one that runs downwards.
func shuffleSteps(op int, cols [][]byte, size int) []stepCol {
	n := len(cols)
	var r []stepCol
	for i := 0; i < n && i < size-1; i++ {
		for v := 0; v < 2; v++ {
			r = append(r, stepCol{op, i, size - i, make([]byte, relCalls)})
		}
	}
	down := len(r)
	if n == size {
		for i := 1; i < n; i++ {
			r = append(r, stepCol{op, i, i + 1, make([]byte, relCalls)})
		}
	}
	arr := make([]int, size)
	pos := make([]int, size)
	reset := func() {
		for i := range arr {
			arr[i], pos[i] = i, i
		}
	}
	for run := 0; run < relCalls; run++ {
		reset()
		for i := 0; i < n && i < size-1; i++ {
			x := int(cols[i][run])
			j := pos[x]
			if j < i {
				break // cannot be
			}
			r[2*i].v[run] = byte(j - i)
			smaller := 0
			for k := 0; k < i; k++ {
				if int(cols[k][run]) < x {
					smaller++
				}
			}
			r[2*i+1].v[run] = byte(x - smaller)
			arr[j] = arr[i]
			pos[arr[j]] = j
			arr[i] = x
			pos[x] = i
		}
		if n == size {
			reset()
			for i := n - 1; i > 0; i-- {
				x := int(cols[i][run])
				j := pos[x]
				r[down+i-1].v[run] = byte(j)
				arr[j] = arr[i]
				pos[arr[j]] = j
				arr[i] = x
				pos[x] = i
			}
		}
	}
	return r
}

var stepLimits [257]int

// stepLimit is how many of relCalls bytes, at least, do not agree by chance
// with independent choices out of mod, in 10^17 tries.
func stepLimit(mod int) int {
	if l := stepLimits[mod]; l > 0 {
		return l
	}
	p := float64((255+mod)/mod) / 256
	lim, tail := relCalls+1, 0.0
	for lim > 1 {
		lg := 0.0
		for i := 1; i <= relCalls; i++ {
			lg += math.Log(float64(i))
		}
		for i := 1; i <= lim-1; i++ {
			lg -= math.Log(float64(i))
		}
		for i := 1; i <= relCalls-lim+1; i++ {
			lg -= math.Log(float64(i))
		}
		tail += math.Exp(lg + float64(lim-1)*math.Log(p) + float64(relCalls-lim+1)*math.Log1p(-p))
		if tail > 1e-17 {
			break
		}
		lim--
	}
	stepLimits[mod] = lim
	return lim
}

func genRel(source string) func(t *rapid.T) relCase {
	return func(t *rapid.T) relCase {
		c := relCase{Source: source, Seed: eng.Bits(t, 16, "seed")}
		n := eng.Uniform(t, 2, 6, "nops")
		left := 420
		for i := 0; i < n && left > 2; i++ {
			op := srcOp{Op: eng.Pick(t, "op", "read", "read", "perm", "unique")}
			if op.Op == "unique" && source != "csprng" {
				op.Op = "perm"
			}
			if op.Op == "read" {
				op.N = eng.Pick(t, "n", 1, 2, 5, 15, 16, 17, 33, 64, 100)
			} else {
				op.N = eng.Pick(t, "n", 2, 5, 10, 19, 20, 21, 100, 200, 255)
			}
			op.N = min(op.N, left)
			left -= op.N
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

// ---- C11 ------------------------------------------------------------------

type permCase struct {
	Source string `json:"source"` // csprng, randomizer
	Op     string `json:"op"`     // perm, unique
	From   int    `json:"from"`
	To     int    `json:"to"`
	Keys   int    `json:"keys"`
	Seed   uint64 `json:"seed"`
}

func checkDistinct(op string, n int, out []byte) error {
	if len(out) != n {
		return fmt.Errorf("%s(%d) returned %d bytes", op, n, len(out))
	}
	var seen [256]bool
	for i, b := range out {
		if seen[b] {
			return fmt.Errorf("%s(%d) returned %d twice: %v", op, n, b, out)
		}
		seen[b] = true
		if op == "Perm" && int(b) >= n {
			return fmt.Errorf("%s(%d)[%d] = %d", op, n, i, b)
		}
		if b == 255 {
			return fmt.Errorf("%s(%d)[%d] = 255", op, n, i)
		}
	}
	return nil
}

type distCase struct {
	Source string `json:"source"`
	Op     string `json:"op"`
	N      int    `json:"n"`
	Draws  int    `json:"draws"`
	OneKey bool   `json:"onekey"`
	Seed   uint64 `json:"seed"`
}

var (
	biasMu sync.Mutex
	biases = map[int][2]float64{}
)

// shuffleBias computes how much more or less likely than 1/n a value can be at
// a position in Fisher-Yates over n values if an index below m comes from a
// random byte modulo m.
func shuffleBias(n int) (hi, lo float64) {
	biasMu.Lock()
	defer biasMu.Unlock()
	if b, ok := biases[n]; ok {
		return b[0], b[1]
	}
	hi, lo = 1, 1
	p := make([]float64, n) // where a value is, its chances
	for v := 0; v < n; v++ {
		for i := range p {
			p[i] = 0
		}
		p[v] = 1
		for i := 0; i < n; i++ {
			// place i is swapped with one from i on
			m := n - i
			q := func(r int) float64 { return float64((255-r)/m+1) / 256 }
			was, here := p[i], 0.0
			for j := i; j < n; j++ {
				here += p[j] * q(j-i)
			}
			for j := i + 1; j < n; j++ {
				p[j] = p[j]*(1-q(j-i)) + was*q(j-i)
			}
			hi, lo = max(hi, here*float64(n)), min(lo, here*float64(n))
		}
	}
	biases[n] = [2]float64{hi, lo}
	return hi, lo
}

// cycles returns 1 if the permutation is odd, and the length of the cycle with 0.
func cycles(p []byte) (int, int) {
	var seen [256]bool
	odd, zero := 0, 0
	for i := range p {
		n := 0
		for j := i; !seen[j]; j = int(p[j]) {
			seen[j] = true
			n++
		}
		if n > 0 {
			odd ^= (n - 1) & 1
		}
		if i == 0 {
			zero = n
		}
	}
	return odd, zero
}

func runDist(o *eng.Obs, c distCase) error {
	r := prng(c.Seed ^ o.Seed)
	values := c.N
	if c.Op == "unique" {
		values = 255
	}
	count := make([]int, c.N*values)
	perms := map[string]int{}
	places := []int{0, c.N / 2, c.N - 2}
	if c.N < 2 {
		places = nil
	} else if c.N < 6 {
		places = places[:1]
	} else {
		places[1] = min(c.N/2, c.N-2)
	}
	diffs := make([][]int, len(places))
	for i := range diffs {
		diffs[i] = make([]int, values)
	}
	mk := func() source {
		if c.Source == "csprng" {
			return csprng.NewCSPRNGWithKeyIV(RNG{Kind: "keyiv", Seed: r.Uint64()}.KeyIV())
		}
		return randomizer.NewRandomizer()
	}
	odd, zero := 0, make([]int, c.N+1)
	pairs := make([]int, 8)
	src := mk()
	for d := 0; d < c.Draws; d++ {
		if !c.OneKey {
			src = mk()
		}
		var out []byte
		name := "Perm"
		if c.Op == "unique" {
			name = "GetUniqueBytes"
			out = src.(*csprng.CSPRNG).GetUniqueBytes(byte(c.N))
		} else {
			out = src.Perm(byte(c.N))
		}
		if err := checkDistinct(name, c.N, out); err != nil {
			return fmt.Errorf("%s draw %d: %v", c.Source, d, err)
		}
		for i, b := range out {
			count[i*values+int(b)]++
		}
		for at, i := range places {
			if i >= 0 && i+1 < c.N {
				diffs[at][(int(out[i+1])-int(out[i])+values)%values]++
			}
		}
		if c.Op == "perm" && c.N <= 5 {
			perms[string(out)]++
		}
		if c.Op == "perm" {
			o, z := cycles(out)
			odd += o
			zero[z]++
		}
		for j := range pairs {
			a, b := j*(c.N-1)/16, c.N-1-j*(c.N-1)/16
			if out[a] < out[b] {
				pairs[j]++
			}
		}
	}
	// the last choice, between two values, makes it odd or even
	if c.Op == "perm" && c.N >= 2 && c.Draws >= 2000 && (odd < c.Draws*2/5 || odd > c.Draws*3/5) {
		return fmt.Errorf("%s.Perm(%d): %d of %d permutations are odd", c.Source, c.N, odd, c.Draws)
	}
	// every length of the cycle with 0 is as likely
	if e := float64(c.Draws) / float64(c.N); c.Op == "perm" && c.N > 5 && e >= 60 {
		for l := 1; l <= c.N; l++ {
			m := float64(zero[l])
			if m > 2.5*e+10*math.Sqrt(2.5*e)+10 || m < 0.3*e-10*math.Sqrt(0.3*e) || m == 0 && e >= 80 {
				return fmt.Errorf("%s.Perm(%d): 0 is in a cycle of length %d in %d of %d draws (about %.0f expected)", c.Source, c.N, l, zero[l], c.Draws, e)
			}
		}
	}
	for j, m := range pairs {
		if c.N >= 2 && c.Draws >= 2000 && (m < c.Draws*3/10 || m > c.Draws*7/10) {
			return fmt.Errorf("%s.%s(%d): the value at position %d is below that at %d in %d of %d draws", c.Source, c.Op, c.N, j*(c.N-1)/16, c.N-1-j*(c.N-1)/16, m, c.Draws)
		}
	}
	e := float64(c.Draws) / float64(values)
	// getting from a byte to a smaller range favours some values, by as much as
	// taking remainders does in Fisher-Yates
	rhi, rlo := 1.0, 1.0
	if c.Op == "perm" {
		rhi, rlo = shuffleBias(c.N)
	} else if c.N >= 20 {
		rhi, rlo = shuffleBias(255)
	}
	hi := 1.06*rhi*e + 7*math.Sqrt(1.06*rhi*e) + 7
	lo := 0.94*rlo*e - 7*math.Sqrt(0.94*rlo*e)
	for i := 0; i < c.N; i++ {
		for v := 0; v < values; v++ {
			m := float64(count[i*values+v])
			if m > hi || m < lo || m == 0 && e >= 80 {
				return fmt.Errorf("%s.%s(%d): value %d is at position %d in %d of %d draws (about %.0f expected)", c.Source, c.Op, c.N, v, i, int(m), c.Draws, e)
			}
		}
	}
	// what neighbours differ by
	if e := float64(c.Draws) / float64(values-1); values > 5 && e >= 60 {
		for at, ds := range diffs {
			for d := 1; d < values; d++ {
				m := float64(ds[d])
				if m > 2.5*e+10*math.Sqrt(2.5*e)+10 || m < 0.3*e-10*math.Sqrt(0.3*e) || m == 0 && e >= 80 {
					return fmt.Errorf("%s.%s(%d): the value at position %d is the one before plus %d in %d of %d draws (about %.0f expected)", c.Source, c.Op, c.N, places[at]+1, d, int(m), c.Draws, e)
				}
			}
		}
	}
	if c.Op == "perm" && c.N <= 5 {
		f := 1
		for i := 2; i <= c.N; i++ {
			f *= i
		}
		e := float64(c.Draws) / float64(f)
		if len(perms) != f && e >= 60 {
			return fmt.Errorf("%s.Perm(%d): only %d of the %d permutations occur in %d draws", c.Source, c.N, len(perms), f, c.Draws)
		}
		for p, m := range perms {
			if e >= 60 && (float64(m) < 0.9*e-7*math.Sqrt(e) || float64(m) > 1.1*e+8*math.Sqrt(e)) {
				return fmt.Errorf("%s.Perm(%d): %v occurs %d times in %d draws, about %.0f expected", c.Source, c.N, []byte(p), m, c.Draws, e)
			}
		}
	}
	o.Bulk(c.Draws, c.Draws)
	return nil
}

// ---- C20 ------------------------------------------------------------------

type rndCase struct {
	Ops []srcOp `json:"ops"`
}

// runRandomizerStream: with the same entropy, cutting the stream differently
// and what the buffers held before must not change it.
func runRandomizerStream(o *eng.Obs, c rndCase, seed uint64) error {
	total := 0
	for _, op := range c.Ops {
		total += op.N
	}
	fresh := func() source {
		eng.PinRandomness(seed)
		return randomizer.NewRandomizer()
	}
	whole := make([]byte, total)
	_, _ = fresh().Read(whole)
	again := make([]byte, total)
	_, _ = fresh().Read(again)
	if !bytes.Equal(whole, again) {
		if total >= 16 {
			// it takes entropy from elsewhere: then nothing can be compared
			o.Class("not reproducible")
			return nil
		}
		return nil
	}
	s := fresh()
	pos := 0
	for i, op := range c.Ops {
		b, err := readInto(s, op)
		if err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		if !bytes.Equal(b, whole[pos:pos+op.N]) {
			return fmt.Errorf("read %d of %d bytes into a buffer filled with %q differs from the same stream read at once", i, op.N, op.Fill)
		}
		pos += op.N
	}
	if len(c.Ops) > 1 {
		o.NonTrivial()
	}
	return nil
}

type longStream struct {
	MiB   int    `json:"mib"`
	Chunk int    `json:"chunk"`
	Other int    `json:"other"` // size of the pieces of the second reader
	Seed  uint64 `json:"seed"`
}

func runLongStream(o *eng.Obs, c longStream) error {
	eng.PinRandomness(eng.Mix(o.Seed, c.Seed))
	a := randomizer.NewRandomizer()
	eng.PinRandomness(eng.Mix(o.Seed, c.Seed))
	b := randomizer.NewRandomizer()
	type hit struct {
		pos  uint64
		more uint64
	}
	seen, rare := map[uint64]hit{}, 0
	if c.MiB > 1000 {
		rare = 2
	}
	var h histogram
	x, y := make([]byte, c.Chunk), make([]byte, c.Chunk)
	pos, n, same := uint64(0), 0, true
	for pos < uint64(c.MiB)<<20 {
		if m, err := a.Read(x); err != nil || m != len(x) {
			return fmt.Errorf("Read of %d bytes at %d returned %d, %v", len(x), pos, m, err)
		}
		for at := 0; same && at < len(y); at += c.Other {
			p := y[at:min(len(y), at+c.Other)]
			if m, err := b.Read(p); err != nil || m != len(p) {
				return fmt.Errorf("Read of %d bytes at %d returned %d, %v", len(p), pos, m, err)
			}
		}
		if same && !bytes.Equal(x, y) {
			if pos == 0 && !bytes.Equal(x[:min(len(x), c.Other, 64)], y[:min(len(x), c.Other, 64)]) {
				o.Class("not reproducible")
				same = false
			} else {
				at := 0
				for x[at] == y[at] {
					at++
				}
				return fmt.Errorf("byte %d of the stream is %#x in reads of %d bytes and %#x in reads of %d", pos+uint64(at), x[at], c.Chunk, y[at], c.Other)
			}
		}
		for i := 0; i+16 <= len(x); i++ {
			w := binary.LittleEndian.Uint64(x[i:])
			if w*0x9e3779b97f4a7c15>>(56-rare) != 0 && (pos >= 4<<20 || i%16 != 0) {
				continue
			}
			more := binary.LittleEndian.Uint64(x[i+8:])
			if o, ok := seen[w]; ok && o.more == more {
				return fmt.Errorf("the stream repeats itself: 16 bytes from %d on are those from %d on (%x)", pos+uint64(i), o.pos, x[i:i+16])
			}
			seen[w] = hit{pos + uint64(i), more}
		}
		if n%8 == 0 {
			for _, v := range x[:min(len(x), 1<<20)] {
				h.add(v)
			}
			if err := h.check(); err != nil {
				return fmt.Errorf("bytes from %d on: %v", pos, err)
			}
			h = histogram{}
		}
		pos += uint64(len(x))
		n++
	}
	o.Bulk(n, n)
	return nil
}

type instCase struct {
	Source    string `json:"source"`
	Instances int    `json:"instances"`
	Len       int    `json:"len"`
	Seed      uint64 `json:"seed"`
}

// runInstances creates many sources without a key: no stream may repeat part
// of itself or of another, and the bytes are uniform.
func runInstances(o *eng.Obs, c instCase) error {
	rep := newRepeats()
	var h histogram
	byPos := make([]histogram, min(c.Len, 48))
	for i := 0; i < c.Instances; i++ {
		var s source
		if c.Source == "csprng" {
			s = csprng.NewCSPRNG()
		} else {
			s = randomizer.NewRandomizer()
		}
		b := make([]byte, c.Len)
		if i%2 == 0 {
			for j := range b {
				b[j] = byte(j)
			}
		}
		if i%3 == 0 {
			_, _ = s.Read(b[:c.Len/2])
			_, _ = s.Read(b[c.Len/2:])
		} else {
			_, _ = s.Read(b)
		}
		for j, v := range b {
			h.add(v)
			if j < len(byPos) {
				byPos[j].add(v)
			}
		}
		if err := rep.add(func() string { return fmt.Sprintf("the stream of %s %d", c.Source, i) }, b); err != nil {
			return err
		}
	}
	if err := h.check(); err != nil {
		return fmt.Errorf("bytes of %s: %v", c.Source, err)
	}
	for j := range byPos {
		if err := byPos[j].check(); err != nil {
			return fmt.Errorf("byte %d of fresh %s streams: %v", j, c.Source, err)
		}
	}
	o.Bulk(c.Instances, c.Instances)
	return nil
}

func instCases(source string) func(tier string) []instCase {
	return func(tier string) []instCase {
		r := []instCase{{source, 12000, 40, 1}, {source, 300, 3000, 2}, {source, 4, 300000, 3}, {source, 2000, 64, 4}}
		if tier == "thorough" {
			r = append(r, instCase{source, 200000, 16, 5}, instCase{source, 20, 2000000, 6}, instCase{source, 60000, 48, 7})
		}
		return r
	}
}

func init() {
	eng.Add(eng.Sub{Prop: "C10", Name: "keystream", Configs: with32("native"), Quick: 12000, Thorough: 300000,
		Rule: "key and IV (random, counters about to wrap at 32, 64 and 128 bits, zero), 1..25 reads of many sizes into prefilled unaligned buffers, the caller's key slice overwritten in between; compared with crypto/cipher's CTR; non-trivial: at least two non-empty reads"},
		genSrc(false), runKeystream)
	eng.Add(eng.Sub{Prop: "C10", Name: "large-reads", Configs: with32("native"), Quick: 260, Thorough: 12000,
		Rule: "as keystream, with reads of up to 2 MiB around powers of two and their multiples, at odd places of the stream; non-trivial: at least two non-empty reads"},
		func(t *rapid.T) srcCase {
			return srcCase{Kind: eng.Pick(t, "kind", "keyiv", "ivlow", "iv32", "zeros"), Seed: eng.Bits(t, 24, "seed"), Ops: genLargeReads(t)}
		}, runKeystream)
	eng.Add(eng.Sub{Prop: "C10", Name: "progress", Configs: with32("native"), Quick: 8000, Thorough: 200000,
		Rule: "reads mixed with Perm and GetUniqueBytes: each read of >= 16 bytes must be a part of the keystream that no earlier read returned; non-trivial: a read after a permutation or unique-byte request"},
		genSrc(true), runProgress)
	eng.Add(eng.Sub{Prop: "C10", Name: "relations", Configs: []string{"native"}, Quick: 600, Thorough: 6000,
		Rule: "a random sequence of reads, permutations and unique-byte requests run on 64 keys; outputs of different operations are tested for fixed XOR/difference/quotient relations; non-trivial: at least two operations"},
		genRel("csprng"), runSourceRelations)
	eng.AddEnum(eng.Sub{Prop: "C10", Name: "fresh-instances", Configs: []string{"native"},
		Rule: "thousands of generators made without a key, and a few with long streams: no repeated 8 bytes in or between streams, bytes uniform; each generator counts"},
		instCases("csprng"), runInstances)
	type farCase struct {
		MiB   int    `json:"mib"`
		Chunk int    `json:"chunk"`
		Seed  uint64 `json:"seed"`
	}
	eng.AddEnum(eng.Sub{Prop: "C10", Name: "long-stream", Configs: with32("native"),
		Rule: "one generator read over its first 4.1 GiB (thorough also in other chunkings, and 9 GiB): both ends of every chunk compared with the keystream; non-trivial: each chunk"},
		func(tier string) []farCase {
			r := []farCase{{4200, 64 << 20, 1}}
			if tier == "thorough" {
				r = append(r, farCase{4200, 50<<20 + 13, 2}, farCase{9000, 256<<20 - 1, 3}, farCase{4100, wide(2100 << 20), 4})
			}
			return r
		},
		func(o *eng.Obs, c farCase) error {
			kv := RNG{Kind: "keyiv", Seed: c.Seed ^ o.Seed}.KeyIV()
			r := csprng.NewCSPRNGWithKeyIV(clone(kv))
			buf := make([]byte, c.Chunk)
			pos, n := uint64(0), 0
			for pos < uint64(c.MiB)<<20 {
				if m, err := r.Read(buf); err != nil || m != len(buf) {
					return fmt.Errorf("Read returned %d, %v", m, err)
				}
				for _, off := range []int{0, len(buf)/2 - 11, len(buf) - 4096} {
					if !bytes.Equal(buf[off:off+4096], keystreamAt(kv, pos+uint64(off), 4096)) {
						return fmt.Errorf("bytes %d.. of the stream are not the keystream", pos+uint64(off))
					}
				}
				if at := uint64(1)<<32 - pos; pos < 1<<32 && pos+uint64(len(buf)) > 1<<32+4096 && at > 4096 {
					if !bytes.Equal(buf[at-4096:at+4096], keystreamAt(kv, 1<<32-4096, 8192)) {
						return fmt.Errorf("the stream around byte 2^32 is not the keystream")
					}
				}
				pos += uint64(len(buf))
				n++
			}
			o.Bulk(n, n)
			return nil
		})

	eng.AddEnum(eng.Sub{Prop: "C11", Name: "complete", Configs: with32("native"),
		Rule: "every n from 0 to 255, Perm of both sources and GetUniqueBytes, thousands of keys and successive calls; each call counts, non-trivial for n >= 2"},
		func(tier string) []permCase {
			var r []permCase
			keys := 700
			if tier == "thorough" {
				keys = 30000
			}
			for _, so := range [][2]string{{"csprng", "perm"}, {"csprng", "unique"}, {"randomizer", "perm"}} {
				for n := 0; n <= 255; n += 4 {
					k := keys
					if n < 24 {
						k *= 4
					}
					r = append(r, permCase{so[0], so[1], n, n + 3, k, uint64(n)})
				}
				r = append(r, permCase{so[0], so[1], 250, 255, keys * 6, 999})
			}
			return r
		},
		func(o *eng.Obs, c permCase) error {
			r := prng(c.Seed ^ o.Seed)
			evals, nt := 0, 0
			for n := c.From; n <= min(c.To, 255); n++ {
				var s source
				for i := 0; i < c.Keys; i++ {
					if i%8 == 0 {
						if c.Source == "csprng" {
							s = csprng.NewCSPRNGWithKeyIV(RNG{Kind: "keyiv", Seed: r.Uint64()}.KeyIV())
						} else {
							s = randomizer.NewRandomizer()
						}
					}
					name := "Perm"
					var out []byte
					if c.Op == "unique" {
						name = "GetUniqueBytes"
						out = s.(*csprng.CSPRNG).GetUniqueBytes(byte(n))
					} else {
						out = s.Perm(byte(n))
					}
					if err := checkDistinct(name, n, out); err != nil {
						return fmt.Errorf("%s: %v", c.Source, err)
					}
					evals++
					if n >= 2 {
						nt++
					}
				}
			}
			o.Bulk(evals, nt)
			return nil
		})
	eng.AddEnum(eng.Sub{Prop: "C11", Name: "distribution", Configs: []string{"native"},
		Rule: "tens of thousands of draws per (source, function, n): every value at every position, every difference of neighbours, and for n<=5 every permutation, odd and even permutations, every length of the cycle with 0 and either order of two values, occurs as often as it should (give or take the bias of reducing a byte modulo m, computed exactly for every n); each draw counts"},
		func(tier string) []distCase {
			var r []distCase
			mul := 1
			ns := []int{2, 3, 4, 5, 6, 8, 10, 16, 19, 20, 21, 32, 64, 100, 128, 129, 200, 254, 255}
			if tier == "thorough" {
				mul = 8
				ns = nil
				for n := 2; n <= 255; n++ {
					ns = append(ns, n)
				}
			}
			for _, so := range [][2]string{{"csprng", "perm"}, {"csprng", "unique"}, {"randomizer", "perm"}} {
				for i, n := range ns {
					d := 24000
					if so[1] == "perm" && n < 60 {
						d = 9000
					}
					r = append(r, distCase{so[0], so[1], n, d * mul, i%2 == 0, uint64(n)})
				}
			}
			return r
		}, runDist)

	eng.Add(eng.Sub{Prop: "C20", Name: "stream", Configs: with32("native"), Quick: 8000, Thorough: 200000,
		Rule: "1..25 reads of many sizes into prefilled unaligned buffers, compared with one read of a second randomizer made from the same entropy; non-trivial: at least two reads"},
		func(t *rapid.T) struct {
			C    rndCase
			Seed uint64
		} {
			var ops []srcOp
			for _, op := range genReads(t, false) {
				if op.Op == "read" {
					ops = append(ops, op)
				}
			}
			return struct {
				C    rndCase
				Seed uint64
			}{rndCase{ops}, eng.Bits(t, 24, "seed")}
		},
		func(o *eng.Obs, c struct {
			C    rndCase
			Seed uint64
		}) error {
			return runRandomizerStream(o, c.C, c.Seed)
		})
	type bigStream struct {
		C    rndCase
		Seed uint64
	}
	eng.Add(eng.Sub{Prop: "C20", Name: "large-reads", Configs: with32("native"), Quick: 260, Thorough: 12000,
		Rule: "as stream, with reads of up to 2 MiB around powers of two and their multiples; non-trivial: at least two reads"},
		func(t *rapid.T) bigStream { return bigStream{rndCase{genLargeReads(t)}, eng.Bits(t, 24, "seed")} },
		func(o *eng.Obs, c bigStream) error { return runRandomizerStream(o, c.C, c.Seed) })
	eng.Add(eng.Sub{Prop: "C20", Name: "relations", Configs: []string{"native"}, Quick: 500, Thorough: 5000,
		Rule: "a random sequence of reads and permutations run on 64 fresh randomizers; outputs of different operations are tested for constant values and fixed relations; non-trivial: at least two operations"},
		genRel("randomizer"), runSourceRelations)
	eng.AddEnum(eng.Sub{Prop: "C20", Name: "long-stream", Configs: with32("native"),
		Rule: "one randomizer read over its first 600 MiB (thorough 5 GiB): the bytes uniform, no 16 bytes twice (looked at every 16 bytes in the first 4 MiB, then at one place in 256 (in more than 1 GiB, in 1024), chosen by content), and another one with the same entropy, read in other pieces, gives the same; non-trivial: each chunk"},
		func(tier string) []longStream {
			if tier == "thorough" {
				return []longStream{{600, 1 << 20, 1<<20 - 1, 4}, {5000, wide(64 << 20), 1<<24 + 7, 2}, {1200, 33<<20 + 1, 4096, 3}}
			}
			return []longStream{{600, 16 << 20, 1<<18 + 3, 1}}
		}, runLongStream)
	eng.AddEnum(eng.Sub{Prop: "C20", Name: "fresh-instances", Configs: []string{"native"},
		Rule: "thousands of randomizers and a few long streams: no repeated 8 bytes in or between streams, bytes uniform; each counts"},
		instCases("randomizer"), runInstances)
	eng.Add(eng.Sub{Prop: "C20", Name: "no-repeats", Configs: []string{"native"}, Quick: 1500, Thorough: 40000,
		Rule: "reads into prefilled buffers mixed with permutations on one randomizer: no 8 bytes come twice; non-trivial: at least two reads of 8 bytes"},
		func(t *rapid.T) rndCase { return rndCase{genReads(t, true)} },
		func(o *eng.Obs, c rndCase) error {
			s := randomizer.NewRandomizer()
			rep := newRepeats()
			reads := 0
			for i, op := range c.Ops {
				if op.Op != "read" {
					if err := checkDistinct("Perm", op.N, s.Perm(byte(op.N))); err != nil {
						return err
					}
					continue
				}
				b, err := readInto(s, op)
				if err != nil {
					return fmt.Errorf("op %d: %v", i, err)
				}
				if err := rep.add(func() string { return fmt.Sprintf("read %d", i) }, clone(b)); err != nil {
					return err
				}
				if op.N >= 8 {
					reads++
				}
			}
			if reads >= 2 {
				o.NonTrivial()
			}
			return nil
		})
}
