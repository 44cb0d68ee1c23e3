package props

import (
	"fmt"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"pgregory.net/rapid"
)

// bitRows is a matrix over GF(2), one observation per row.
type bitRows struct {
	cols int
	rows [][]uint64
}

// add appends an observation: the bits of the pieces and a constant one.
func (b *bitRows) add(pieces ...[]byte) {
	n := 1
	for _, p := range pieces {
		n += 8 * len(p)
	}
	b.cols = n
	row := make([]uint64, (n+63)/64)
	at := 0
	for _, p := range pieces {
		for _, v := range p {
			row[at/64] |= uint64(v) << (at % 64) // 8 divides 64
			at += 8
		}
	}
	row[at/64] |= 1 << (at % 64)
	b.rows = append(b.rows, row)
}

// rankSpare rows more than columns: uniform independent bits are then
// dependent with probability below 2^-64.
const rankSpare = 64

// dependent finds bits of which the sum is the same in every observation, or
// returns nil. The last column is the constant.
func (b *bitRows) dependent() []int {
	m := b.rows
	var pivots []int
	top := 0
	for c := 0; c < b.cols; c++ {
		w, bit := c/64, uint64(1)<<(c%64)
		p := -1
		for i := top; i < len(m); i++ {
			if m[i][w]&bit != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			// what the column is the sum of, from below
			r := []int{c}
			col := func(i, c int) uint64 { return m[i][c/64] >> (c % 64) & 1 }
			v := make([]uint64, top)
			for i := range v {
				v[i] = col(i, c)
			}
			for i := top - 1; i >= 0; i-- {
				if v[i] != 0 {
					r = append(r, pivots[i])
					for j := 0; j <= i; j++ {
						v[j] ^= col(j, pivots[i])
					}
				}
			}
			return r
		}
		m[top], m[p] = m[p], m[top]
		for i := p + 1; i < len(m); i++ {
			if m[i][w]&bit != 0 {
				src, dst := m[top][w:], m[i][w:]
				for j := range src {
					dst[j] ^= src[j]
				}
			}
		}
		pivots = append(pivots, c)
		top++
	}
	return nil
}

type rankCase struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	K      int    `json:"k"`
	Len    int    `json:"len"`
	Window int    `json:"window"` // 0: one row per use; else rows are places of one long use
	Past   int    `json:"past"`   // earlier uses in each row
	Fresh  bool   `json:"fresh"`  // a new source for each use
	Stride int    `json:"stride"` // only every s-th place of a long use, for all s up to this
	Seed   uint64 `json:"seed"`
}

// rankUse makes one use: bits that are the user's or public, and hidden ones
// as a matrix by position.
func (c rankCase) use(env *Env, r interface{ Uint64() uint64 }) (secret, tags, key []byte, coef [][]byte, err error) {
	secret = Data{Len: c.Len, Fill: "rand", Seed: r.Uint64()}.Bytes()
	sh, err := env.splitOK(c.Kind, secret, c.N, c.K)
	if err != nil {
		return nil, nil, nil, nil, err
	}
	pts := cloneAll(sh[:c.K])
	if isSSMS(c.Kind) {
		for i := range pts {
			pts[i] = pts[i][:ref.MetaLen]
		}
	}
	if err := distinctTags(pts); err != nil {
		return nil, nil, nil, nil, err
	}
	cols := ref.Columns(pts)
	if isSSMS(c.Kind) {
		key = clone(cols[0][:ref.KeyLen])
	}
	coef = make([][]byte, len(cols[0]))
	for p := range coef {
		for j := 1; j < c.K; j++ {
			coef[p] = append(coef[p], cols[j][p])
		}
	}
	return secret, tagsOf(pts[:min(2, c.K)]), key, coef, nil
}

func runRank(o *eng.Obs, c rankCase) error {
	r := prng(c.Seed ^ o.Seed)
	env := newEnv(RNG{Kind: "keyiv", Seed: r.Uint64()})
	o.Class("%s", c.Kind)
	o.NonTrivial()
	m := &bitRows{}
	name := func(int) string { return "" }
	if c.Window > 0 {
		return c.window(o, env, r)
	}
	if c.Kind == "csprng" || c.Kind == "randomizer" {
		for m.cols == 0 || len(m.rows) < m.cols+rankSpare {
			b := make([]byte, c.Len)
			if c.Kind == "csprng" {
				_, _ = csprng.NewCSPRNG().Read(b)
			} else {
				_, _ = randomizer.NewRandomizer().Read(b)
			}
			m.add(b)
		}
		name = func(i int) string { return fmt.Sprintf("byte %d of the stream", i/8) }
	} else {
		var past [][]byte
		var names []string
		for m.cols == 0 || len(m.rows) < m.cols+rankSpare {
			if c.Fresh {
				env = newEnv(RNG{Kind: "keyiv", Seed: r.Uint64()})
			}
			secret, tags, key, coef, err := c.use(env, r)
			if err != nil {
				return err
			}
			row := [][]byte{tags, key}
			if len(secret) <= 40 {
				row = append(row, secret)
			}
			first := len(past) == 0
			if first {
				for range tags {
					names = append(names, "a tag")
				}
				for i := range key {
					names = append(names, fmt.Sprintf("key byte %d", i))
				}
				if len(secret) <= 40 {
					for i := range secret {
						names = append(names, fmt.Sprintf("secret byte %d", i))
					}
				}
			}
			for p := range coef {
				row = append(row, coef[p])
				if first {
					for j := range coef[p] {
						names = append(names, fmt.Sprintf("coefficient %d of byte %d", j+1, p))
					}
				}
			}
			var flat []byte
			for _, x := range row {
				flat = append(flat, x...)
			}
			past = append(past, flat)
			if len(past) > c.Past {
				m.add(past[len(past)-1-c.Past:]...)
			}
		}
		name = func(i int) string {
			b := i / 8
			if b >= len(names) {
				return fmt.Sprintf("%s of use +%d", names[b%len(names)], b/len(names))
			}
			return names[b]
		}
	}
	return c.report(m, name)
}

func (c rankCase) report(m *bitRows, name func(int) string) error {
	rows, cols := len(m.rows), m.cols
	dep := m.dependent()
	if dep == nil {
		return nil
	}
	text := ""
	for i, b := range dep {
		if i == 12 {
			text += fmt.Sprintf(" and %d more", len(dep)-i)
			break
		}
		if b == cols-1 {
			text += " (a constant)"
			continue
		}
		text += fmt.Sprintf(" [bit %d of %s]", b%8, name(b))
	}
	return fmt.Errorf("%s (n=%d, k=%d, %d bytes): in all of %d observations the sum of these bits is the same:%s", c.Kind, c.N, c.K, c.Len, rows, text)
}

// window looks for linear relations between neighbouring places of one use.
func (c rankCase) window(o *eng.Obs, env *Env, r interface{ Uint64() uint64 }) error {
	var x [][]byte // by place
	if c.Kind == "csprng" || c.Kind == "randomizer" {
		b := make([]byte, c.Len)
		if c.Kind == "csprng" {
			_, _ = csprng.NewCSPRNG().Read(b)
		} else {
			_, _ = randomizer.NewRandomizer().Read(b)
		}
		for i := range b {
			x = append(x, b[i:i+1])
		}
	} else {
		secret, _, _, coef, err := c.use(env, r)
		if err != nil {
			return err
		}
		for p := range coef {
			x = append(x, append([]byte{secret[p]}, coef[p]...))
		}
	}
	if c.Stride > 0 {
		for s := 2; s <= c.Stride; s++ {
			if s > 130 && s != c.Stride && s&(s-1) != 0 && s != 200 && s != 255 {
				continue
			}
			if err := c.stride(x, s, false); err != nil {
				return err
			}
		}
		return nil
	}
	var offs []int
	for i := 0; i < c.Window; i++ {
		offs = append(offs, i)
	}
	for i := 16; i < len(x)/2 && c.Window > 1; i *= 2 {
		for _, d := range []int{i - 1, i, i + 1} {
			if d >= c.Window {
				offs = append(offs, d)
			}
		}
	}
	last := offs[len(offs)-1]
	cols := 8*len(offs)*len(x[0]) + 1
	if len(x)-last < cols+rankSpare {
		return &eng.HarnessError{Err: fmt.Errorf("window too wide: %d places, %d columns, last %d", len(x), cols, last)}
	}
	if err := c.strides(x); err != nil {
		return err
	}
	// one group of rows at the start, one at the end
	for _, from := range []int{0, len(x) - last - cols - rankSpare} {
		m := &bitRows{}
		for p := from; len(m.rows) < cols+rankSpare; p++ {
			var row [][]byte
			for _, d := range offs {
				row = append(row, x[p+d])
			}
			m.add(row...)
		}
		if err := c.report(m, func(i int) string {
			b := i / 8
			w := len(x[0])
			switch {
			case w == 1:
				return fmt.Sprintf("byte +%d", offs[b])
			case b%w == 0:
				return fmt.Sprintf("secret byte +%d", offs[b/w])
			}
			return fmt.Sprintf("coefficient %d of byte +%d", b%w, offs[b/w])
		}); err != nil {
			return fmt.Errorf("from place %d on: %v", from, err)
		}
	}
	return nil
}

// strides looks at every s-th place and the next one.
func (c rankCase) strides(x [][]byte) error {
	for _, s := range []int{2, 3, 4, 5, 7, 8, 10, 16, 20, 32, 50, 64, 100, 128, 250, 255, 256, 257, 500, 512, 1000, 1024, 2048, 4096} {
		if err := c.stride(x, s, true); err != nil {
			return err
		}
	}
	return nil
}

// stride looks at every s-th place alone, or at the next one with it.
func (c rankCase) stride(x [][]byte, s int, next bool) error {
	w := len(x[0])
	need := 8*w + 1 + rankSpare
	if next {
		need += 8 * w
	}
	if next && need > 800 || need*s+s > len(x) {
		return nil
	}
	for at := 0; at < s; at++ {
		m := &bitRows{}
		for p := at; len(m.rows) < need; p += s {
			if next {
				m.add(x[p], x[p+1])
			} else {
				m.add(x[p])
			}
		}
		if err := c.report(m, func(i int) string {
			b := i / 8
			return fmt.Sprintf("piece %d (0: the secret, if it is not a stream, then the coefficients) of byte +%d", b%w, b/w)
		}); err != nil {
			return fmt.Errorf("every %dth place from %d on: %v", s, at, err)
		}
	}
	return nil
}

func genRank(kinds ...string) func(t *rapid.T) rankCase {
	return func(t *rapid.T) rankCase {
		c := rankCase{Kind: eng.Pick(t, "kind", kinds...), Seed: eng.Bits(t, 30, "seed")}
		stream := c.Kind == "csprng" || c.Kind == "randomizer"
		if stream {
			c.Len = eng.Uniform(t, 1, 120, "len")
		}
		if !isSSMS(c.Kind) && eng.Uniform(t, 0, 1, "long") == 0 {
			c.Window = eng.Pick(t, "window", 4, 16, 24)
			c.K = eng.Uniform(t, 2, 3, "k")
			c.Len = eng.Pick(t, "place", 4100, 5000, 9000, 30000, 130000)
			if !stream && eng.Uniform(t, 0, 1, "high") == 0 { // all coefficients of one place
				c.Window, c.K = 1, eng.Pick(t, "k", 4, 8, 9, 17, 33, 64, 65, 100, 129, 130, 180, 200, 230)
				c.Len = 8*c.K + rankSpare + eng.Pick(t, "places", 10, 200, 1000)
			}
			c.N = min(255, c.K+eng.Pick(t, "more", 0, 1, 20))
			if !stream && eng.Uniform(t, 0, 2, "stride") == 0 {
				c.Window, c.N = 1, c.K
				c.Stride = eng.Pick(t, "step", 100, 130, 130, 256, 257, 512, 1024)
				c.K = eng.Pick(t, "k", 2, 3, 4, 5, 6, 8, 9, 12, 16, 20, 33)
				for c.K > 2 && (8*c.K+1+rankSpare+1)*c.Stride*c.K*c.K > 30e6 {
					c.K--
				}
				c.N = c.K
				c.Len = (8*c.K+1+rankSpare+1)*c.Stride + eng.Pick(t, "rest", 0, 1, 63)
			}
			return c
		}
		if stream {
			return c
		}
		c.Fresh = eng.Uniform(t, 0, 1, "fresh") == 0
		if isSSMS(c.Kind) {
			c.K = eng.Uniform(t, 2, 9, "k")
			c.Len = eng.Pick(t, "len", 1, 2, 5, 16, 20, 33, 100, 1000, 5000)
		} else {
			c.K = eng.Pick(t, "k", 2, 3, 4, 5, 8, 9, 16, 20, 33)
			c.Len = eng.Uniform(t, 1, max(1, min(40, 100/(c.K-1))), "len")
			if c.K < 6 && eng.Uniform(t, 0, 2, "several") == 0 {
				c.Past = eng.Uniform(t, 1, 4, "past")
				c.Len = min(c.Len, 30/(c.K-1))
			}
		}
		c.N = min(255, c.K+eng.Pick(t, "more", 0, 1, 4, 20))
		return c
	}
}

func init() {
	rule := "the bits of hidden bytes, of the secret and of two tags, in more observations than there are bits: rows are uses with the same parameters (one source or a new one for each, and up to four uses before it together), or the neighbourhoods (4 to 24 places and those about a power of two away) of places in one long use, or every s-th place of it (with the next one, for 24 values of s and k up to 3; alone, for all s up to 130 and some up to 1024, k up to 33); no sum of bits is the same in all of them (a set of bits of uniform independent bytes is with probability under 2^-64); every case counts"
	eng.Add(eng.Sub{Prop: "C03", Name: "rank", Configs: []string{"native"}, RealEntropy: true, Quick: 320, Thorough: 10000, Rule: rule},
		genRank(shamirVariants...), runRank)
	eng.Add(eng.Sub{Prop: "C08", Name: "rank", Configs: []string{"native"}, RealEntropy: true, Quick: 160, Thorough: 5000, Rule: rule},
		genRank(ssmsVariants...), runRank)
	eng.Add(eng.Sub{Prop: "C10", Name: "rank", Configs: []string{"native"}, RealEntropy: true, Quick: 40, Thorough: 2000, Rule: rule},
		genRank("csprng"), runRank)
	eng.Add(eng.Sub{Prop: "C20", Name: "rank", Configs: []string{"native"}, RealEntropy: true, Quick: 40, Thorough: 2000, Rule: rule},
		genRank("randomizer"), runRank)
}
