package props

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"

	"averif/eng"

	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
	"pgregory.net/rapid"
)

// ledger knows what every piece of memory in play must hold: inputs with their
// surroundings and results with their spare capacity. After each step it must
// all be as the user left it.
type ledger struct {
	items []*ledgerItem
	maps  [][]byte
}

type ledgerItem struct {
	what string
	view []byte // length as given to or by the library
	full []byte // with surroundings or spare capacity
	want []byte // content of full
	ro   bool
	home bool // full is a buffer of the harness around an input
}

func (l *ledger) close() {
	for _, m := range l.maps {
		_ = syscall.Munmap(m)
	}
}

// result enters a result of the library.
func (l *ledger) result(what string, b []byte) {
	full := b[:cap(b)]
	l.items = append(l.items, &ledgerItem{what: what, view: b, full: full, want: clone(full)})
}

func (l *ledger) results(what string, bs [][]byte) {
	for i, b := range bs {
		l.result(fmt.Sprintf("%s[%d]", what, i), b)
	}
}

// input copies b into memory of its own as `place` says and enters that.
func (l *ledger) input(what, place string, b []byte, seed uint64) []byte {
	switch place {
	case "ro":
		return l.inputsRO(what, [][]byte{b})[0]
	case "plain":
		v := clone(b)
		l.items = append(l.items, &ledgerItem{what: what, view: v, full: v[:cap(v)], want: clone(v[:cap(v)]), home: true})
		return v
	}
	r := prng(seed)
	before, after := r.IntN(40), 1+r.IntN(300)
	buf := make([]byte, before+len(b)+after)
	fillRandom(buf, seed)
	copy(buf[before:], b)
	l.items = append(l.items, &ledgerItem{what: what, view: buf[before : before+len(b)], full: buf, want: clone(buf), home: true})
	return buf[before : before+len(b)] // with spare capacity
}

// inputsRO puts the pieces into read-only memory that ends at an unreadable
// page.
func (l *ledger) inputsRO(what string, bs [][]byte) [][]byte {
	total := 0
	for _, b := range bs {
		total += len(b)
	}
	size := (total + guardPage - 1) / guardPage * guardPage
	m, err := syscall.Mmap(-1, 0, size+2*guardPage, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(&eng.HarnessError{Err: err})
	}
	l.maps = append(l.maps, m)
	use := m[guardPage : guardPage+size]
	at := size - total
	out := make([][]byte, len(bs))
	for i, b := range bs {
		copy(use[at:], b)
		out[i] = use[at : at+len(b)]
		l.items = append(l.items, &ledgerItem{what: fmt.Sprintf("%s (read-only, piece %d)", what, i), view: out[i], full: out[i], want: clone(b), ro: true, home: true})
		at += len(b)
	}
	for _, p := range []struct {
		m    []byte
		prot int
	}{{m[:guardPage], syscall.PROT_NONE}, {use, syscall.PROT_READ}, {m[guardPage+size:], syscall.PROT_NONE}} {
		if len(p.m) == 0 {
			continue
		}
		if err := syscall.Mprotect(p.m, p.prot); err != nil {
			panic(&eng.HarnessError{Err: err})
		}
	}
	return out
}

// inputs does the same for a list; the list itself gets spare capacity whose
// content must survive as well.
func (l *ledger) inputs(what, place string, bs [][]byte, seed uint64) ([][]byte, func() error) {
	list := make([][]byte, 0, len(bs)+3)
	var ro [][]byte
	if place == "ro" {
		var nonNil [][]byte
		for _, b := range bs {
			if b != nil {
				nonNil = append(nonNil, b)
			}
		}
		ro = l.inputsRO(what, nonNil)
	}
	for i, b := range bs {
		switch {
		case b == nil:
			list = append(list, nil)
		case ro != nil:
			list = append(list, ro[0])
			ro = ro[1:]
		default:
			list = append(list, l.input(fmt.Sprintf("%s[%d]", what, i), place, b, seed+uint64(i)))
		}
	}
	full := list[:cap(list)]
	for i := len(list); i < len(full); i++ {
		full[i] = []byte{0xee, byte(i)}
	}
	keep := append([][]byte(nil), full...)
	return list, func() error {
		for i := range full {
			if len(full[i]) != len(keep[i]) || (full[i] == nil) != (keep[i] == nil) || len(full[i]) > 0 && &full[i][0] != &keep[i][0] {
				return fmt.Errorf("entry %d of the list of %s (length %d) was replaced", i, what, len(list))
			}
		}
		return nil
	}
}

func (l *ledger) check(after string) error {
	for _, it := range l.items {
		if bytes.Equal(it.full, it.want) {
			continue
		}
		for i := range it.full {
			if it.full[i] != it.want[i] {
				where := "itself"
				if it.home && len(it.view) > 0 && &it.full[0] != &it.view[0] || i >= len(it.view) {
					where = "or its surroundings"
				}
				return fmt.Errorf("%s: changed %s (%s), byte %d of %d", after, it.what, where, i, len(it.full))
			}
		}
	}
	return nil
}

// scribble overwrites one item completely (or, with appendOnly, what lies
// behind it) as its owner may.
func (l *ledger) scribble(r interface{ IntN(int) int }, appendOnly bool, seed uint64) (string, bool) {
	for try := 0; try < 20; try++ {
		it := l.items[r.IntN(len(l.items))]
		if it.ro {
			continue
		}
		if appendOnly {
			if it.home {
				continue
			}
			n := cap(it.view) - len(it.view)
			b := make([]byte, max(n, 1))
			fillRandom(b, seed)
			_ = append(it.view, b...)
			if n > 0 {
				_ = append(it.view, b[:n]...)
				copy(it.want[len(it.view):], b[:n])
			}
			return "appending to " + it.what, true
		}
		dst := it.full
		if it.home { // the owner changes the input, not what lies around it
			dst = it.view
		}
		off := 0
		if len(dst) > 0 && len(it.full) > 0 {
			for off = 0; &it.full[off] != &dst[0]; off++ {
			}
		}
		b := make([]byte, len(dst))
		fillRandom(b, seed)
		for i := range b { // every byte changes
			b[i] = dst[i] ^ (b[i] | 1)
		}
		copy(dst, b)
		copy(it.want[off:], b)
		return "overwriting " + it.what, true
	}
	return "", false
}

type isoStep struct {
	Op    string `json:"op"`
	V     string `json:"v,omitempty"`
	N     int    `json:"n,omitempty"`
	K     int    `json:"k,omitempty"`
	Len   int    `json:"len,omitempty"`
	Sel   Subset `json:"sel"`
	Num   int    `json:"num,omitempty"`
	Place string `json:"place,omitempty"`
	Live  bool   `json:"live,omitempty"`
	Seed  uint64 `json:"seed"`
}

type isoCase struct {
	RNG   RNG       `json:"rng"`
	Steps []isoStep `json:"steps"`
}

// sharing is one split the history remembers.
type sharing struct {
	v      string
	n, k   int
	secret []byte
	keep   [][]byte // private copies of the shares
	live   [][]byte // what the library returned
	dirty  bool
}

func genIsoStep(first bool) *rapid.Generator[isoStep] {
	return rapid.Custom(func(t *rapid.T) isoStep {
		s := isoStep{Op: "split", Seed: eng.Bits(t, 20, "seed")}
		if !first {
			s.Op = eng.Pick(t, "op", "split", "split", "combine", "combine", "combine", "regen", "regen", "scribble", "scribble", "append", "append", "perm", "gc", "refuse", "refuse")
		}
		switch s.Op {
		case "split":
			s.V = eng.Pick(t, "variant", allVariants()...)
			s.N, s.K = genNK(t, 255)
			s.Len = min(genLen(t, 6000), 60000/s.N, 1_000_000/(s.N*s.N)+10)
			s.Place = eng.Pick(t, "place", "around", "around", "plain", "ro")
		case "refuse":
			s.V = eng.Pick(t, "variant", allVariants()...)
			s.Num = eng.Uniform(t, 0, 99, "how")
			s.Len = eng.Pick(t, "rlen", 1, 1, 16, 22, 23, 24, 64, 200)
			s.N, s.K = genNK(t, 60)
			s.Place = eng.Pick(t, "place", "around", "around", "plain", "ro")
		case "combine", "regen":
			s.Sel = genSubset(t)
			s.Num = eng.Pick(t, "num", 0, 1, 2, 3, 10)
			s.Place = eng.Pick(t, "place", "around", "around", "plain", "ro")
			s.Live = eng.Uniform(t, 0, 2, "live") == 0
		}
		return s
	})
}

func genIso(t *rapid.T) isoCase {
	c := isoCase{RNG: genRNG(t)}
	c.Steps = append(c.Steps, genIsoStep(true).Draw(t, "first"))
	c.Steps = append(c.Steps, rapid.SliceOfN(genIsoStep(false), 1, 14).Draw(t, "steps")...)
	return c
}

func runIso(o *eng.Obs, c isoCase) error {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	env := newEnv(c.RNG)
	rz := randomizer.NewRandomizer()
	led := &ledger{}
	defer led.close()
	var all []*sharing
	calls, scribbles := 0, 0
	for i, s := range c.Steps {
		r := prng(s.Seed)
		after := fmt.Sprintf("step %d, %s", i, s.Op)
		switch s.Op {
		case "split":
			secret := make([]byte, s.Len)
			fillRandom(secret, s.Seed)
			in := led.input(fmt.Sprintf("the secret of step %d", i), s.Place, secret, s.Seed)
			sh, err := env.splitOK(s.V, in, s.N, s.K)
			if err != nil {
				return fmt.Errorf("%s: %v", after, err)
			}
			after = fmt.Sprintf("step %d, %s(%d bytes, %d, %d)", i, s.V, s.Len, s.N, s.K)
			x := &sharing{v: s.V, n: s.N, k: s.K, secret: secret, keep: cloneAll(sh), live: sh}
			all = append(all, x)
			if err := led.check(after); err != nil {
				return err
			}
			led.results(fmt.Sprintf("the shares of step %d (%s)", i, s.V), sh)
			o.Class(s.V)
			calls++
		case "combine", "regen":
			x := all[r.IntN(len(all))]
			idx := s.Sel.pick(len(x.keep), x.k)
			from := x.keep
			if s.Live && !x.dirty {
				from = x.live
			}
			given := choose(from, idx)
			if isSSMS(x.v) {
				given = arrange([]string{"list", "inplace", "nils"}[r.IntN(3)], from, idx, s.Seed)
			}
			check := func() error { return nil }
			if !s.Live || x.dirty {
				given, check = led.inputs(fmt.Sprintf("the shares given in step %d", i), s.Place, given, s.Seed)
			}
			if s.Op == "regen" && !isSSMS(x.v) {
				num := min(s.Num, 255-len(x.keep))
				sh, err := CheckRegenerate(o, given, num)
				if err != nil {
					return fmt.Errorf("%s: %v", after, err)
				}
				if err := check(); err != nil {
					return fmt.Errorf("%s: %v", after, err)
				}
				if err := led.check(after); err != nil {
					return err
				}
				led.results(fmt.Sprintf("the new shares of step %d", i), sh)
				have := map[byte]bool{}
				for _, k := range x.keep {
					have[k[len(k)-1]] = true
				}
				for _, n := range sh {
					if !have[n[len(n)-1]] {
						x.keep = append(x.keep, clone(n))
						x.live = append(x.live, n)
					}
				}
			} else {
				got, err := env.combine(x.v, given, x.n, x.k)
				if err != nil {
					return fmt.Errorf("%s: combining shares of %s(%d bytes, %d, %d) failed: %v", after, x.v, len(x.secret), x.n, x.k, err)
				}
				if err := check(); err != nil {
					return fmt.Errorf("%s: %v", after, err)
				}
				if err := led.check(after); err != nil {
					return err
				}
				if err := sameSecret(after, got, x.secret); err != nil {
					return err
				}
				led.result(fmt.Sprintf("the secret combined in step %d", i), got)
			}
			calls++
		case "refuse":
			what, err := isoRefuse(env, led, s, i)
			if err != nil {
				return fmt.Errorf("%s: %v", after, err)
			}
			after = fmt.Sprintf("step %d, the refused %s", i, what)
			o.Class("refused")
			calls++
		case "perm":
			n := byte(r.IntN(256))
			for _, b := range [][]byte{env.R.Perm(n), env.R.GetUniqueBytes(n), rz.Perm(n)} {
				if err := led.check(after); err != nil {
					return err
				}
				led.result(fmt.Sprintf("a permutation of step %d", i), b)
			}
		case "gc":
			runtime.GC()
		default:
			what, ok := led.scribble(r, s.Op == "append", s.Seed)
			if !ok {
				continue
			}
			scribbles++
			for _, x := range all {
				x.dirty = true
			}
			after = fmt.Sprintf("step %d, %s", i, what)
		}
		if err := led.check(after); err != nil {
			return err
		}
	}
	if calls >= 2 && scribbles >= 1 {
		o.NonTrivial()
	}
	return nil
}

// isoRefuse makes a call that must fail; what it was given must survive.
func isoRefuse(env *Env, led *ledger, s isoStep, step int) (string, error) {
	r := prng(s.Seed)
	data := make([]byte, s.Len)
	fillRandom(data, s.Seed+1)
	var err error
	what := ""
	switch s.Num % 4 {
	case 0: // an empty secret, a piece of something larger
		in := led.input(fmt.Sprintf("the buffer of the empty secret of step %d", step), s.Place, data, s.Seed)
		at := r.IntN(len(in) + 1)
		_, err = env.split(s.V, in[at:at], s.N, s.K)
		what = fmt.Sprintf("%s of an empty secret with %d bytes behind it", s.V, cap(in[at:at]))
	case 1:
		in := led.input(fmt.Sprintf("the secret of step %d", step), s.Place, data, s.Seed)
		bad := [][2]int{{s.K - 1, s.K}, {s.N, s.N + 1}, {s.N, 1}, {1, 1}, {0, 0}, {256, s.K}, {-1, 2}, {300, 256}, {s.N, 0}, {s.N, -s.K}}[r.IntN(10)]
		_, err = env.split(s.V, in, bad[0], bad[1])
		what = fmt.Sprintf("%s(%d bytes, %d, %d)", s.V, len(in), bad[0], bad[1])
	default: // shares that cannot be combined or extended
		m := 2 + r.IntN(6)
		list := make([][]byte, m)
		for i := range list {
			list[i] = make([]byte, s.Len+1)
			fillRandom(list[i], s.Seed+uint64(i)+7)
			list[i][s.Len] = byte(i*5 + 1)
			if isSSMS(s.V) && s.Len > 22 {
				copy(list[i], []byte{byte(i), 0, 0, 0, 0})
			}
		}
		a, b := r.IntN(m), r.IntN(m)
		switch r.IntN(5) {
		case 0:
			list[a] = list[a][:r.IntN(s.Len+1)]
			list[b] = list[a] // so that neither is all of it
			if m == 2 || a == b {
				list = list[:1]
			}
		case 1:
			list = list[:1]
		case 2:
			for i := range list {
				list[i] = list[i][:0]
			}
		case 3:
			list[(a+1)%m] = list[a]
		case 4:
			list[a] = nil
		}
		given, check := led.inputs(fmt.Sprintf("the malformed shares of step %d", step), s.Place, list, s.Seed)
		if s.Num%4 == 2 && !isSSMS(s.V) {
			var sh [][]byte
			sh, err = shamir.Regenerate(given, 1+r.IntN(3))
			what = fmt.Sprintf("Regenerate of %d malformed shares", len(list))
			led.results(fmt.Sprintf("what step %d returned", step), sh)
		} else {
			_, err = env.combine(s.V, given, max(2, len(list)), 2)
			what = fmt.Sprintf("combine (%s) of %d malformed shares", s.V, len(list))
		}
		if e := check(); e != nil {
			return what, e
		}
		err = nil // whether it is refused is for C05, C06 and C09
		return what, nil
	}
	if err == nil {
		return what, fmt.Errorf("%s was not refused", what)
	}
	return what, nil
}

type appendCase struct {
	V     string `json:"v"`
	N     int    `json:"n"`
	K     int    `json:"k"`
	Len   int    `json:"len"`
	Extra int    `json:"extra"`
	Seed  uint64 `json:"seed"`
}

// runAppend writes behind and over every result of every kind of call, one
// after the other, and looks at all the others each time.
func runAppend(o *eng.Obs, c appendCase) error {
	secret := make([]byte, c.Len)
	fillRandom(secret, c.Seed)
	env := newEnv(RNG{Kind: "keyiv", Seed: c.Seed})
	led := &ledger{}
	defer led.close()
	in := led.input("the secret", "around", secret, c.Seed)
	sh, err := env.splitOK(c.V, in, c.N, c.K)
	if err != nil {
		return err
	}
	led.results("the shares of "+c.V, sh)
	keep := cloneAll(sh)
	sel := Subset{"min", c.Seed}.pick(c.N, c.K)
	given, check := led.inputs("the shares given", "around", choose(keep, sel), c.Seed)
	got, err := env.combine(c.V, given, c.N, c.K)
	if err != nil {
		return fmt.Errorf("combining shares of %s(%d bytes, %d, %d) failed: %v", c.V, c.Len, c.N, c.K, err)
	}
	led.result("the combined secret", got)
	if !isSSMS(c.V) && c.N < 255 {
		more, err := shamir.Regenerate(given, min(4, 255-c.N))
		if err != nil {
			return fmt.Errorf("Regenerate failed: %v", err)
		}
		led.results("the new shares", more)
	}
	if err := check(); err != nil {
		return err
	}
	if err := led.check("splitting, combining and regenerating"); err != nil {
		return err
	}
	n := 0
	for pass := 0; pass < 2; pass++ {
		for _, it := range led.items {
			if it.home && pass == 0 {
				continue
			}
			what := "appending to "
			if pass == 0 {
				b := make([]byte, c.Extra)
				fillRandom(b, c.Seed+uint64(n))
				grown := append(it.view, b...)
				if len(grown) > 0 && len(it.view) > 0 && &grown[0] == &it.view[0] {
					copy(it.want[len(it.view):], b)
				}
			} else {
				what = "overwriting "
				off := 0
				if len(it.view) > 0 {
					for &it.full[off] != &it.view[0] {
						off++
					}
				}
				for i := range it.view {
					it.view[i] ^= byte(0x81 + i%5)
				}
				copy(it.want[off:], it.view)
			}
			if err := led.check(what + it.what); err != nil {
				return err
			}
			n++
		}
	}
	// what the library keeps for later is not what was just overwritten
	sh2, err := env.splitOK(c.V, secret, c.N, c.K)
	if err != nil {
		return err
	}
	if err := led.check("a later split"); err != nil {
		return err
	}
	got, err = env.combine(c.V, choose(sh2, sel), c.N, c.K)
	if err != nil {
		return err
	}
	if err := sameSecret("a later split and combine", got, secret); err != nil {
		return err
	}
	if err := led.check("a later combine"); err != nil {
		return err
	}
	o.Bulk(n, n)
	return nil
}

func init() {
	eng.Add(eng.Sub{Prop: "C14", Name: "histories", Configs: everywhere("native", "ssse3", "noasm"), Quick: 4000, Thorough: 120000,
		Rule: "2 to 15 splits, combines, regenerations, refused calls (empty or impossible splits, malformed shares), permutations, overwrites and appends by the owner; secrets and shares lie in guarded, spare-capacity or read-only memory, and after each step every input, its surroundings and every earlier result with its spare capacity are compared with what they must hold; non-trivial: at least two calls and one overwrite or append"},
		genIso, runIso)
	eng.AddEnum(eng.Sub{Prop: "C14", Name: "owners", Configs: []string{"native", "noasm"},
		Rule: "every split function with many (n,k) and lengths: append to and overwrite each share, combined secret, new share and input in turn and compare all others; every append or overwrite counts"},
		func(tier string) []appendCase {
			var r []appendCase
			seed := uint64(1)
			lens := []int{1, 2, 3, 7, 16, 21, 31, 32, 64, 100, 256, 500, 1024}
			if tier == "thorough" {
				for l := 1; l < 2200; l += 13 {
					lens = append(lens, l)
				}
			}
			for _, v := range allVariants() {
				for _, nk := range [][2]int{{2, 2}, {3, 2}, {3, 3}, {5, 3}, {10, 4}, {21, 20}, {60, 2}} {
					for _, l := range lens {
						for _, e := range []int{1, 25} {
							seed++
							r = append(r, appendCase{v, nk[0], nk[1], l, e, seed})
						}
					}
				}
			}
			return r
		}, runAppend)
	eng.Add(eng.Sub{Prop: "C14", Name: "sources", Configs: []string{"native"}, Quick: 3000, Thorough: 60000,
		Rule: "permutations, unique bytes and reads of both sources, whose results are overwritten at once: the same operations on a second source with the same key, left alone, must give the same; every case with two operations is non-trivial"},
		genSrc(true),
		func(o *eng.Obs, c srcCase) error {
			kv := c.keyIV()
			draw := func(x *csprng.CSPRNG, op srcOp) []byte {
				switch op.Op {
				case "perm":
					return x.Perm(byte(op.N))
				case "unique":
					return x.GetUniqueBytes(byte(op.N))
				}
				b := make([]byte, op.N)
				_, _ = x.Read(b)
				return b
			}
			a, b := csprng.NewCSPRNGWithKeyIV(clone(kv)), csprng.NewCSPRNGWithKeyIV(clone(kv))
			for _, op := range c.Ops {
				if !bytes.Equal(draw(a, op), draw(b, op)) {
					o.Class("not reproducible") // nothing can be compared then
					return nil
				}
			}
			a, b = csprng.NewCSPRNGWithKeyIV(clone(kv)), csprng.NewCSPRNGWithKeyIV(clone(kv))
			type pair struct{ live, keep []byte }
			var old []pair
			for i, op := range c.Ops {
				x, y := draw(a, op), draw(b, op)
				if !bytes.Equal(x, y) {
					return fmt.Errorf("op %d %+v differs after earlier results were overwritten", i, op)
				}
				for j := range old {
					if !bytes.Equal(old[j].live, old[j].keep) {
						return fmt.Errorf("op %d %+v changed the result of op %d", i, op, j)
					}
				}
				full := x[:cap(x)]
				for j := range full {
					full[j] ^= 0xa5
				}
				old = append(old, pair{y, clone(y)})
			}
			if len(c.Ops) >= 2 {
				o.NonTrivial()
			}
			return nil
		})
}
