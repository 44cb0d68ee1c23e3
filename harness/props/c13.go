package props

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"syscall"
	"unsafe"

	"averif/eng"
	"averif/ref"

	"github.com/fadhilkurnia/shamir/galois"
	"pgregory.net/rapid"
)

// arena is a piece of memory between two unreadable pages.
type arena struct {
	mem []byte // what is usable
	all []byte
}

const guardPage = 4096

func newArena(size int) *arena {
	size = (size + guardPage - 1) / guardPage * guardPage
	m, err := syscall.Mmap(-1, 0, size+2*guardPage, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(&eng.HarnessError{Err: err})
	}
	for _, g := range [][]byte{m[:guardPage], m[guardPage+size:]} {
		if err := syscall.Mprotect(g, syscall.PROT_NONE); err != nil {
			panic(&eng.HarnessError{Err: err})
		}
	}
	return &arena{m[guardPage : guardPage+size : guardPage+size], m}
}

var (
	arenas   = map[int][2]*arena{}
	pagesFor = func(n int) int { return (n + 2*guardPage) / guardPage }
)

func arenaPair(n int) (*arena, *arena) {
	p := pagesFor(n)
	a, ok := arenas[p]
	if !ok {
		a = [2]*arena{newArena(p * guardPage), newArena(p * guardPage)}
		arenas[p] = a
	}
	return a[0], a[1]
}

// place puts v at an offset, with the rest of the arena holding a pattern; a
// negative offset counts from the end, so -1 ends right before the guard page.
func (a *arena) place(v []byte, at int, pattern byte) []byte {
	for i := range a.mem {
		a.mem[i] = pattern + byte(i*7)
	}
	if at < 0 {
		at = len(a.mem) - len(v) + at + 1
	}
	copy(a.mem[at:], v)
	if at%2 == 0 {
		return a.mem[at : at+len(v) : at+len(v)]
	}
	return a.mem[at : at+len(v)] // with spare capacity
}

func (a *arena) around(v []byte, pattern byte) error {
	lo := len(a.mem)
	if len(v) > 0 {
		lo = int(uintptr(unsafe.Pointer(&v[0])) - uintptr(unsafe.Pointer(&a.mem[0])))
	}
	for i, b := range a.mem {
		if i >= lo && i < lo+len(v) {
			continue
		}
		if b != pattern+byte(i*7) {
			return fmt.Errorf("the byte %d from the start of the vector (of %d) was overwritten", i-lo, len(v))
		}
	}
	return nil
}

type vecCase struct {
	Op   string `json:"op"` // mul, mulgeneric, add, addgeneric, addbatch
	C    byte   `json:"c"`
	A    Data   `json:"a"`
	B    Data   `json:"b"`
	OffA int    `json:"offa"`
	OffB int    `json:"offb"`
	Same bool   `json:"same,omitempty"` // add: both operands are the same memory
}

var addOps = map[string]func(a, b []byte) []byte{
	"add": galois.AddVector, "addgeneric": galois.AddVectorGeneric, "addbatch": galois.AddVectorBatchGeneric,
}
var mulOps = map[string]func(c byte, a []byte) []byte{
	"mul": galois.MulConstVector, "mulgeneric": galois.MulConstVectorGeneric,
}

func diffVec(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s returned %d bytes for %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("%s of %d bytes: element %d is %d, want %d", what, len(got), i, got[i], want[i])
		}
	}
	return nil
}

// doVec checks one vector operation with its operands next to guard pages.
func doVec(op string, c byte, a, b []byte, offA, offB int, same bool) error {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	ma, mb := arenaPair(max(len(a), len(b)))
	va := ma.place(a, offA, 0x3c)
	if f, ok := mulOps[op]; ok {
		want := make([]byte, len(a))
		for i, v := range a {
			want[i] = ref.Mul(c, v)
		}
		what := fmt.Sprintf("%s by %d", op, c)
		got := f(c, va)
		if err := diffVec(what, got, want); err != nil {
			return err
		}
		if err := ma.around(va, 0x3c); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		// the pure-Go variants replace the operand by the product
		if !bytes.Equal(va, a) && !bytes.Equal(va, want) {
			return fmt.Errorf("%s of %d bytes left its operand neither as it was nor replaced by the product", what, len(a))
		}
		return nil
	}
	f, ok := addOps[op]
	if !ok {
		panic(&eng.HarnessError{Err: fmt.Errorf("unknown op %q", op)})
	}
	vb := va
	if !same {
		vb = mb.place(b, offB, 0xa5)
	} else {
		b = a
	}
	want := make([]byte, len(a))
	for i := range want {
		want[i] = a[i] ^ b[i]
	}
	got := f(va, vb)
	if err := diffVec(op, got, want); err != nil {
		return err
	}
	if len(got) > 0 && &got[0] != &vb[0] {
		return fmt.Errorf("%s of %d bytes returned other memory than its second operand", op, len(a))
	}
	if err := diffVec(op+" (second operand afterwards)", vb, want); err != nil {
		return err
	}
	if err := ma.around(va, 0x3c); err != nil {
		return fmt.Errorf("%s, first operand: %v", op, err)
	}
	if same {
		return nil
	}
	if !bytes.Equal(va, a) {
		return fmt.Errorf("%s of %d bytes changed its first operand", op, len(a))
	}
	if err := mb.around(vb, 0xa5); err != nil {
		return fmt.Errorf("%s, second operand: %v", op, err)
	}
	return nil
}

func genVec(t *rapid.T) vecCase {
	c := vecCase{Op: eng.Pick(t, "op", "mul", "mul", "mulgeneric", "add", "add", "addgeneric", "addbatch"), C: byte(eng.Uniform(t, 0, 255, "c"))}
	c.A = genData(t, 70000)
	if eng.Uniform(t, 0, 40, "empty") == 0 {
		c.A = Data{Fill: "zero"}
	}
	c.B = Data{Len: c.A.Len, Fill: eng.Pick(t, "bfill", "rand", "rand", "zero", "ff", "allbytes"), Seed: eng.Bits(t, 16, "bseed")}
	c.OffA = eng.Pick(t, "offa", -1, -1, 0, 0, eng.Uniform(t, 0, 64, "oa"), -eng.Uniform(t, 1, 64, "oe"))
	c.OffB = eng.Pick(t, "offb", -1, -1, 0, 0, eng.Uniform(t, 0, 64, "ob"), -eng.Uniform(t, 1, 64, "of"))
	c.Same = eng.Uniform(t, 0, 9, "same") == 0
	return c
}

type sweepCase struct {
	Len int `json:"len"`
}

// runSweep does one length with every operation, all byte values, many
// constants and both ends of the memory.
func runSweep(o *eng.Obs, c sweepCase) error {
	r := prng(o.Seed)
	a, b := make([]byte, c.Len), make([]byte, c.Len)
	fillRandom(a, o.Seed)
	fillRandom(b, o.Seed+1)
	offs := []int{-1, 0, 1 + r.IntN(63), -2 - r.IntN(62)}
	n := 0
	for _, op := range []string{"add", "addgeneric", "addbatch"} {
		for i, oa := range offs {
			for j, ob := range offs {
				if i > 1 && j > 1 {
					continue
				}
				if err := doVec(op, 0, a, b, oa, ob, false); err != nil {
					return err
				}
				n++
			}
		}
		if err := doVec(op, 0, a, b, -1, 0, true); err != nil {
			return err
		}
		n++
	}
	consts := []byte{0, 1, 2, 0x1d, 0x80, 0xff, byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32()), byte(r.Uint32())}
	for _, op := range []string{"mul", "mulgeneric"} {
		for i, k := range consts {
			if err := doVec(op, k, a, nil, offs[i%len(offs)], 0, false); err != nil {
				return err
			}
			n++
		}
	}
	o.Bulk(n, n)
	return nil
}

type constCase struct {
	C byte `json:"c"`
}

// runConst does one constant with all byte values in every part of the vector
// that has its own code.
func runConst(o *eng.Obs, c constCase) error {
	n := 0
	for _, l := range []int{1, 7, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 96, 127, 128, 129, 159, 160, 161, 191, 223, 255, 256, 319, 1023, 1024, 1055} {
		for s := 0; s < 256; {
			v := make([]byte, l)
			for i := range v {
				v[i] = byte(s + i)
			}
			for _, op := range []string{"mul", "mulgeneric"} {
				if err := doVec(op, c.C, v, nil, -1, 0, false); err != nil {
					return err
				}
				n++
			}
			// the tails of the longer vectors get every value as well
			s += max(1, min(l%16, 13))
		}
	}
	o.Bulk(n, n)
	return nil
}

type mismatchCase struct {
	Op string `json:"op"`
	LA int    `json:"la"`
	LB int    `json:"lb"`
}

// runMismatch: operands of different lengths are refused with a panic, without
// touching anything.
func runMismatch(o *eng.Obs, c mismatchCase) (err error) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	if c.LA == c.LB {
		return nil
	}
	o.NonTrivial()
	a, b := make([]byte, c.LA), make([]byte, c.LB)
	fillRandom(a, uint64(c.LA))
	fillRandom(b, uint64(c.LB)+7)
	for _, off := range []int{-1, 0, 9} {
		ma, mb := arenaPair(max(len(a), len(b)))
		va, vb := ma.place(a, off, 0x3c), mb.place(b, off, 0xa5)
		returned := false
		func() {
			defer func() { _ = recover() }()
			addOps[c.Op](va, vb)
			returned = true
		}()
		if returned {
			return fmt.Errorf("%s accepted vectors of %d and %d bytes", c.Op, c.LA, c.LB)
		}
		if !bytes.Equal(a, va) || !bytes.Equal(b, vb) {
			return fmt.Errorf("%s of %d and %d bytes changed an operand before it refused them", c.Op, c.LA, c.LB)
		}
		if err := ma.around(va, 0x3c); err != nil {
			return fmt.Errorf("%s of %d and %d bytes: %v", c.Op, c.LA, c.LB, err)
		}
		if err := mb.around(vb, 0xa5); err != nil {
			return fmt.Errorf("%s of %d and %d bytes: %v", c.Op, c.LA, c.LB, err)
		}
	}
	return nil
}

var vecConfigs = []string{"native", "ssse3", "sse2", "scalar", "noasm"}

func init() {
	eng.AddEnum(eng.Sub{Prop: "C13", Name: "lengths", Configs: everywhere(vecConfigs...),
		Rule: "every length 0..700 (thorough 0..6000) and around 1..64 KiB: all operations, constants 0, 1, 2, 0x1d, 0x80, 0xff and random ones, operands flush against an unreadable page at either end or unaligned; every operation counts"},
		func(tier string) []sweepCase {
			top := 700
			if tier == "thorough" {
				top = 6000
			}
			var r []sweepCase
			for l := 0; l <= top; l++ {
				r = append(r, sweepCase{l})
			}
			for _, l := range []int{1024, 2048, 4096, 8192, 65536} {
				for d := -33; d <= 65; d += 7 {
					r = append(r, sweepCase{l + d})
				}
			}
			return r
		}, runSweep)
	eng.AddEnum(eng.Sub{Prop: "C13", Name: "constants", Configs: append([]string{"neon"}, vecConfigs...),
		Rule: "every constant times every byte value at 28 lengths, starting with every value; every multiplication counts"},
		func(tier string) []constCase {
			r := make([]constCase, 256)
			for i := range r {
				r[i].C = byte(i)
			}
			return r
		}, runConst)
	eng.Add(eng.Sub{Prop: "C13", Name: "vectors", Configs: everywhere(vecConfigs...), Quick: 4000, Thorough: 120000,
		Rule: "a random operation, constant, length up to 70000, content and alignment of both operands between unreadable pages; non-trivial: at least 16 bytes"},
		genVec, func(o *eng.Obs, c vecCase) error {
			o.Class(c.Op)
			lenClass(o, c.A.Len)
			a, b := c.A.Bytes(), c.B.Bytes()
			if len(a) >= 16 {
				o.NonTrivial()
			}
			return doVec(c.Op, c.C, a, b, c.OffA, c.OffB, c.Same)
		})
	eng.Add(eng.Sub{Prop: "C13", Name: "mismatch", Configs: append([]string{"neon"}, vecConfigs...), Quick: 3000, Thorough: 60000,
		Rule: "additions of vectors of different lengths 0..700 next to unreadable pages: each must panic and leave both operands and what is around them alone; non-trivial: the lengths differ"},
		func(t *rapid.T) mismatchCase {
			c := mismatchCase{Op: eng.Pick(t, "op", "add", "add", "addgeneric", "addbatch"), LA: eng.Uniform(t, 0, 700, "la")}
			if eng.Uniform(t, 0, 1, "close") == 0 {
				c.LB = max(0, c.LA+eng.Pick(t, "d", -64, -32, -16, -1, 1, 16, 32, 64))
			} else {
				c.LB = eng.Uniform(t, 0, 700, "lb")
			}
			return c
		}, runMismatch)
}

// freeArenas gives the memory of all arenas back.
func freeArenas() {
	for p, pair := range arenas {
		for _, a := range pair {
			_ = syscall.Munmap(a.all)
		}
		delete(arenas, p)
	}
}
