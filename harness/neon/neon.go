// Package neon runs the arm64 vector routines of the code under test on any
// machine: it takes their machine code out of a program linked for arm64 and
// interprets it, with every memory access checked against the operands.
package neon

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"unsafe"

	"averif/eng"
)

type vec [16]byte

type region struct {
	base uint64
	mem  []byte
}

type cpu struct {
	x          [32]uint64 // x[31] is the stack pointer
	v          [32]vec
	n, z, c, o bool
	pc         uint64
	regions    []region // the stack, then the operands
	frame      [frameSize]byte
}

const (
	frameSize = 1024
	frameTop  = 512
	frameBase = 0x7f00_0000_0000
)

type routine struct {
	name string
	addr uint64
	code []func(*cpu)
}

// Routines of the program, by name.
var routines = map[string]*routine{}

// Load reads the routines with these names from an arm64 program. Every
// instruction must be one the interpreter knows.
func Load(path string, names []string) error {
	f, err := elf.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	if f.Machine != elf.EM_AARCH64 {
		return fmt.Errorf("%s is for %v", path, f.Machine)
	}
	text := f.Section(".text")
	data, err := text.Data()
	if err != nil {
		return err
	}
	syms, err := f.Symbols()
	if err != nil {
		return err
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].Value < syms[j].Value })
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	for _, s := range syms {
		i := strings.Index(s.Name, "/galois.")
		if i < 0 {
			continue
		}
		name := strings.TrimSuffix(s.Name[i+len("/galois."):], ".abi0")
		if !want[name] {
			continue
		}
		r := &routine{name: name, addr: s.Value}
		body := data[s.Value-text.Addr:][:s.Size]
		for len(body) >= 4 && binary.LittleEndian.Uint32(body[len(body)-4:]) == 0 { // padding
			body = body[:len(body)-4]
		}
		for p := 0; p+4 <= len(body); p += 4 {
			w := binary.LittleEndian.Uint32(body[p:])
			op := decode(w)
			if op == nil {
				return fmt.Errorf("%s+%d: instruction %08x is not known to the interpreter", name, p, w)
			}
			r.code = append(r.code, op)
		}
		routines[name] = r
	}
	return nil
}

// Call runs a routine of Go's stack calling convention with slices as arguments.
func Call(name string, args ...[]byte) {
	r := routines[name]
	if r == nil {
		panic(&eng.HarnessError{Err: fmt.Errorf("neon: %s is not in the linked program", name)})
	}
	c := free.Get().(*cpu)
	defer free.Put(c)
	// registers and stack hold no particular values
	for i := range c.x {
		c.x[i] = 0x5a5a_0000_0000_0000 + uint64(i)
	}
	for i := range c.v {
		for j := range c.v[i] {
			c.v[i][j] = byte(0xa5 + 3*i + j)
		}
	}
	c.regions = append(c.regions[:0], region{frameBase, c.frame[:]})
	c.x[31] = frameBase + frameTop
	for i, a := range args {
		base := uint64(i+1)<<40 | uint64(uintptr(unsafe.Pointer(unsafe.SliceData(a))))&0xfff
		c.regions = append(c.regions, region{base, a})
		at := c.frame[frameTop+8+24*i:]
		binary.LittleEndian.PutUint64(at, base)
		binary.LittleEndian.PutUint64(at[8:], uint64(len(a)))
		binary.LittleEndian.PutUint64(at[16:], uint64(cap(a)))
	}
	const lr = 0xdead0000
	c.x[30] = lr
	c.pc = r.addr
	for c.pc != lr {
		i := int64(c.pc-r.addr) / 4
		if c.pc < r.addr || i >= int64(len(r.code)) {
			panic(fmt.Sprintf("neon: %s jumps out of itself to %#x", name, c.pc))
		}
		c.pc += 4
		r.code[i](c)
	}
	if c.x[31] != frameBase+frameTop {
		panic("neon: " + name + " leaves the stack pointer changed")
	}
}

var free = sync.Pool{New: func() any { return &cpu{} }}

func (c *cpu) mem(addr uint64, n int) []byte {
	k := int(addr >> 40)
	if k == frameBase>>40 {
		k = 0
	}
	if k < len(c.regions) {
		r := &c.regions[k]
		if off := addr - r.base; off <= uint64(len(r.mem)) && off+uint64(n) <= uint64(len(r.mem)) {
			return r.mem[off:][:n]
		}
		if addr>>40 == r.base>>40 {
			panic(fmt.Sprintf("neon: access to %d bytes at offset %d of operand %d, which has %d bytes", n, int64(addr-r.base), k-1, len(r.mem)))
		}
	}
	panic(fmt.Sprintf("neon: access to %d bytes at the address %#x, outside all operands", n, addr))
}

// reg reads a general register; 31 is zero.
func (c *cpu) reg(r uint32) uint64 {
	if r == 31 {
		return 0
	}
	return c.x[r]
}

func (c *cpu) set(r uint32, v uint64, wide bool) {
	if !wide {
		v = uint64(uint32(v))
	}
	if r != 31 {
		c.x[r] = v
	}
}

func (c *cpu) setSP(r uint32, v uint64, wide bool) {
	if !wide {
		v = uint64(uint32(v))
	}
	c.x[r] = v
}

func (c *cpu) cond(k uint32) bool {
	var r bool
	switch k >> 1 {
	case 0:
		r = c.z
	case 1:
		r = c.c
	case 2:
		r = c.n
	case 3:
		r = c.o
	case 4:
		r = c.c && !c.z
	case 5:
		r = c.n == c.o
	case 6:
		r = c.n == c.o && !c.z
	default:
		return true
	}
	return r != (k&1 == 1)
}

// addFlags is a+b+carry with flags.
func (c *cpu) add(a, b uint64, carry uint64, wide, flags bool) uint64 {
	if !wide {
		s := uint64(uint32(a)) + uint64(uint32(b)) + carry
		r := uint32(s)
		if flags {
			c.n, c.z, c.c = int32(r) < 0, r == 0, s>>32 != 0
			c.o = (uint32(a)^r)&(uint32(b)^r)>>31 != 0
		}
		return uint64(r)
	}
	r, co := bits.Add64(a, b, carry)
	if flags {
		c.n, c.z, c.c = int64(r) < 0, r == 0, co != 0
		c.o = (a^r)&(b^r)>>63 != 0
	}
	return r
}

func sext(v uint32, n uint) int64 { return int64(uint64(v)<<(64-n)) >> (64 - n) }

func shifted(v uint64, kind, n uint32, wide bool) uint64 {
	if !wide {
		v = uint64(uint32(v))
		switch kind {
		case 0:
			return uint64(uint32(v << n))
		case 1:
			return v >> n
		case 2:
			return uint64(uint32(int32(uint32(v)) >> n))
		}
		return uint64(bits.RotateLeft32(uint32(v), -int(n)))
	}
	switch kind {
	case 0:
		return v << n
	case 1:
		return v >> n
	case 2:
		return uint64(int64(v) >> n)
	}
	return bits.RotateLeft64(v, -int(n))
}

// bitmask decodes a logical immediate.
func bitmask(n, immr, imms uint32, wide bool) (uint64, bool) {
	l := bits.Len32(n<<6|(^imms&0x3f)) - 1
	if l < 1 {
		return 0, false
	}
	size := uint32(1) << l
	s, r := imms&(size-1), immr&(size-1)
	if s == size-1 || (!wide && n == 1) {
		return 0, false
	}
	el := uint64(1)<<(s+1) - 1
	if r != 0 {
		el = el>>r | el<<(size-r)
		if size < 64 {
			el &= 1<<size - 1
		}
	}
	for size < 64 {
		el |= el << size
		size *= 2
	}
	return el, true
}

func bit(w uint32, i uint) bool { return w>>i&1 == 1 }

func (c *cpu) logic(op uint32, a, b uint64, rd uint32, wide bool) {
	var r uint64
	switch op {
	case 0, 3:
		r = a & b
	case 1:
		r = a | b
	case 2:
		r = a ^ b
	}
	if op == 3 {
		c.c, c.o = false, false
		if wide {
			c.n, c.z = int64(r) < 0, r == 0
		} else {
			c.n, c.z = int32(uint32(r)) < 0, uint32(r) == 0
		}
	}
	c.set(rd, r, wide)
}

// decode gives the effect of an instruction, nil if it is not known.
func decode(w uint32) func(*cpu) {
	rd, rn, rm := w&31, w>>5&31, w>>16&31
	wide := bit(w, 31)
	switch {
	case w == 0xd503201f: // nop
		return func(*cpu) {}
	case w&0xfffffc1f == 0xd65f0000, w&0xfffffc1f == 0xd61f0000: // ret, br
		return func(c *cpu) { c.pc = c.reg(rn) }
	case w&0xff000010 == 0x54000000: // b.cond
		d, k := sext(w>>5&0x7ffff, 19)*4, w&15
		return func(c *cpu) {
			if c.cond(k) {
				c.pc += uint64(d) - 4
			}
		}
	case w&0xfc000000 == 0x14000000: // b
		d := sext(w&0x3ffffff, 26) * 4
		return func(c *cpu) { c.pc += uint64(d) - 4 }
	case w&0x7e000000 == 0x34000000: // cbz, cbnz
		d, nz := sext(w>>5&0x7ffff, 19)*4, bit(w, 24)
		return func(c *cpu) {
			v := c.reg(rd)
			if !wide {
				v = uint64(uint32(v))
			}
			if (v != 0) == nz {
				c.pc += uint64(d) - 4
			}
		}
	case w&0x7e000000 == 0x36000000: // tbz, tbnz
		d, nz, b := sext(w>>5&0x3fff, 14)*4, bit(w, 24), w>>19&31|w>>31<<5
		return func(c *cpu) {
			if (c.reg(rd)>>b&1 == 1) == nz {
				c.pc += uint64(d) - 4
			}
		}
	case w&0x1f800000 == 0x11000000: // add, sub immediate
		imm := uint64(w >> 10 & 0xfff)
		if bit(w, 22) {
			imm <<= 12
		}
		sub, flags := bit(w, 30), bit(w, 29)
		return func(c *cpu) {
			a, b, carry := c.x[rn], imm, uint64(0)
			if sub {
				b, carry = ^imm, 1
			}
			r := c.add(a, b, carry, wide, flags)
			if flags {
				c.set(rd, r, wide)
			} else {
				c.setSP(rd, r, wide)
			}
		}
	case w&0x1f200000 == 0x0b000000: // add, sub shifted register
		kind, amount := w>>22&3, w>>10&63
		if kind == 3 || (!wide && amount > 31) {
			return nil
		}
		sub, flags := bit(w, 30), bit(w, 29)
		return func(c *cpu) {
			b, carry := shifted(c.reg(rm), kind, amount, wide), uint64(0)
			if sub {
				b, carry = ^b, 1
			}
			c.set(rd, c.add(c.reg(rn), b, carry, wide, flags), wide)
		}
	case w&0x1f000000 == 0x0a000000: // logical shifted register
		kind, amount, op, not := w>>22&3, w>>10&63, w>>29&3, bit(w, 21)
		if !wide && amount > 31 {
			return nil
		}
		return func(c *cpu) {
			b := shifted(c.reg(rm), kind, amount, wide)
			if not {
				b = ^b
			}
			c.logic(op, c.reg(rn), b, rd, wide)
		}
	case w&0x1f800000 == 0x12000000: // logical immediate
		imm, ok := bitmask(w>>22&1, w>>16&63, w>>10&63, wide)
		if !ok {
			return nil
		}
		op := w >> 29 & 3
		return func(c *cpu) {
			if op != 3 && rd == 31 {
				panic("neon: logical operation into the stack pointer")
			}
			c.logic(op, c.reg(rn), imm, rd, wide)
		}
	case w&0x1f800000 == 0x12800000: // movn, movz, movk
		imm, sh, op := uint64(w>>5&0xffff), w>>21&3*16, w>>29&3
		if op == 1 {
			return nil
		}
		return func(c *cpu) {
			switch op {
			case 0:
				c.set(rd, ^(imm << sh), wide)
			case 2:
				c.set(rd, imm<<sh, wide)
			case 3:
				c.set(rd, c.reg(rd)&^(0xffff<<sh)|imm<<sh, wide)
			}
		}
	case w&0x7f800000 == 0x53000000: // ubfm: lsr, lsl, uxtb
		immr, imms := w>>16&63, w>>10&63
		size := uint32(32)
		if wide {
			size = 64
		}
		if bit(w, 22) != wide || immr >= size || imms >= size {
			return nil
		}
		return func(c *cpu) {
			v := c.reg(rn)
			if !wide {
				v = uint64(uint32(v))
			}
			if imms >= immr {
				v = v >> immr & (1<<(imms-immr+1) - 1)
			} else {
				v = v & (1<<(imms+1) - 1) << (size - immr)
			}
			c.set(rd, v, wide)
		}
	case w&0x3b000000 == 0x39000000 || w&0x3b200c00 == 0x38000400 || w&0x3b200c00 == 0x38000c00 || w&0x3b200c00 == 0x38000000:
		return loadStore(w)
	case w&0x3e000000 == 0x28000000 && w>>30 != 1 && w>>30 != 3: // ldp, stp of general registers
		return pair(w)
	case w&0xbf000000 == 0x0c000000: // ld1, st1 of whole registers
		return ld1(w)
	}
	return vector(w)
}

func pair(w uint32) func(*cpu) {
	rt, rn, rt2 := w&31, w>>5&31, w>>10&31
	mode, load, wide := w>>23&3, bit(w, 22), bit(w, 31)
	size := 4
	if wide {
		size = 8
	}
	imm := uint64(sext(w>>15&127, 7) * int64(size))
	if mode == 0 {
		return nil
	}
	return func(c *cpu) {
		addr := c.x[rn]
		if mode != 1 {
			addr += imm
		}
		m := c.mem(addr, 2*size)
		for i, r := range []uint32{rt, rt2} {
			p := m[i*size:]
			switch {
			case load && wide:
				c.set(r, binary.LittleEndian.Uint64(p), true)
			case load:
				c.set(r, uint64(binary.LittleEndian.Uint32(p)), true)
			case wide:
				binary.LittleEndian.PutUint64(p, c.reg(r))
			default:
				binary.LittleEndian.PutUint32(p, uint32(c.reg(r)))
			}
		}
		if mode == 1 {
			c.x[rn] += imm
		} else if mode == 3 {
			c.x[rn] = addr
		}
	}
}

func loadStore(w uint32) func(*cpu) {
	rt, rn := w&31, w>>5&31
	size, vr, opc := w>>30, bit(w, 26), w>>22&3
	n := 1 << size
	load := opc&1 == 1
	if vr {
		if opc >= 2 {
			if size != 0 {
				return nil
			}
			n = 16
		}
	} else if opc >= 2 { // sign extension
		return nil
	}
	unsigned := bit(w, 24)
	imm := uint64(w>>10&0xfff) * uint64(n)
	post, pre := false, false
	if !unsigned {
		imm = uint64(sext(w>>12&511, 9))
		post, pre = w>>10&3 == 1, w>>10&3 == 3
	}
	return func(c *cpu) {
		addr := c.x[rn]
		if !post {
			addr += imm
		}
		m := c.mem(addr, n)
		switch {
		case vr && load:
			var v vec
			copy(v[:], m)
			c.v[rt] = v
		case vr:
			copy(m, c.v[rt][:n])
		case load:
			var b [8]byte
			copy(b[:], m)
			c.set(rt, binary.LittleEndian.Uint64(b[:]), true)
		default:
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], c.reg(rt))
			copy(m, b[:n])
		}
		if post {
			c.x[rn] += imm
		} else if pre {
			c.x[rn] = addr
		}
	}
}

func ld1(w uint32) func(*cpu) {
	rt, rn, rm := w&31, w>>5&31, w>>16&31
	load, post := bit(w, 22), bit(w, 23)
	n := 8
	if bit(w, 30) {
		n = 16
	}
	var count int
	switch w >> 12 & 15 {
	case 7:
		count = 1
	case 10:
		count = 2
	case 6:
		count = 3
	case 2:
		count = 4
	default:
		return nil
	}
	if bit(w, 21) || (!post && rm != 0) {
		return nil
	}
	return func(c *cpu) {
		addr := c.x[rn]
		for i := 0; i < count; i++ {
			m := c.mem(addr+uint64(i*n), n)
			r := &c.v[(int(rt)+i)%32]
			if load {
				*r = vec{}
				copy(r[:], m)
			} else {
				copy(m, r[:n])
			}
		}
		if post {
			if rm == 31 {
				c.x[rn] += uint64(count * n)
			} else {
				c.x[rn] += c.x[rm]
			}
		}
	}
}

// vector decodes the operations on vector registers.
func vector(w uint32) func(*cpu) {
	rd, rn, rm := w&31, w>>5&31, w>>16&31
	n := 8
	if bit(w, 30) {
		n = 16
	}
	le := binary.LittleEndian
	three := func(f func(a, b, d uint64) uint64) func(*cpu) {
		return func(c *cpu) {
			a, b, d := &c.v[rn], &c.v[rm], &c.v[rd]
			lo := f(le.Uint64(a[:8]), le.Uint64(b[:8]), le.Uint64(d[:8]))
			hi := uint64(0)
			if n == 16 {
				hi = f(le.Uint64(a[8:]), le.Uint64(b[8:]), le.Uint64(d[8:]))
			}
			le.PutUint64(d[:8], lo)
			le.PutUint64(d[8:], hi)
		}
	}
	switch w & 0xbfe0fc00 {
	case 0x0e201c00:
		return three(func(a, b, d uint64) uint64 { return a & b })
	case 0x0e601c00:
		return three(func(a, b, d uint64) uint64 { return a &^ b })
	case 0x0ea01c00:
		return three(func(a, b, d uint64) uint64 { return a | b })
	case 0x0ee01c00:
		return three(func(a, b, d uint64) uint64 { return a | ^b })
	case 0x2e201c00:
		return three(func(a, b, d uint64) uint64 { return a ^ b })
	case 0x2e601c00: // bsl
		return three(func(a, b, d uint64) uint64 { return d&a | ^d&b })
	case 0x2ea01c00: // bit
		return three(func(a, b, d uint64) uint64 { return d&^b | a&b })
	case 0x2ee01c00: // bif
		return three(func(a, b, d uint64) uint64 { return d&b | a&^b })
	}
	switch {
	case w&0xbfe08c00 == 0x0e000000: // tbl, tbx
		count, tbx := int(w>>13&3)+1, bit(w, 12)
		if count == 1 && !tbx && n == 16 {
			return func(c *cpu) {
				var v vec
				t, x := &c.v[rn], &c.v[rm]
				for i, k := range x {
					if k < 16 {
						v[i] = t[k&15]
					}
				}
				c.v[rd] = v
			}
		}
		return func(c *cpu) {
			var v vec
			for i := 0; i < n; i++ {
				k := int(c.v[rm][i])
				if k < 16*count {
					v[i] = c.v[(int(rn)+k/16)%32][k%16]
				} else if tbx {
					v[i] = c.v[rd][i]
				}
			}
			c.v[rd] = v
		}
	case w&0xbf80fc00 == 0x2f000400 || w&0xbf80fc00 == 0x0f005400: // ushr, shl
		right := bit(w, 29)
		h := w >> 16 & 127
		if h>>3 == 0 {
			return nil
		}
		esize := uint(8) << (bits.Len32(h>>3) - 1)
		sh := uint(h) - esize
		if right {
			sh = 2*esize - uint(h)
		}
		if esize == 8 && right {
			mask := uint64(0xff>>sh) * 0x0101010101010101
			return func(c *cpu) {
				lo, hi := le.Uint64(c.v[rn][:8])>>sh&mask, uint64(0)
				if n == 16 {
					hi = le.Uint64(c.v[rn][8:]) >> sh & mask
				}
				le.PutUint64(c.v[rd][:8], lo)
				le.PutUint64(c.v[rd][8:], hi)
			}
		}
		return func(c *cpu) {
			var v vec
			eb := int(esize / 8)
			for i := 0; i < n; i += eb {
				var b [8]byte
				copy(b[:], c.v[rn][i:i+eb])
				x := binary.LittleEndian.Uint64(b[:])
				if right {
					x >>= sh
				} else {
					x <<= sh
				}
				binary.LittleEndian.PutUint64(b[:], x)
				copy(v[i:i+eb], b[:eb])
			}
			c.v[rd] = v
		}
	case w&0xffe0fc00 == 0x4e001c00: // ins from a general register
		imm := w >> 16 & 31
		t := bits.TrailingZeros32(imm)
		if t > 3 {
			return nil
		}
		idx, eb := int(imm>>(t+1)), 1<<t
		return func(c *cpu) {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], c.reg(rn))
			copy(c.v[rd][idx*eb:(idx+1)*eb], b[:])
		}
	case w&0xbfe0fc00 == 0x0e000400 || w&0xbfe0fc00 == 0x0e000c00: // dup of an element or a general register
		imm := w >> 16 & 31
		t := bits.TrailingZeros32(imm)
		if t > 3 {
			return nil
		}
		idx, eb, general := int(imm>>(t+1)), 1<<t, w&0xfc00 == 0x0c00
		return func(c *cpu) {
			var b [8]byte
			if general {
				binary.LittleEndian.PutUint64(b[:], c.reg(rn))
			} else {
				copy(b[:], c.v[rn][idx*eb:(idx+1)*eb])
			}
			var v vec
			for i := 0; i < n; i += eb {
				copy(v[i:i+eb], b[:eb])
			}
			c.v[rd] = v
		}
	case w&0xbff8fc00 == 0x0f00e400: // movi of bytes
		imm := byte(w>>16&7<<5 | w>>5&31)
		return func(c *cpu) {
			var v vec
			for i := 0; i < n; i++ {
				v[i] = imm
			}
			c.v[rd] = v
		}
	}
	return nil
}
