package main

// A decoder for the HDF5 structures that a writer of new files uses, written from the
// file format specification and sharing nothing with the library.  It accepts only what
// the specification allows and what the reference library goes by.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

const undefAddr = ^uint64(0)

// h5Bad is what is wrong with a file.
type h5Bad string

func h5bad(f string, a ...any) { panic(h5Bad(fmt.Sprintf(f, a...))) }

type h5Type struct {
	class, size int
	bits        uint32
	signed, big bool
	isString    bool // variable-length
	base        *h5Type
	members     []h5Member // of compounds, and names of enums
	values      [][]byte   // of enums
	dims        []uint64   // of arrays
}

type h5Member struct {
	name string
	off  int
	t    *h5Type
}

type h5Attr struct {
	name string
	t    *h5Type
	dims []uint64
	raw  []byte
}

type h5Node struct {
	addr  uint64
	group bool
	links []h5NamedNode
	attrs []h5Attr
	t     *h5Type
	dims  []uint64
	raw   []byte
}

type h5NamedNode struct {
	name string
	*h5Node
}

type h5Extent struct {
	from, to uint64
	what     string
}

type h5File struct {
	d       []byte
	root    *h5Node
	nodes   map[uint64]*h5Node
	heaps   map[uint64]map[uint16][]byte
	extents []h5Extent
	steps   int
}

// decodeH5 decodes a whole file, or tells what is wrong with it.
func decodeH5(d []byte) (f *h5File, err error) {
	f = &h5File{d: d, nodes: map[uint64]*h5Node{}, heaps: map[uint64]map[uint16][]byte{}}
	defer func() {
		if r := recover(); r != nil {
			bad, ok := r.(h5Bad)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("not valid HDF5: %s", string(bad))
		}
	}()
	f.superblock()
	f.checkExtents()
	return f, nil
}

// part returns a piece of the file.
func (f *h5File) part(addr, n uint64, what string) []byte {
	if addr > uint64(len(f.d)) || n > uint64(len(f.d))-addr {
		h5bad("%s at %d of %d bytes reaches outside the file of %d", what, addr, n, len(f.d))
	}
	return f.d[addr : addr+n]
}

func (f *h5File) extent(addr, n uint64, what string) []byte {
	b := f.part(addr, n, what)
	if n > 0 {
		f.extents = append(f.extents, h5Extent{addr, addr + n, what})
	}
	return b
}

func (f *h5File) checkExtents() {
	sort.Slice(f.extents, func(i, j int) bool { return f.extents[i].from < f.extents[j].from })
	for i := 1; i < len(f.extents); i++ {
		if a, b := f.extents[i-1], f.extents[i]; b.from < a.to {
			h5bad("%s [%d,%d) and %s [%d,%d) overlap", a.what, a.from, a.to, b.what, b.from, b.to)
		}
	}
}

// h5cur walks through a structure.
type h5cur struct {
	b    []byte
	what string
}

func (c *h5cur) take(n int) []byte {
	if n < 0 || n > len(c.b) {
		h5bad("%s: %d bytes where %d are needed", c.what, len(c.b), n)
	}
	p := c.b[:n]
	c.b = c.b[n:]
	return p
}
func (c *h5cur) u8() int     { return int(c.take(1)[0]) }
func (c *h5cur) u16() int    { return int(binary.LittleEndian.Uint16(c.take(2))) }
func (c *h5cur) u32() uint32 { return binary.LittleEndian.Uint32(c.take(4)) }
func (c *h5cur) u64() uint64 { return binary.LittleEndian.Uint64(c.take(8)) }
func (c *h5cur) uN(n int) uint64 {
	v := uint64(0)
	for i, b := range c.take(n) {
		v |= uint64(b) << (8 * i)
	}
	return v
}
func (c *h5cur) cstr() string {
	i := bytes.IndexByte(c.b, 0)
	if i < 0 {
		h5bad("%s: a name without an end", c.what)
	}
	return string(c.take(i + 1)[:i])
}

// nothingLeft allows for padding.
func (c *h5cur) nothingLeft() {
	if len(c.b) >= 8 || strings.Trim(string(c.b), "\x00") != "" {
		h5bad("%s: %d bytes left over", c.what, len(c.b))
	}
}

func (f *h5File) superblock() {
	b := f.extent(0, 48, "superblock")
	c := &h5cur{b, "superblock"}
	if string(c.take(8)) != "\x89HDF\r\n\x1a\n" {
		h5bad("no signature")
	}
	if v := c.u8(); v != 2 && v != 3 {
		h5bad("superblock version %d", v)
	}
	if o, l := c.u8(), c.u8(); o != 8 || l != 8 {
		h5bad("offsets of %d and lengths of %d bytes", o, l)
	}
	if fl := c.u8(); fl != 0 {
		h5bad("superblock flags %#x: not closed properly", fl)
	}
	base, ext, eof, root := c.u64(), c.u64(), c.u64(), c.u64()
	if base != 0 || ext != undefAddr {
		h5bad("base address %#x, extension %#x", base, ext)
	}
	if eof != uint64(len(f.d)) {
		h5bad("the end of the file is said to be at %d, it is at %d", eof, len(f.d))
	}
	if sum := c.u32(); sum != lookup3(b[:44]) {
		h5bad("superblock checksum")
	}
	f.root = f.object(root, 0)
	if !f.root.group {
		h5bad("the root is no group")
	}
}

type h5Msg struct {
	typ, flags int
	b          []byte
}

// messages returns the messages of an object header.
func (f *h5File) messages(addr uint64) []h5Msg {
	what := fmt.Sprintf("object header at %d", addr)
	c := &h5cur{f.part(addr, uint64(len(f.d))-min(addr, uint64(len(f.d))), what), what}
	all := c.b
	if string(c.take(4)) != "OHDR" {
		h5bad("%s: no signature", what)
	}
	if v := c.u8(); v != 2 {
		h5bad("%s: version %d", what, v)
	}
	flags := c.u8()
	if flags&^0x3f != 0 {
		h5bad("%s: flags %#x", what, flags)
	}
	if flags&0x20 != 0 {
		c.take(16)
	}
	if flags&0x10 != 0 {
		c.take(4)
	}
	size := c.uN(1 << (flags & 3))
	if size > uint64(len(c.b)) {
		h5bad("%s: %d bytes of messages", what, size)
	}
	chunk := c.take(int(size))
	n := len(all) - len(c.b)
	if sum := c.u32(); sum != lookup3(all[:n]) {
		h5bad("%s: checksum", what)
	}
	f.extent(addr, uint64(n)+4, what)
	var out []h5Msg
	type cont struct{ addr, n uint64 }
	var conts []cont
	scan := func(b []byte) {
		c := &h5cur{b, what}
		for {
			head := 4
			if flags&4 != 0 {
				head = 6
			}
			if len(c.b) < head {
				if strings.Trim(string(c.b), "\x00") != "" {
					h5bad("%s: a gap that is not zero", what)
				}
				return
			}
			typ, n, fl := c.u8(), c.u16(), c.u8()
			if flags&4 != 0 {
				c.u16()
			}
			m := h5Msg{typ, fl, c.take(n)}
			if fl&0x02 != 0 || fl&0xc0 != 0 {
				h5bad("%s: message of type %d with flags %#x", what, typ, fl)
			}
			switch typ {
			case 0:
			case 16:
				cc := &h5cur{m.b, what}
				conts = append(conts, cont{cc.u64(), cc.u64()})
			default:
				out = append(out, m)
			}
		}
	}
	scan(chunk)
	for i := 0; i < len(conts); i++ {
		if i > 1000 {
			h5bad("%s: too many continuations", what)
		}
		b := f.extent(conts[i].addr, conts[i].n, what+": continuation")
		if len(b) < 8 || string(b[:4]) != "OCHK" || lookup3(b[:len(b)-4]) != binary.LittleEndian.Uint32(b[len(b)-4:]) {
			h5bad("%s: bad continuation", what)
		}
		scan(b[4 : len(b)-4])
	}
	return out
}

func (f *h5File) object(addr uint64, depth int) *h5Node {
	if n := f.nodes[addr]; n != nil {
		return n
	}
	if depth > 2000 {
		h5bad("groups too deep")
	}
	n := &h5Node{addr: addr}
	f.nodes[addr] = n
	what := fmt.Sprintf("object at %d", addr)
	count := map[int]int{}
	type link struct {
		name string
		addr uint64
	}
	var links []link
	hasLayout := false
	var dataAddr, dataSize uint64
	for _, m := range f.messages(addr) {
		count[m.typ]++
		c := &h5cur{m.b, fmt.Sprintf("%s: message of type %d", what, m.typ)}
		switch m.typ {
		case 1:
			n.dims = dataspace(c)
			c.nothingLeft()
		case 2, 21:
			if v := c.u8(); v != 0 {
				h5bad("%s: version %d", c.what, v)
			}
			fl := c.u8()
			if fl&^3 != 0 {
				h5bad("%s: flags %#x", c.what, fl)
			}
			if fl&1 != 0 {
				c.take(map[int]int{2: 8, 21: 2}[m.typ])
			}
			for range 2 + fl>>1 {
				if a := c.u64(); a != undefAddr {
					h5bad("%s: not stored compactly", c.what)
				}
			}
			c.nothingLeft()
		case 3:
			n.t = f.datatype(c, 0)
			c.nothingLeft()
		case 4:
		case 5:
			if v := c.u8(); v < 1 || v > 3 {
				h5bad("%s: version %d", c.what, v)
			}
		case 6:
			name, a := linkMessage(c)
			links = append(links, link{name, a})
			c.nothingLeft()
		case 8:
			hasLayout = true
			v, class := c.u8(), c.u8()
			if v != 3 && v != 4 {
				h5bad("%s: version %d", c.what, v)
			}
			switch class {
			case 0:
				dataSize = uint64(c.u16())
				n.raw = c.take(int(dataSize))
				dataAddr = undefAddr
			case 1:
				dataAddr, dataSize = c.u64(), c.u64()
				if dataSize > 0 && dataAddr != undefAddr {
					n.raw = f.extent(dataAddr, dataSize, what+": data")
				}
			default:
				h5bad("%s: class %d", c.what, class)
			}
			c.nothingLeft()
		case 10:
			if v := c.u8(); v != 0 {
				h5bad("%s: version %d", c.what, v)
			}
			if fl := c.u8(); fl&^3 != 0 {
				h5bad("%s: flags %#x", c.what, fl)
			} else {
				c.take(4*(fl&1) + 4*(fl>>1))
			}
			c.nothingLeft()
		case 12:
			n.attrs = append(n.attrs, f.attribute(c))
		case 14, 18, 22:
		default:
			h5bad("%s: unexpected", c.what)
		}
	}
	for t, k := range count {
		if k > 1 && t != 6 && t != 12 {
			h5bad("%s: %d messages of type %d", what, k, t)
		}
	}
	if len(n.attrs) > 0 && count[21] == 0 {
		h5bad("%s: has attributes but no attribute info, without which they are not counted", what)
	}
	names := map[string]bool{}
	for _, a := range n.attrs {
		if a.name == "" || names[a.name] {
			h5bad("%s: attribute %q twice or without a name", what, a.name)
		}
		names[a.name] = true
	}
	switch {
	case count[2] > 0:
		n.group = true
		if count[1]+count[3]+count[8] > 0 {
			h5bad("%s: both a group and a dataset", what)
		}
		names := map[string]bool{}
		for _, l := range links {
			if l.name == "" || l.name == "." || strings.ContainsAny(l.name, "/\x00") || names[l.name] {
				h5bad("%s: link %q twice or not a name", what, l.name)
			}
			names[l.name] = true
			if f.nodes[l.addr] != nil {
				h5bad("%s: link %q leads to an object that has a name already", what, l.name)
			}
			n.links = append(n.links, h5NamedNode{l.name, f.object(l.addr, depth+1)})
		}
	case n.t != nil:
		if count[1] == 0 || !hasLayout || len(links) > 0 {
			h5bad("%s: a dataset that lacks a dataspace or a layout, or has links", what)
		}
		want := uint64(n.t.size)
		for _, d := range n.dims {
			want *= d
		}
		if dataSize != want {
			h5bad("%s: %d bytes of data, want %d for dimensions %v of %d bytes", what, dataSize, want, n.dims, n.t.size)
		}
		if n.raw == nil && want > 0 {
			h5bad("%s: no data", what)
		}
	default:
		h5bad("%s: neither group nor dataset", what)
	}
	return n
}

func linkMessage(c *h5cur) (string, uint64) {
	if v := c.u8(); v != 1 {
		h5bad("%s: version %d", c.what, v)
	}
	fl := c.u8()
	if fl&^0x1f != 0 {
		h5bad("%s: flags %#x", c.what, fl)
	}
	if fl&8 != 0 {
		if t := c.u8(); t != 0 {
			h5bad("%s: not a hard link", c.what)
		}
	}
	if fl&4 != 0 {
		c.take(8)
	}
	if fl&16 != 0 {
		if cs := c.u8(); cs > 1 {
			h5bad("%s: character set %d", c.what, cs)
		}
	}
	n := c.uN(1 << (fl & 3))
	if n > uint64(len(c.b)) {
		h5bad("%s: name of %d bytes", c.what, n)
	}
	name := string(c.take(int(n)))
	return name, c.u64()
}

func dataspace(c *h5cur) []uint64 {
	v, rank, fl := c.u8(), c.u8(), c.u8()
	switch v {
	case 1:
		c.take(5)
	case 2:
		if t := c.u8(); t > 1 || (t == 0) != (rank == 0) {
			h5bad("%s: dataspace of type %d with %d dimensions", c.what, t, rank)
		}
	default:
		h5bad("%s: dataspace version %d", c.what, v)
	}
	if fl&^1 != 0 {
		h5bad("%s: dataspace flags %#x", c.what, fl)
	}
	if rank > 32 {
		h5bad("%s: %d dimensions, HDF5 has no more than 32", c.what, rank)
	}
	dims := []uint64{}
	for range rank {
		dims = append(dims, c.u64())
	}
	if fl&1 != 0 {
		for i := range rank {
			if mx := c.u64(); mx < dims[i] {
				h5bad("%s: dimension of %d, at most %d", c.what, dims[i], mx)
			}
		}
	}
	return dims
}

func (f *h5File) datatype(c *h5cur, depth int) *h5Type {
	if depth > 100 {
		h5bad("%s: datatype too deep", c.what)
	}
	cv := c.u8()
	ver := cv >> 4
	t := &h5Type{class: cv & 15}
	t.bits = uint32(c.uN(3))
	t.size = int(c.u32())
	if ver < 1 || ver > 3 {
		h5bad("%s: datatype version %d", c.what, ver)
	}
	if t.size == 0 {
		h5bad("%s: datatype of class %d and size 0", c.what, t.class)
	}
	t.big = t.bits&1 != 0
	bits := func(allowed uint32) {
		if t.bits&^allowed != 0 {
			h5bad("%s: datatype of class %d with bits %#x", c.what, t.class, t.bits)
		}
	}
	switch t.class {
	case 0:
		bits(0xf)
		t.signed = t.bits&8 != 0
		if off, prec := c.u16(), c.u16(); off != 0 || prec != 8*t.size || t.size&(t.size-1) != 0 || t.size > 8 {
			h5bad("%s: integer of %d bytes, %d bits at %d", c.what, t.size, prec, off)
		}
	case 1:
		bits(0xff7f)
		off, prec := c.u16(), c.u16()
		eloc, esize, mloc, msize, bias := c.u8(), c.u8(), c.u8(), c.u8(), c.u32()
		got := [...]int{int(t.bits &^ 1), off, prec, eloc, esize, mloc, msize, int(bias)}
		if got != [...]int{31<<8 | 0x20, 0, 32, 23, 8, 0, 23, 127} && t.size == 4 || got != [...]int{63<<8 | 0x20, 0, 64, 52, 11, 0, 52, 1023} && t.size == 8 ||
			t.size != 4 && t.size != 8 {
			h5bad("%s: floating-point type %v of %d bytes", c.what, got, t.size)
		}
	case 3:
		bits(0x1f)
		if t.bits&0xf > 2 || t.bits>>4 > 1 {
			h5bad("%s: string type with bits %#x", c.what, t.bits)
		}
	case 5:
		if t.bits > 255 || t.bits&7 != 0 {
			h5bad("%s: opaque type with bits %#x", c.what, t.bits)
		}
		c.take(int(t.bits))
	case 6:
		bits(0xffff)
		if t.bits == 0 {
			h5bad("%s: compound without members", c.what)
		}
		names := map[string]bool{}
		var used []h5Extent
		for range t.bits {
			m := h5Member{name: f.memberName(c, ver)}
			switch {
			case ver == 3:
				n := 1
				for s := t.size >> 8; s > 0; s >>= 8 {
					n++
				}
				m.off = int(c.uN(n))
			default:
				m.off = int(c.u32())
			}
			if ver == 1 {
				if rank := c.u8(); rank != 0 {
					h5bad("%s: member with dimensions", c.what)
				}
				c.take(27)
			}
			m.t = f.datatype(c, depth+1)
			if names[m.name] || m.name == "" || m.off+m.t.size > t.size {
				h5bad("%s: member %q at %d of %d bytes in a compound of %d", c.what, m.name, m.off, m.t.size, t.size)
			}
			for _, u := range used {
				if uint64(m.off) < u.to && u.from < uint64(m.off+m.t.size) {
					h5bad("%s: members overlap", c.what)
				}
			}
			used = append(used, h5Extent{uint64(m.off), uint64(m.off + m.t.size), ""})
			names[m.name] = true
			t.members = append(t.members, m)
		}
	case 7:
		bits(0xf)
		if t.bits != 0 || t.size != 8 {
			h5bad("%s: reference of kind %d, %d bytes", c.what, t.bits, t.size)
		}
	case 8:
		bits(0xffff)
		t.base = f.datatype(c, depth+1)
		if t.base.class != 0 || t.base.size != t.size || t.bits == 0 {
			h5bad("%s: enum of %d bytes with base of class %d and %d bytes, %d members", c.what, t.size, t.base.class, t.base.size, t.bits)
		}
		names := map[string]bool{}
		for range t.bits {
			m := h5Member{name: f.memberName(c, ver)}
			if names[m.name] {
				h5bad("%s: enum name %q twice", c.what, m.name)
			}
			names[m.name] = true
			t.members = append(t.members, m)
		}
		for range t.bits {
			t.values = append(t.values, c.take(t.size))
		}
	case 9:
		bits(0xfff)
		if t.bits&0xf > 1 || t.bits>>4&0xf > 2 || t.bits>>8 > 1 || t.size != 16 {
			h5bad("%s: variable-length type with bits %#x, %d bytes", c.what, t.bits, t.size)
		}
		t.isString = t.bits&0xf == 1
		t.base = f.datatype(c, depth+1)
		if t.isString && (t.base.size != 1 || t.base.class != 0 && t.base.class != 3) {
			h5bad("%s: string of elements of class %d, %d bytes", c.what, t.base.class, t.base.size)
		}
	case 10:
		if ver < 2 {
			h5bad("%s: array of version %d", c.what, ver)
		}
		n := 1
		rank := c.u8()
		if ver == 2 {
			c.take(3)
		}
		for range rank {
			d := c.u32()
			t.dims = append(t.dims, uint64(d))
			n *= int(d)
		}
		if ver == 2 {
			c.take(4 * rank)
		}
		t.base = f.datatype(c, depth+1)
		if rank == 0 || n*t.base.size != t.size {
			h5bad("%s: array %v of %d bytes in %d", c.what, t.dims, t.base.size, t.size)
		}
	default:
		h5bad("%s: datatype of class %d", c.what, t.class)
	}
	return t
}

func (f *h5File) memberName(c *h5cur, ver int) string {
	s := c.cstr()
	if ver < 3 {
		c.take((8 - (len(s)+1)%8) % 8)
	}
	return s
}

func (f *h5File) attribute(c *h5cur) h5Attr {
	ver, fl := c.u8(), c.u8()
	ns, ts, ss := c.u16(), c.u16(), c.u16()
	if ver < 1 || ver > 3 || fl != 0 {
		h5bad("%s: version %d, flags %d", c.what, ver, fl)
	}
	if ver == 3 {
		c.u8()
	}
	pad := func(n int) []byte {
		b := c.take(n)
		if ver == 1 {
			c.take((8 - n%8) % 8)
		}
		return b
	}
	name := pad(ns)
	if ns == 0 || bytes.IndexByte(name, 0) != ns-1 {
		h5bad("%s: name %q", c.what, name)
	}
	a := h5Attr{name: string(name[:ns-1])}
	c.what += fmt.Sprintf(" (attribute %q)", cut(a.name))
	tc := &h5cur{pad(ts), c.what}
	a.t = f.datatype(tc, 0)
	tc.nothingLeft()
	sc := &h5cur{pad(ss), c.what}
	a.dims = dataspace(sc)
	sc.nothingLeft()
	n := uint64(a.t.size)
	for _, d := range a.dims {
		n *= d
	}
	if n > uint64(len(c.b)) {
		h5bad("%s: %d bytes of data, want %d", c.what, len(c.b), n)
	}
	a.raw = c.take(int(n))
	c.nothingLeft()
	return a
}

// heapObject finds an object of a global heap.
func (f *h5File) heapObject(addr uint64, idx uint32) []byte {
	h := f.heaps[addr]
	if h == nil {
		h = f.collection(addr)
		f.heaps[addr] = h
	}
	b, has := h[uint16(idx)]
	if !has || idx > math.MaxUint16 {
		h5bad("global heap at %d has no object %d", addr, idx)
	}
	return b
}

func (f *h5File) collection(addr uint64) map[uint16][]byte {
	what := fmt.Sprintf("global heap at %d", addr)
	c := &h5cur{f.part(addr, 16, what), what}
	if string(c.take(4)) != "GCOL" || c.u8() != 1 {
		h5bad("%s: no signature", what)
	}
	c.take(3)
	size := c.u64()
	if size < 4096 || size%8 != 0 || addr%8 != 0 {
		h5bad("%s: %d bytes", what, size)
	}
	c = &h5cur{f.extent(addr, size, what), what}
	c.take(16)
	h := map[uint16][]byte{}
	for len(c.b) >= 16 {
		left := uint64(len(c.b))
		idx := uint16(c.u16())
		c.take(6)
		n := c.u64()
		if idx == 0 {
			if n != left {
				h5bad("%s: %d bytes of free space, %d are left", what, n, left)
			}
			return h
		}
		if n > uint64(len(c.b)) || h[idx] != nil {
			h5bad("%s: object %d of %d bytes", what, idx, n)
		}
		h[idx] = append([]byte{}, c.take(int(n))...)
		c.take(int((8 - n%8) % 8))
	}
	return h
}

// vlen follows a variable-length descriptor: the bytes of n elements.
func (f *h5File) vlen(raw []byte, elem int) ([]byte, int) {
	n := binary.LittleEndian.Uint32(raw)
	addr, idx := binary.LittleEndian.Uint64(raw[4:]), binary.LittleEndian.Uint32(raw[12:])
	if n == 0 {
		return nil, 0
	}
	b := f.heapObject(addr, idx)
	if uint64(len(b)) != uint64(n)*uint64(elem) { // libhdf5 refuses others
		h5bad("list of %d elements of %d bytes in a heap object of %d", n, elem, len(b))
	}
	return b, int(n)
}

// match compares stored data with what was to be written; "" if they are the same.
func (f *h5File) match(t *h5Type, dims []uint64, raw []byte, want reflect.Value, at string) string {
	for want.Kind() == reflect.Interface {
		want = want.Elem()
	}
	if want.Kind() == reflect.Struct { // an enum, of one value or many
		if d := f.matchEnum(t, want); d != "" {
			return d + atStr(at)
		}
		vals, _, _ := enumParts(want)
		return f.match(t.base, dims, raw, vals, at)
	}
	if len(dims) > 0 {
		if want.Kind() != reflect.Slice || isUser(want.Type()) || uint64(want.Len()) != dims[0] {
			return fmt.Sprintf("dimensions %v, want %s of length %d%s", dims, want.Type(), lenOf(want), atStr(at))
		}
		if dims[0] == 0 {
			e := want.Type().Elem()
			for range dims[1:] {
				if e.Kind() == reflect.Slice && !isUser(e) {
					e = e.Elem()
				}
			}
			if !isUser(e) && e.Kind() != reflect.Slice {
				return kindMatch(t, e.Kind())
			}
			return ""
		}
		n := len(raw) / int(dims[0])
		for i := range int(dims[0]) {
			if d := f.match(t, dims[1:], raw[i*n:(i+1)*n], want.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	}
	switch want.Type().String() {
	case "hdf5.opaque":
		if t.class != 5 || string(raw) != string(want.Bytes()) {
			return fmt.Sprintf("class %d, %x, want opaque %x%s", t.class, raw, want.Bytes(), atStr(at))
		}
		return ""
	case "hdf5.compound":
		if t.class != 6 || len(t.members) != want.Len() {
			return fmt.Sprintf("class %d, %d members, want a compound of %d%s", t.class, len(t.members), want.Len(), atStr(at))
		}
		for i, m := range t.members {
			w := want.Index(i)
			if name := w.FieldByName("Name").String(); m.name != name {
				return fmt.Sprintf("member %q, want %q%s", m.name, name, atStr(at))
			}
			mt, md := m.t, []uint64(nil)
			if mt.class == 10 {
				mt, md = mt.base, mt.dims
			}
			if d := f.match(mt, md, raw[m.off:m.off+m.t.size], w.FieldByName("Val"), at+"."+m.name); d != "" {
				return d
			}
		}
		return ""
	}
	if want.Kind() == reflect.Slice {
		if t.class != 9 || t.isString {
			return fmt.Sprintf("class %d, want a list%s", t.class, atStr(at))
		}
		b, n := f.vlen(raw, t.base.size)
		return f.match(t.base, []uint64{uint64(n)}, b, want, at)
	}
	if d := kindMatch(t, want.Kind()); d != "" {
		return d + atStr(at)
	}
	if want.Kind() == reflect.String {
		s := string(raw)
		if t.class == 9 {
			b, _ := f.vlen(raw, 1)
			s = string(b)
		} else if i := strings.IndexByte(s, 0); i >= 0 {
			if strings.Trim(s[i:], "\x00") != "" {
				return fmt.Sprintf("%q: not padded with NULs%s", cut(s), atStr(at))
			}
			s = s[:i]
		} else if t.bits&0xf == 0 {
			return fmt.Sprintf("%q: no NUL at the end%s", cut(s), atStr(at))
		}
		if strings.TrimRight(s, "\x00") != strings.TrimRight(want.String(), "\x00") {
			return fmt.Sprintf("%q, want %q%s", cut(s), cut(want.String()), atStr(at))
		}
		return ""
	}
	v := rawUint(raw, t.big)
	same := false
	switch want.Kind() {
	case reflect.Float32:
		g := math.Float32frombits(uint32(v))
		same = g != g && want.Float() != want.Float() || math.Float32bits(g) == math.Float32bits(float32(want.Float()))
	case reflect.Float64:
		g := math.Float64frombits(v)
		same = g != g && want.Float() != want.Float() || v == math.Float64bits(want.Float())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sh := 64 - 8*t.size
		same = int64(v<<sh)>>sh == want.Int()
	default:
		same = v == want.Uint()
	}
	if !same {
		return fmt.Sprintf("%x, want %v%s", raw, want, atStr(at))
	}
	return ""
}

func lenOf(v reflect.Value) int {
	if v.Kind() == reflect.Slice {
		return v.Len()
	}
	return -1
}

func rawUint(raw []byte, big bool) uint64 {
	v := uint64(0)
	for i := range raw {
		b := raw[len(raw)-1-i]
		if big {
			b = raw[i]
		}
		v = v<<8 | uint64(b)
	}
	return v
}

// kindMatch tells whether a stored type is that of a Go kind.
func kindMatch(t *h5Type, k reflect.Kind) string {
	ok := false
	switch k {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		ok = t.class == 0 && t.signed && t.size == 1<<(k-reflect.Int8)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		ok = t.class == 0 && !t.signed && t.size == 1<<(k-reflect.Uint8)
	case reflect.Float32:
		ok = t.class == 1 && t.size == 4
	case reflect.Float64:
		ok = t.class == 1 && t.size == 8
	case reflect.String:
		ok = t.class == 3 || t.class == 9 && t.isString
	}
	if !ok {
		return fmt.Sprintf("type of class %d, %d bytes, signed %v, for %s", t.class, t.size, t.signed, k)
	}
	return ""
}

// enumParts takes the library's enum apart: values, names, and what they stand for.
func enumParts(v reflect.Value) (vals, names, members reflect.Value) {
	for i := range v.NumField() {
		switch f := v.Field(i); f.Type().String() {
		case "[]string":
			names = f
		case "[]interface {}":
			members = f
		case "interface {}":
			vals = f.Elem()
		}
	}
	if !vals.IsValid() || !names.IsValid() || !members.IsValid() {
		panic(harnessError("unknown form of enums"))
	}
	return
}

// matchEnum compares an enum's names and values.
func (f *h5File) matchEnum(t *h5Type, want reflect.Value) string {
	_, names, vals := enumParts(want)
	if t.class != 8 || len(t.members) != names.Len() {
		return fmt.Sprintf("class %d, %d members, want an enum of %d", t.class, len(t.members), names.Len())
	}
	for i, m := range t.members {
		if m.name != names.Index(i).String() {
			return fmt.Sprintf("enum name %q, want %q", m.name, names.Index(i).String())
		}
		if d := f.match(t.base, nil, t.values[i], vals.Index(i), "enum value"); d != "" {
			return d
		}
	}
	return ""
}
