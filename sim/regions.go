package main

// Where the checksums of an HDF5 file protect its bytes: found by signature, and kept
// only if the checksum is right, by code that shares nothing with the library.

import (
	"bytes"
	"encoding/binary"
	"math/bits"
)

// lookup3 is Jenkins' hash, as HDF5 uses it.
func lookup3(k []byte) uint32 {
	a := uint32(0xdeadbeef) + uint32(len(k))
	b, c := a, a
	w := func(i int) uint32 {
		var v uint32
		for j := 0; j < 4 && i+j < len(k); j++ {
			v |= uint32(k[i+j]) << (8 * j)
		}
		return v
	}
	for len(k) > 12 {
		a += w(0)
		b += w(4)
		c += w(8)
		a -= c
		a ^= bits.RotateLeft32(c, 4)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 6)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 8)
		b += a
		a -= c
		a ^= bits.RotateLeft32(c, 16)
		c += b
		b -= a
		b ^= bits.RotateLeft32(a, 19)
		a += c
		c -= b
		c ^= bits.RotateLeft32(b, 4)
		b += a
		k = k[12:]
	}
	if len(k) == 0 {
		return c
	}
	a += w(0)
	b += w(4)
	c += w(8)
	for _, s := range []struct {
		x, y *uint32
		n    int
	}{{&c, &b, 14}, {&a, &c, 11}, {&b, &a, 25}, {&c, &b, 16}, {&a, &c, 4}, {&b, &a, 14}, {&c, &b, 24}} {
		*s.x ^= *s.y
		*s.x -= bits.RotateLeft32(*s.y, s.n)
	}
	return c
}

var le = binary.LittleEndian

// sealed says whether the n bytes at off end with their checksum.
func sealed(d []byte, off, n int) bool {
	return n > 8 && off >= 0 && off+n <= len(d) && lookup3(d[off:off+n-4]) == le.Uint32(d[off+n-4:])
}

// findRegions lists the checksummed metadata of an HDF5 file.
func findRegions(d []byte) []fxRegion {
	var out []fxRegion
	add := func(kind string, off, n int) bool {
		if sealed(d, off, n) {
			out = append(out, fxRegion{kind, int64(off), int64(n)})
			return true
		}
		return false
	}
	each := func(sig string, f func(off int)) {
		for i := 0; ; {
			j := bytes.Index(d[i:], []byte(sig))
			if j < 0 {
				return
			}
			f(i + j)
			i += j + 4
		}
	}
	if len(d) > 48 && (d[8] == 2 || d[8] == 3) {
		add("superblock", 0, 48)
	}
	// object headers, and their continuations, which have no length of their own
	var messages func(b []byte, creation bool)
	messages = func(b []byte, creation bool) {
		for len(b) >= 4 {
			typ, n := b[0], int(le.Uint16(b[1:]))
			b = b[4:]
			if creation && len(b) >= 2 {
				b = b[2:]
			}
			if n > len(b) {
				return
			}
			if typ == 0x10 && n >= 16 {
				off, l := int(le.Uint64(b)), int(le.Uint64(b[8:]))
				if off > 0 && l > 8 && off < len(d) && l <= len(d)-off && bytes.HasPrefix(d[off:], []byte("OCHK")) && add("continuation", off, l) {
					messages(d[off+4:off+l-4], creation)
				}
			}
			b = b[n:]
		}
	}
	each("OHDR", func(off int) {
		if off+32 > len(d) || d[off+4] != 2 {
			return
		}
		flags := d[off+5]
		p := off + 6
		if flags&0x20 != 0 {
			p += 16
		}
		if flags&0x10 != 0 {
			p += 4
		}
		n := 1 << (flags & 3)
		if p+n > len(d) {
			return
		}
		var size uint64
		for i := n - 1; i >= 0; i-- {
			size = size<<8 | uint64(d[p+i])
		}
		p += n
		if size > uint64(len(d)) || !add("object header", off, p-off+int(size)+4) {
			return
		}
		messages(d[p:p+int(size)], flags&4 != 0)
	})
	each("FRHP", func(off int) { add("fractal heap header", off, 146) })
	each("BTHD", func(off int) { add("b-tree header", off, 38) })
	leaf := func(kind, sig string, limit, from, step int) {
		each(sig, func(off int) {
			for n := from; n <= limit && off+n <= len(d); n += step {
				if add(kind, off, n) {
					return
				}
			}
		})
	}
	leaf("b-tree leaf", "BTLF", 4096, 10, 1)
	leaf("b-tree node", "BTIN", 4096, 10, 1)
	for _, n := range []int{17, 18, 19} {
		leaf("heap index block", "FHIB", 8192, 4+1+8+n-13+4, 8)
	}
	each("FHDB", func(off int) {
		for ob := 2; ob <= 8; ob++ {
			sum := off + 13 + ob
			for n := 64; n <= 1<<20 && off+n <= len(d); n *= 2 {
				if sum+4 > off+n {
					continue
				}
				b := append([]byte{}, d[off:off+n]...)
				copy(b[13+ob:], []byte{0, 0, 0, 0})
				if lookup3(b) == le.Uint32(d[sum:]) {
					out = append(out, fxRegion{"heap block", int64(off), int64(n)})
					return
				}
			}
		}
	})
	return out
}
