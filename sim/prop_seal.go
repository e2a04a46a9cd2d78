package main

// C14: bytes under a checksum.

import (
	"fmt"
	"sort"
	"strings"
)

var regionCache = map[string][]fxRegion{}

// sealedRegions lists what checksums protect in the case's file.
func sealedRegions(c *Case, data []byte) []fxRegion {
	if c.Kind == "fix" {
		if r, ok := regionCache[c.Fixture]; ok {
			return r
		}
	}
	rs := findRegions(data)
	if c.Kind == "fix" {
		rs = append(rs, getFixture(c.Fixture).file.Regions...)
		regionCache[c.Fixture] = rs
	}
	return rs
}

// kindOfRegion says what a byte belongs to.
func kindOfRegion(rs []fxRegion, off int64) string {
	for _, r := range rs {
		if off >= r.Off && off < r.Off+r.Len {
			return r.Kind
		}
	}
	return ""
}

func runSealed(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	rs := sealedRegions(c, data)
	for _, x := range c.Corrupt {
		k := kindOfRegion(rs, x.Off)
		if k == "" {
			e.Trivial = true // reduced too far: not under a checksum
			return nil
		}
		e.probe("damage in " + k)
	}
	w.Put(inName, data)
	or := newOracle(data)
	bad := damaged(data, c)
	rr := newRRun(w)
	refused, served := 0, 0
	for i := range c.ROps {
		if int64(i) == c.P["after"] {
			w.files[inName].data = bad
			w.fired["stored:flip"] += len(c.Corrupt)
			w.event("damage")
		}
		o := &c.ROps[i]
		s := rr.slots[o.H]
		wasOpen := s != nil && s.open
		res := rr.do(o, inName)
		if res.Skip || o.Kind == "close" {
			continue
		}
		var want *Res
		if o.Kind == "open" || o.Kind == "new" {
			want = &Res{made: true}
		} else if !wasOpen {
			continue
		} else {
			want = or.ask(w, s.path, o)
		}
		hit := int64(i) >= c.P["after"]
		if hit && (res.Err != nil ||
			o.Kind == "attrs" && len(res.Out) == 1 && res.Out[0] == nil ||
			(o.Kind == "dim" || o.Kind == "type" || o.Kind == "gotype") && len(res.Out) == 2 && res.Out[1] == false) {
			refused++
			continue
		}
		if d := sameRes(res, want); d != "" {
			if !hit {
				return violf("before:"+o.Kind, "%s, before the damage: %s", o, d)
			}
			var at []string
			for _, x := range c.Corrupt {
				at = append(at, fmt.Sprintf("byte %d (%s)", x.Off, kindOfRegion(rs, x.Off)))
			}
			return violf("altered:"+o.Kind, "%s, with damage to %s: %s", o, strings.Join(at, ", "), d)
		}
		served++
	}
	if refused > 0 {
		e.probe("damage reported")
	}
	e.Trivial = len(c.Corrupt) == 0 || refused+served == 0
	return nil
}

func genSealed(r *RNG, c *Case) {
	if r.P(12) {
		c.Kind = "hdf5"
		g := newGen(r.Fork())
		g.small = true
		c.WOps = g.wHist("hdf5", false)
	} else {
		c.Kind = "fix"
	}
	var data []byte
	var rs []fxRegion
	for range 50 {
		if c.Kind == "fix" {
			c.Fixture = pickFixture(r, true, false)
		}
		w := NewWorld()
		w.keepLog = false
		w.install()
		if data = sourceBytes(c, w); data == nil {
			return
		}
		if rs = sealedRegions(c, data); len(rs) > 0 || c.Kind != "fix" {
			break
		}
	}
	if len(rs) == 0 {
		return
	}
	// the kind first, so that the rare ones come up
	byKind := map[string][]fxRegion{}
	var kinds []string
	for _, x := range rs {
		if byKind[x.Kind] == nil {
			kinds = append(kinds, x.Kind)
		}
		byKind[x.Kind] = append(byKind[x.Kind], x)
	}
	sort.Strings(kinds)
	k := byKind[kinds[r.Intn(len(kinds))]]
	reg := k[r.Intn(len(k))]
	off := reg.Off + r.I64n(reg.Len)
	switch {
	case r.P(15):
		off = reg.Off + r.I64n(min(reg.Len, 16))
	case r.P(15):
		off = reg.Off + reg.Len - 1 - r.I64n(min(reg.Len, 12))
	}
	n := int64(1)
	if r.P(25) {
		n = int64(r.Range(2, 8))
	}
	for i := int64(0); i < n && off+i < reg.Off+reg.Len; i++ {
		old := data[off+i]
		x := byte(1) << r.Intn(8)
		switch r.Intn(4) {
		case 0:
			x = old ^ (old + 1)
		case 1:
			x = byte(r.Range(1, 255))
		case 2:
			if i > 0 || old != 0 && old != 0xff {
				x = old ^ pick(r, byte(0), byte(0xff))
			}
		}
		if x != 0 {
			c.Corrupt = append(c.Corrupt, Corrupt{Off: off + i, Xor: x})
		}
	}
	if strings.HasPrefix(reg.Kind, "fletcher32") {
		// That checksum cannot tell 0000 from ffff.
		bad := damaged(data, c)
		for i := reg.Off; i < reg.Off+reg.Len; i++ {
			if j := i ^ (reg.Off & 1) ^ 1; j < reg.Off+reg.Len && data[i] == data[j] && data[i] != bad[i] && bad[i] == bad[j] && data[i]^bad[i] == 0xff && data[j] != bad[j] {
				c.Corrupt = c.Corrupt[:1]
				break
			}
		}
	}
	m := sourceModel(c)
	if r.P(60) {
		c.ROps = readAll(m)
	} else {
		rg := newRgen(r.Fork(), m)
		rg.openRoot(pick(r, "open", "new"))
		for range r.Range(4, 30) {
			if s := rg.slotFor(false); s != nil {
				if r.P(20) {
					rg.openGroup()
					continue
				}
				rg.call(s, "attrs", "var", "values", "slice", "slice", "slice", "md", "md", "meta", "type", "dim")
			}
		}
		c.ROps = rg.ops
	}
	if r.P(35) {
		c.P["after"] = int64(r.Intn(len(c.ROps)))
	}
	if r.P(20) {
		genReadDelivery(r, c)
	}
}

func init() {
	register(&Prop{ID: "C14", Quick: 10000, Thorough: 300000, Run: runSealed, DeathIsViolation: true, Gen: genSealed})
}
