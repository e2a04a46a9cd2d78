package main

// Generators.  Swarm style: every run first draws which features it will use.

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

var nameBits = []string{"a", "b", "temp", "lat", "lon", "x", "y", "z", "Pressure", "v1", "t_2m", "é", "Ωmega", "时间", "q", "wind speed", "d.e", "n-1", "k+", "@m", "c:d",
	"x😀", "a\u0301", "٣", "Ⅷ", "q\"q", "b\\b", "{k}", "100%", "phony_dim_", "ab", "a\u00a0b", "0"}

type gen struct {
	r     *RNG
	used  map[string]bool
	plain bool
	h5    bool // make attributes that only HDF5 has
	empty int  // percentage of attributes without any values
	big   int  // percentage of attributes that are big
	small bool // keep files small: they are read many times
	low   bool // no variable of more dimensions than HDF5 can have
}

func newGen(r *RNG) *gen { return &gen{r: r, used: map[string]bool{}, plain: r.P(40)} }

// name makes a valid NetCDF name not used before.
func (g *gen) name() string {
	for i := 0; ; i++ {
		var n string
		switch {
		case g.plain || g.r.P(60):
			n = pick(g.r, "a", "b", "c", "d", "e", "f", "g", "h") + fmt.Sprint(g.r.Intn(20))
		case g.r.P(2):
			n = "M" + strings.Repeat(pick(g.r, "x", "yz", "é"), g.r.Range(127, 300))
		case g.r.P(6):
			n = "L" + strings.Repeat(pick(g.r, "x", "yz", "é"), g.r.Range(20, 100))
		default:
			n = nameBits[g.r.Intn(len(nameBits))] + pick(g.r, "", "1", "22", "_3", "~", "é")
		}
		if c, _ := utf8.DecodeRuneInString(n); c == '@' || c == '{' {
			n = "A" + n
		}
		if i > 20 {
			n += fmt.Sprint(i)
		}
		if !g.used[n] {
			g.used[n] = true
			return n
		}
	}
}

func (g *gen) attrs(types []string, maxN int) []CAttr {
	if g.r.P(35) {
		return nil
	}
	var out []CAttr
	seen := map[string]bool{}
	n := g.r.Range(0, maxN)
	many := !g.small && g.r.Intn(250) == 0
	if many {
		n = g.r.Range(30, 300)
	} else if g.r.P(4) {
		n += 12
	}
	for i := 0; i < n; i++ {
		a := CAttr{Name: pick(g.r, "units", "long_name", "valid_min", "A", "bb", "ccc", "dddd", "scale factor", "été", "history") + pick(g.r, "", "", "1", "2", "x"), Seed: g.r.U64()}
		if many && g.r.P(90) {
			a.Name += fmt.Sprint("_", i)
		}
		if g.r.P(2) {
			a.Name += strings.Repeat(pick(g.r, "x", "yz", "é"), pick(g.r, 1, 2, 3, 5, 10, 30, 60, 100, 127, 128, 150))
		}
		if seen[a.Name] {
			continue
		}
		seen[a.Name] = true
		a.Type = types[g.r.Intn(len(types))]
		switch {
		case g.r.P(g.empty):
			a.Len = 0
		case g.h5 && g.r.P(20):
			// at least two, so that a reader has no reason to unwrap them
			n := int64(g.r.Range(1, 5))
			for k := g.r.Range(2, 4); k > 0; k-- {
				if a.Type == "string" || g.r.P(50) {
					n = int64(g.r.Range(0, 5))
				}
				a.List = append(a.List, n)
			}
			if g.r.P(30) {
				a.Rows = g.r.Range(2, 4)
			}
		case a.Type == "string":
			a.Len = pick(g.r, 1, 2, 3, 4, 5, 7, 8, 9, 31, 64)
		case g.r.P(40):
			a.Len = -1
		default:
			a.Len = pick(g.r, 1, 2, 3, 4, 5, 7, 8, 17)
		}
		if g.r.P(g.big) {
			// as much as fits into an HDF5 message
			a.List = nil
			a.Len = g.r.Range(1000, 60000)
			if a.Type != "string" {
				a.Len /= typeSize[a.Type]
			}
		}
		out = append(out, a)
	}
	return out
}

func (g *gen) shape(rank int, small bool) []int64 {
	sh := []int64{}
	for i := 0; i < rank; i++ {
		n := int64(pick(g.r, 1, 2, 3, 4, 5, 7, 8))
		if !small && i == rank-1 && g.r.P(15) {
			n = int64(pick(g.r, 16, 33, 100, 257))
		}
		if rank > 3 {
			n = int64(pick(g.r, 1, 2, 3))
		}
		sh = append(sh, n)
	}
	return sh
}

// cdfSpec makes a random CDF file, record variables included.
func (g *gen) cdfSpec() *CDFSpec {
	r := g.r
	s := &CDFSpec{Version: pick(r, 1, 2, 5)}
	types := v2Types
	if s.Version == 5 {
		types = allTypes
	}
	if r.P(30) { // swarm: only a few types in this run
		types = []string{types[r.Intn(len(types))], types[r.Intn(len(types))]}
	}
	nd, nv := r.Range(1, 5), r.Range(0, 6)
	most := int64(3000)
	long := 0 // percentage of long dimensions
	if !g.small {
		switch r.Intn(50) {
		case 0:
			nd, nv = r.Range(1, 150), r.Range(0, 150)
			most = 300
			if r.P(20) {
				nd = r.Range(900, 2500)
			}
		case 1, 2:
			most, long = 60_000, 30
		case 3:
			g.big = 30
		}
	}
	rec := -1
	if r.P(65) {
		rec = r.Intn(nd)
		s.NumRecs = int64(pick(r, 0, 1, 2, 3, 4, 5, 9))
		if r.P(long) {
			s.NumRecs = int64(r.Range(10, 6000))
		}
	}
	for i := 0; i < nd; i++ {
		d := CDim{Name: g.name(), Len: g.shape(1, false)[0]}
		if r.P(long) {
			d.Len = int64(pick(r, r.Range(258, 5000), r.Range(258, 60_000)))
		}
		if i == rec {
			d.Len = 0
		}
		s.Dims = append(s.Dims, d)
	}
	s.Attrs = g.attrs(types, 5)
	onlyRec := rec >= 0 && r.P(25)
	oneRec := rec >= 0 && r.P(30)
	usedRec := false
	for i := 0; i < nv; i++ {
		v := CVar{Name: g.name(), Type: types[r.Intn(len(types))], Seed: r.U64()}
		rank := pick(r, 0, 1, 1, 2, 2, 3, 4)
		if r.P(2) {
			rank = r.Range(5, 40)
			if g.low {
				rank = r.Range(5, 32)
			} else if !g.small && r.P(5) {
				rank = r.Range(5, pick(r, 60, 200, 1024))
			}
		}
		elems := int64(1)
		for j := 0; j < rank; j++ {
			d := r.Intn(nd)
			for try := 0; rank > 4 && try < 5 && elems*max(s.Dims[d].Len, 1) > 300; try++ {
				d = r.Intn(nd)
			}
			if j == 0 && rec >= 0 && (onlyRec || r.P(50)) {
				d = rec
			}
			if d == rec && (j != 0 || (oneRec && usedRec)) {
				if nd == 1 {
					break
				}
				d = (rec + 1 + r.Intn(nd-1)) % nd
			}
			n := s.Dims[d].Len
			if n == 0 {
				n = s.NumRecs
			}
			if rank > 4 && j > 0 && elems*max(n, 1) > 300 {
				continue
			}
			if elems*max(n, 1) > most {
				break
			}
			elems *= max(n, 1)
			if d == rec {
				usedRec = true
			}
			v.Dims = append(v.Dims, d)
		}
		v.Attrs = g.attrs(types, 3)
		if v.Type != "string" && r.P(20) {
			v.Attrs = append(v.Attrs, CAttr{Name: "_FillValue", Type: v.Type, Len: 1, Seed: r.U64()})
		}
		s.Vars = append(s.Vars, v)
	}
	if r.P(30) {
		s.Gap = 4 * r.Range(1, 40)
	}
	if r.P(30) {
		s.Perm = r.U64()
	}
	if r.P(25) {
		s.Holes = r.U64()
	}
	s.Tags = r.P(20)
	if r.P(15) {
		s.Tail = r.Range(1, 40)
	}
	return s
}

// wHist makes a writer history for the given kind.
func (g *gen) wHist(kind string, withBad bool) []WOp {
	r := g.r
	var ops []WOp
	types := allTypes
	if kind == "cdf" && r.P(50) {
		types = v2Types
	}
	if r.P(25) {
		types = []string{types[r.Intn(len(types))], types[r.Intn(len(types))]}
	}
	attrTypes := types
	if r.P(20) {
		attrTypes = allTypes
	}
	if kind == "hdf5" {
		g.h5 = r.P(40)
	}
	g.empty = pick(r, 0, 0, 5)
	if r.P(3) && !g.small {
		g.big = 40
	}
	wide := int64(0) // a variable of many elements
	if r.P(3) && !g.small {
		wide = int64(r.Range(5000, 40000))
		if kind == "hdf5" && r.P(10) {
			wide = int64(r.Range(65530, 70000))
		}
	}
	dims := map[string]int64{} // the dimensions that groups share
	own := map[string]int64{}  // those that a group has seen, by group
	taken := map[string]bool{} // names of variables and groups, by group
	scopePct := 0              // how often a group uses a shared name for another size
	if kind == "hdf5" {
		scopePct = pick(r, 0, 0, 30)
	}
	var dimNames []string
	groups := []string{"/"}
	maxGroups, groupPct, deep := 7, 18, false
	n := r.Range(1, 10)
	if r.P(10) {
		n += 12
	}
	if r.P(1) && !g.small {
		n = r.Range(60, 250)
		if r.P(50) {
			maxGroups, groupPct, deep = pick(r, 20, 60, 200), 70, r.P(40)
		}
	}
	manyDims := r.Intn(300) == 0 && !g.small // a file of very many dimensions
	if manyDims {
		n = r.Range(40, 120)
	}
	coordPct := pick(r, 0, 0, 30)
	allowGroups := kind == "hdf5" && r.P(60)
	vlenPct, samePct := 0, 0
	if kind == "hdf5" {
		vlenPct = pick(r, 0, 0, 25)
		samePct = pick(r, 0, 0, 25) // variables and groups named like some dimension
	}
	anonPct, zeroPct := 0, pick(r, 0, 0, 15)
	if kind == "cdf" {
		anonPct = pick(r, 0, 20, 60)
	}
	for i := 0; i < n; i++ {
		grp := groups[r.Intn(len(groups))]
		if maxGroups > 7 && r.P(60) { // one after another, or one below another
			grp = groups[0]
			if deep {
				grp = groups[len(groups)-1]
			}
		}
		k := r.Intn(100)
		switch {
		case k < 12:
			ops = append(ops, WOp{Kind: "attrs", Group: grp, Attrs: g.attrs(attrTypes, 6), Nil: r.P(10)})
		case k < 12+groupPct && allowGroups && len(groups) < maxGroups:
			nm := g.name()
			if len(dimNames) > 0 && r.P(samePct) {
				nm = dimNames[r.Intn(len(dimNames))]
			}
			if _, isDim := own[grp+"\x00"+nm]; isDim || taken[grp+"\x00"+nm] {
				break
			}
			taken[grp+"\x00"+nm] = true
			taken[grp+"\x00"+nm+"\x00group"] = true
			ops = append(ops, WOp{Kind: "group", Group: grp, Name: nm})
			groups = append(groups, strings.TrimSuffix(grp, "/")+"/"+nm)
			if r.P(20) {
				ops = append(ops, WOp{Kind: "group", Group: grp, Name: nm}) // open it again
			}
		case k < 16+groupPct && grp != "/":
			ops = append(ops, WOp{Kind: "gclose", Group: grp})
		default:
			o := WOp{Kind: "var", Group: grp, Type: types[r.Intn(len(types))], Seed: r.U64(), Attrs: g.attrs(attrTypes, 4), Nil: r.P(50)}
			rank := pick(r, 0, 1, 1, 1, 2, 2, 3, 4)
			if r.P(2) || manyDims {
				rank = r.Range(5, 32)
			}
			if kind == "cdf" && r.Intn(2000) == 0 && !g.small && !g.low {
				rank = r.Range(33, pick(r, 60, 200, 1024))
			}
			anon := r.P(anonPct)
			if wide > 0 && i >= n/2 && !(kind == "cdf" && o.Type == "string") {
				o.Name, o.Shape, o.Dims = g.name(), []int64{wide}, []string{g.name()}
				if r.P(50) {
					o.Shape, o.Dims = []int64{(wide + 1) / 2, 2}, []string{g.name(), g.name()}
				}
				wide = 0
				ops = append(ops, o)
				break
			}
			if kind == "cdf" && o.Type == "string" && rank > 0 {
				rank = min(rank, 2)
			}
			if kind == "cdf" && o.Type != "string" && r.P(zeroPct) {
				o.Name, o.Shape, o.Dims = g.name(), []int64{0}, []string{"unl"}
				ops = append(ops, o)
				break
			}
			elems := int64(1)
			for j := 0; j < rank; j++ {
				if len(dimNames) > 0 && r.P(60) && !manyDims {
					d := dimNames[r.Intn(len(dimNames))]
					size, has := own[grp+"\x00"+d]
					if !has {
						size = dims[d]
						if r.P(scopePct) {
							size = g.shape(1, true)[0]
						}
					}
					dup := false
					for _, x := range o.Dims {
						dup = dup || x == d
					}
					if elems*size <= 3000 && (size > 0 || j == rank-1) && (!dup || r.P(20)) && !taken[grp+"\x00"+d+"\x00group"] {
						own[grp+"\x00"+d] = size
						o.Dims = append(o.Dims, d)
						o.Shape = append(o.Shape, size)
						elems *= size
						continue
					}
				}
				d := g.name()
				ln := g.shape(1, elems > 30)[0]
				if j >= 4 {
					ln = 1
					if elems < 500 && r.P(30) && !manyDims {
						ln = 2
					}
				}
				if manyDims && j < 4 {
					ln = min(ln, 2)
				}
				if kind == "hdf5" && j == rank-1 && r.P(zeroPct) {
					ln = 0 // only the last: nothing tells what lies below
				}
				o.Dims = append(o.Dims, d)
				o.Shape = append(o.Shape, ln)
				elems *= ln
				if !anon {
					dims[d] = ln
					own[grp+"\x00"+d] = ln
					dimNames = append(dimNames, d)
				}
			}
			if anon {
				// leave trailing dimensions, or all of them, unnamed
				keep := r.Intn(len(o.Dims) + 1)
				for j := range o.Dims {
					if _, shared := dims[o.Dims[j]]; !shared && j >= keep {
						o.Dims[j] = ""
					}
				}
				for len(o.Dims) > 0 && o.Dims[len(o.Dims)-1] == "" && r.P(50) {
					o.Dims = o.Dims[:len(o.Dims)-1]
				}
			}
			o.Name = ""
			if len(o.Dims) == 1 && o.Dims[0] != "" && r.P(coordPct) && !g.used["coord:"+o.Dims[0]] && grp == "/" {
				o.Name = o.Dims[0]
				g.used["coord:"+o.Name] = true
			}
			if len(dimNames) > 0 && r.P(samePct) {
				o.Name = dimNames[r.Intn(len(dimNames))]
			}
			if taken[grp+"\x00"+o.Name] {
				o.Name = ""
			}
			if o.Name == "" {
				o.Name = g.name()
			}
			taken[grp+"\x00"+o.Name] = true
			for kind == "cdf" && o.Type == "string" && len(o.Shape) > 0 && allEmpty(o.values()) {
				o.Seed = r.U64() // nothing says how long the strings are to be
			}
			o.Nul = kind == "cdf" && r.P(10)
			o.Empty = kind == "hdf5" && o.Type == "string" && len(o.Shape) == 0 && r.P(10)
			if r.P(vlenPct) {
				o.Vlen = true
			}
			if most := min(100_000/int(max(elems, 1)), 70_000); !g.small && most > 0 {
				if o.Vlen && r.P(10) {
					o.List = pick(r, 8, 50, 300, 1000, 5000, 70_000)
					o.List = 1 + r.Intn(min(o.List, most))
				}
				if o.Type == "string" && !o.Nul && !o.Empty && o.List == 0 && r.P(15) {
					o.Str = pick(r, 20, 40, 130, 300, 1000, 5000, 70_000)
					o.Str = 1 + r.Intn(min(o.Str, most))
				}
			}
			ops = append(ops, o)
		}
	}
	if withBad {
		for k := r.Range(1, 4); k > 0; k-- {
			if b, ok := g.badOp(kind, ops, groups, dims, dimNames); ok {
				at := r.Intn(len(ops) + 1)
				// never before the group it is made on exists
				for at < len(ops) && (!groupExists(ops[:at], b.Group) || (b.Bad == "dup" && !named(ops[:at], b.Group, b.Name)) || (b.After != "" && !anyNamed(ops[:at], b.Group, b.After))) {
					at++
				}
				ops = append(ops[:at:at], append([]WOp{b}, ops[at:]...)...)
			}
		}
	}
	return ops
}

func groupExists(ops []WOp, path string) bool {
	if path == "/" {
		return true
	}
	for _, o := range ops {
		if o.Kind == "group" && o.Bad == "" && strings.TrimSuffix(o.Group, "/")+"/"+o.Name == path {
			return true
		}
	}
	return false
}

func anyNamed(ops []WOp, grp, name string) bool {
	for _, o := range ops {
		if o.Kind == "var" && o.Bad == "" && o.Group == grp && o.Name == name {
			return true
		}
	}
	return false
}

// named tells whether a name is taken in a group.
func named(ops []WOp, grp, name string) bool {
	for _, o := range ops {
		if (o.Kind == "var" || o.Kind == "group") && o.Bad == "" && o.Group == grp && o.Name == name {
			return true
		}
	}
	return false
}

var badNames = []string{"", "/", "a/b", "_lead", " lead", "trail ", "ctl\x01", "new\nline", "-dash", ".dot", "tab\t",
	"nbsp\u00a0", "em\u2003", "ls\u2028", "wide\u3000", "a\u200bb", "del\x7f", "c1\u0085x", "soft\u00adhyphen", "own\ue000", "\u0301mark", "😀", "°", "/abs", "a/", "\x00"}

// badOp makes a call that must be refused.
func (g *gen) badOp(kind string, ops []WOp, groups []string, dims map[string]int64, dimNames []string) (WOp, bool) {
	r := g.r
	grp := groups[r.Intn(len(groups))]
	o := WOp{Kind: "var", Group: grp, Name: g.name(), Type: pick(r, "int32", "float64", "int16", "uint8", "int64"), Shape: []int64{2},
		Dims: []string{g.name()}, Seed: r.U64(), Attrs: g.attrs(allTypes, 2)}
	switch pick(r, "name", "attrname", "type", "attrtype", "gname", "gattr", "ragged", "dimsize", "dimsize", "dup", "dup", "rank", "special") {
	case "dup":
		var c []WOp
		for _, x := range ops {
			if x.Bad == "" && (x.Kind == "var" || x.Kind == "group") {
				c = append(c, x)
			}
		}
		if len(c) == 0 {
			return o, false
		}
		x := c[r.Intn(len(c))]
		o.Bad, o.Group, o.Name = "dup", x.Group, x.Name
		if x.Kind == "var" && kind == "hdf5" && r.P(40) {
			return WOp{Kind: "group", Group: x.Group, Name: x.Name, Bad: "dup"}, true
		}
		if x.Kind == "var" && r.P(30) {
			x.Bad, x.Seed = "dup", x.Seed+1 // even if it looks the same
			return x, true
		}
	case "rank":
		o.Bad = "rank"
		o.Dims = append(o.Dims, g.name())
		if kind == "hdf5" && r.P(30) {
			// more than HDF5 allows
			for n := pick(r, 33, 34, 255, 256, 258, r.Range(33, 300)); len(o.Dims) < n; {
				o.Dims = append(o.Dims, g.name())
			}
			o.Shape = nil
			for range o.Dims {
				o.Shape = append(o.Shape, 1)
			}
		}
	case "special":
		switch {
		case kind == "cdf" && r.P(5) && !g.small:
			o.Bad, o.Type, o.Dims, o.Shape = "dims", pick(r, "int8", "int32", "float64"), nil, nil
			for range pick(r, 1025, 1026, 1100) {
				o.Shape = append(o.Shape, 1)
			}
		case kind == "cdf":
			return o, false
		case r.P(40):
			o.Bad = "attrname"
			o.Attrs = append(o.Attrs, CAttr{Name: pick(r, "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST"), Type: "int32", Len: -1, Seed: 1})
		case r.P(40):
			o.Bad = "dimname"
			o.Dims = []string{pick(r, "a/b", "/", "/x", "x/")}
		default:
			o.Bad = "toolarge"
			o.Attrs = append(o.Attrs, CAttr{Name: "large", Type: "float64", Len: pick(r, 8192, 9000, 20000), Seed: 1})
		}
	case "name":
		o.Bad, o.Name = "name", badNames[r.Intn(len(badNames))]
	case "attrname":
		o.Bad = "attrname"
		o.Attrs = append(o.Attrs, CAttr{Name: badNames[r.Intn(len(badNames))], Type: "int32", Len: -1, Seed: 1})
	case "type":
		o.Bad = "type"
		if kind == "hdf5" && r.P(30) {
			o.Bad, o.Type = "nul", "string"
		}
	case "attrtype":
		o.Bad = "attrtype"
		o.Nul = kind == "hdf5" && r.P(30)
	case "gname":
		if kind == "cdf" {
			return WOp{Kind: "group", Group: "/", Name: g.name(), Bad: "unsupported"}, true
		}
		return WOp{Kind: "group", Group: grp, Name: badNames[r.Intn(len(badNames))], Bad: "name"}, true
	case "gattr":
		a := WOp{Kind: "attrs", Group: grp, Attrs: g.attrs(allTypes, 2)}
		a.Attrs = append(a.Attrs, CAttr{Name: badNames[r.Intn(len(badNames))], Type: "int32", Len: -1, Seed: 1})
		a.Bad = "attrname"
		if r.P(40) {
			a.Attrs = g.attrs(allTypes, 2)
			a.Bad = "attrtype"
			a.Nul = kind == "hdf5" && r.P(30)
			a.Seed = r.U64()
		}
		return a, true
	case "ragged":
		o.Bad = "ragged"
		o.Shape = []int64{int64(r.Range(2, 4)), int64(r.Range(2, 4))}
		o.Dims = []string{g.name(), g.name()}
	case "dimsize":
		// a new dimension first, then the conflicting one
		var c []WOp
		for _, x := range ops {
			if x.Kind == "var" && x.Bad == "" && len(x.Shape) > 0 && len(x.Dims) > 0 && (kind == "cdf" || x.Group == grp) {
				c = append(c, x)
			}
		}
		if len(c) == 0 {
			return o, false
		}
		x := c[r.Intn(len(c))]
		k := r.Intn(min(len(x.Shape), len(x.Dims)))
		if x.Dims[k] == "" || x.Shape[k] == 0 {
			return o, false
		}
		o.Bad = "dimsize"
		o.Dims = []string{g.name(), x.Dims[k]}
		o.Shape = []int64{2, x.Shape[k] + 1}
		if x.Shape[k] > 100 {
			o.Shape[1] = 3
		}
		if r.P(50) {
			o.Dims, o.Shape = o.Dims[1:], o.Shape[1:]
		}
		o.After = x.Name
	}
	return o, true
}

func allEmpty(v any) bool {
	for _, e := range flatten(v) {
		if e.Len() > 0 {
			return false
		}
	}
	return true
}
