package main

// C17: what the HDF5 writer writes is HDF5, and netCDF-4, to others too.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// h5Want is what was given to the writer.
type h5Want struct {
	name   string
	attrs  []MAttr
	vars   []h5WantVar
	groups []*h5Want
}

type h5WantVar struct {
	name  string
	val   any
	dims  []string
	attrs []MAttr
}

func (g *wgroup) want() *h5Want {
	attrs := func(as []CAttr) (out []MAttr) {
		for _, a := range as {
			out = append(out, MAttr{Name: a.Name, Val: a.value()})
		}
		return
	}
	w := &h5Want{name: g.name, attrs: attrs(g.attrs)}
	for _, o := range g.vars {
		w.vars = append(w.vars, h5WantVar{o.Name, o.values(), o.Dims, attrs(o.Attrs)})
	}
	for _, s := range g.groups {
		w.groups = append(w.groups, s.want())
	}
	return w
}

func (c *copied) want() *h5Want {
	attrs := func(m api.AttributeMap) (out []MAttr) {
		if m == nil {
			return nil
		}
		for _, n := range m.Keys() {
			v, _ := m.Get(n)
			out = append(out, MAttr{Name: n, Val: v})
		}
		return
	}
	w := &h5Want{name: c.name, attrs: attrs(c.attrs)}
	for _, v := range c.vars {
		w.vars = append(w.vars, h5WantVar{v.name, v.v.Values, v.v.Dimensions, attrs(v.v.Attributes)})
	}
	for _, s := range c.groups {
		w.groups = append(w.groups, s.want())
	}
	return w
}

const (
	nonCoord = "_nc4_non_coord_"
	onlyDim  = "This is a netCDF dimension but not a netCDF variable."
)

func (n *h5Node) attr(name string) *h5Attr {
	for i := range n.attrs {
		if n.attrs[i].name == name {
			return &n.attrs[i]
		}
	}
	return nil
}

// text is the value of an attribute that is one string of fixed length.
func (a *h5Attr) text() string {
	if a == nil || a.t.class != 3 {
		return ""
	}
	return strings.TrimRight(string(a.raw), "\x00")
}

// nc4 checks a decoded file as netCDF-4.
type nc4 struct {
	f      *h5File
	scales map[uint64]nc4Scale
	ids    map[uint64]bool
}

type nc4Scale struct {
	name string
	n    *h5Node
	in   *h5Node
}

func checkNC4(f *h5File, w *h5Want) (d *diff) {
	defer func() {
		if r := recover(); r != nil {
			bad, ok := r.(h5Bad)
			if !ok {
				panic(r)
			}
			d = mkdiff("invalid", "not valid HDF5: %s", string(bad))
		}
	}()
	x := &nc4{f, map[uint64]nc4Scale{}, map[uint64]bool{}}
	if d := x.dimensions(f.root, "/"); d != nil {
		return d
	}
	if d := x.group(f.root, w, nil, "/"); d != nil {
		return d
	}
	f.checkExtents() // heaps were found on the way
	return nil
}

// dimensions finds the dimension scales.
func (x *nc4) dimensions(g *h5Node, path string) *diff {
	for _, l := range g.links {
		where := path + l.name
		if l.group {
			if d := x.dimensions(l.h5Node, where+"/"); d != nil {
				return d
			}
			continue
		}
		class := l.attr("CLASS")
		if class == nil {
			continue
		}
		if class.text() != "DIMENSION_SCALE" || len(class.dims) > 0 {
			return mkdiff("scale", "%s: CLASS %q", where, class.text())
		}
		name := l.attr("NAME").text()
		if rest, ok := strings.CutPrefix(name, onlyDim); ok {
			if want := fmt.Sprintf("%10d", l.dims[0]); rest != want {
				return mkdiff("scale", "%s: the length in the name is %q, want %q", where, rest, want)
			}
		} else if name != l.name {
			return mkdiff("scale", "%s: NAME is %q", where, name)
		}
		if len(l.dims) != 1 {
			return mkdiff("scale", "%s: dimensions %v", where, l.dims)
		}
		if id := l.attr("_Netcdf4Dimid"); id != nil {
			if id.t.class != 0 || id.t.size != 4 || len(id.dims) > 0 || x.ids[rawUint(id.raw, id.t.big)] {
				return mkdiff("scale", "%s: bad or repeated _Netcdf4Dimid %x", where, id.raw)
			}
			x.ids[rawUint(id.raw, id.t.big)] = true
		}
		x.scales[l.addr] = nc4Scale{l.name, l.h5Node, g}
	}
	return nil
}

func (x *nc4) group(g *h5Node, w *h5Want, above []*h5Node, path string) *diff {
	if d := x.attrs(g, w.attrs, path, "_NCProperties"); d != nil {
		return d
	}
	above = append(above[:len(above):len(above)], g)
	vars, groups := map[string]*h5Node{}, map[string]*h5Node{}
	for _, l := range g.links {
		switch {
		case l.group:
			groups[l.name] = l.h5Node
		case strings.HasPrefix(l.attr("NAME").text(), onlyDim) && l.attr("CLASS") != nil:
		default:
			name := strings.TrimPrefix(l.name, nonCoord)
			if vars[name] != nil {
				return mkdiff("var-list", "%s: two variables %q", path, name)
			}
			vars[name] = l.h5Node
		}
	}
	if len(vars) != len(w.vars) || len(groups) != len(w.groups) {
		return mkdiff("var-list", "%s: %d variables and %d groups, want %d and %d", path, len(vars), len(groups), len(w.vars), len(w.groups))
	}
	for _, v := range w.vars {
		n := vars[v.name]
		if n == nil {
			return mkdiff("var-list", "%s: no variable %q", path, v.name)
		}
		if d := x.variable(n, v, above, path+v.name); d != nil {
			return d
		}
	}
	for _, s := range w.groups {
		n := groups[s.name]
		if n == nil {
			return mkdiff("group-list", "%s: no group %q", path, s.name)
		}
		if d := x.group(n, s, above, path+s.name+"/"); d != nil {
			return d
		}
	}
	return nil
}

func (x *nc4) variable(n *h5Node, v h5WantVar, above []*h5Node, where string) *diff {
	if len(n.dims) != len(v.dims) {
		return mkdiff("var-shape", "%s: shape %v, want dimensions %q", where, n.dims, v.dims)
	}
	if s := x.f.match(n.t, n.dims, n.raw, reflect.ValueOf(v.val), ""); s != "" {
		return mkdiff("var-value", "%s: %s", where, s)
	}
	sc, isScale := x.scales[n.addr]
	list := n.attr("DIMENSION_LIST")
	named := strings.Join(v.dims, "") != ""
	switch {
	case isScale:
		if len(v.dims) != 1 || v.dims[0] != v.name || sc.name != v.name {
			return mkdiff("var-dims", "%s: made a dimension scale, with dimensions %q", where, v.dims)
		}
	case list == nil && named:
		return mkdiff("var-dims", "%s: no DIMENSION_LIST", where)
	case list != nil && len(list.dims) == 1 && int(list.dims[0]) == len(v.dims) && list.t.class == 9 && list.t.base.class == 7:
		for i, name := range v.dims {
			b, k := x.f.vlen(list.raw[16*i:], 8)
			if name == "" && k == 0 {
				continue
			}
			s, has := x.scales[rawUint(b, false)]
			if k != 1 || !has {
				return mkdiff("var-dims", "%s: %d references for dimension %q, to a scale: %v", where, k, name, has)
			}
			visible := false
			for _, g := range above {
				visible = visible || g == s.in
			}
			if s.name != name || s.n.dims[0] != n.dims[i] || !visible {
				return mkdiff("var-dims", "%s: dimension %d is %q of %d, want %q of %d; in its group or above: %v", where, i, s.name, s.n.dims[0], name, n.dims[i], visible)
			}
		}
	case list != nil:
		return mkdiff("var-dims", "%s: bad DIMENSION_LIST", where)
	}
	return x.attrs(n, v.attrs, where, "CLASS", "NAME", "_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "REFERENCE_LIST")
}

func (x *nc4) attrs(n *h5Node, want []MAttr, where string, hidden ...string) *diff {
	var got []h5Attr
	names := map[string]bool{}
	for _, a := range want {
		names[a.Name] = true
	}
next:
	for _, a := range n.attrs {
		for _, h := range hidden {
			if a.name == h && !names[h] {
				continue next
			}
		}
		got = append(got, a)
	}
	if len(got) != len(want) {
		return mkdiff("attr-list", "%s: %d attributes, want %d", where, len(got), len(want))
	}
	for i, a := range got {
		if a.name != want[i].Name {
			return mkdiff("attr-list", "%s: attribute %q, want %q", where, a.name, want[i].Name)
		}
		if s := x.f.match(a.t, a.dims, a.raw, reflect.ValueOf(want[i].Val), ""); s != "" {
			return mkdiff("attr-value", "%s: attribute %q: %s", where, a.name, s)
		}
	}
	return nil
}

func runValid(c *Case, e *Env) *Violation {
	var want *h5Want
	if c.Mode == "write" {
		wr, v := writeAll(c, e)
		if wr == nil {
			return v
		}
		want = wr.state.Root.want()
	} else {
		_, cp, v := copyAll(c, e)
		if cp == nil {
			return v
		}
		want = cp.want()
	}
	f, err := decodeH5(e.W.Get(outName))
	if err != nil {
		return violf("invalid", "%v", err)
	}
	return violDiff("", checkNC4(f, want))
}

func init() {
	register(&Prop{ID: "C17", Quick: 20000, Thorough: 400000, Run: runValid,
		Gen: func(r *RNG, c *Case) {
			if r.P(60) {
				c.Mode, c.Kind = "write", "hdf5"
				g := newGen(r.Fork())
				c.WOps = g.wHist("hdf5", false)
			} else {
				genSource(r, c, false)
				c.Mode = "hdf5"
				c.P["new"] = int64(r.Intn(2))
			}
			if r.P(30) {
				genWriteFaults(r, c)
			}
			genDelivery(r, c)
		},
	})
}
