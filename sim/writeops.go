package main

// Writer histories: what a caller does with a Writer, and the model of what the
// file must then contain.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// WOp is one call on a writer.
type WOp struct {
	Kind  string   `json:"k"`           // attrs, var, group, gclose, close
	Group string   `json:"g,omitempty"` // the group it is made on, "/" for the root
	Name  string   `json:"n,omitempty"`
	Type  string   `json:"t,omitempty"`
	Shape []int64  `json:"sh,omitempty"`
	Dims  []string `json:"d,omitempty"`
	Attrs []CAttr  `json:"a,omitempty"`
	Seed  uint64   `json:"s,omitempty"`
	Bad   string   `json:"bad,omitempty"` // why the call must be refused
	After string   `json:"af,omitempty"`  // the variable that makes it so
	Vlen  bool     `json:"vl,omitempty"`  // the last level is a variable-length list
	List  int      `json:"ll,omitempty"`  // the longest such list (0 means 4)
	Str   int      `json:"sl,omitempty"`  // strings are up to so long (0 means some bytes)
	Empty bool     `json:"e,omitempty"`   // an empty string
	Nul   bool     `json:"nul,omitempty"` // with a NUL in strings
	Nil   bool     `json:"nil,omitempty"` // pass nil instead of an empty attribute map
	Row   int64    `json:"row,omitempty"` // a very large variable: one more dimension, of this length
}

func (o WOp) String() string {
	s := fmt.Sprintf("%s(%s", o.Kind, o.Group)
	if o.Name != "" {
		s += fmt.Sprintf(" %q", cut(o.Name))
	}
	if o.Kind == "var" {
		s += fmt.Sprintf(" %s%v %v", o.Type, o.Shape, o.Dims)
		if o.Row > 0 {
			s += fmt.Sprintf(" of rows of %d", o.Row)
		}
	}
	if len(o.Attrs) > 0 {
		s += fmt.Sprintf(" %d attrs", len(o.Attrs))
	}
	if o.Bad != "" {
		s += " BAD:" + o.Bad
	}
	return s + ")"
}

func attrMap(attrs []CAttr) api.AttributeMap {
	keys := []string{}
	vals := map[string]any{}
	for _, a := range attrs {
		keys = append(keys, a.Name)
		vals[a.Name] = a.value()
	}
	om, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(err)
	}
	return om
}

// values builds the argument passed to AddVar.
func (o *WOp) values() any {
	if o.Row > 0 {
		return o.hugeValues()
	}
	v := o.someValues()
	if o.Str > 0 && o.Type == "string" && o.Bad == "" && len(o.Shape) > 0 {
		for i, e := range flatten(v) {
			h := mix64(o.Seed ^ mix64(uint64(i)))
			n := h % uint64(o.Str+1)
			if h>>40%3 == 0 {
				n = uint64(o.Str)
			}
			if i == 0 {
				n = max(n, 1)
			}
			e.SetString(stringOf(h, int(n), h%3 == 0))
		}
	}
	return v
}

func (o *WOp) someValues() any {
	if o.Vlen {
		// one more level, of varying length
		var build func(sh []int64, idx *int) reflect.Value
		base := reflect.SliceOf(goTypes[o.Type])
		build = func(sh []int64, idx *int) reflect.Value {
			if len(sh) == 0 {
				*idx++
				n := int64(mix64(o.Seed^uint64(*idx*7919)) % uint64(max(o.List, 4)+1))
				return reflect.ValueOf(makeValue(o.Type, []int64{n}, mix64(o.Seed+uint64(*idx)), -1))
			}
			t := base
			for range sh {
				t = reflect.SliceOf(t)
			}
			s := reflect.MakeSlice(t, int(sh[0]), int(sh[0]))
			for i := 0; i < int(sh[0]); i++ {
				s.Index(i).Set(build(sh[1:], idx))
			}
			return s
		}
		idx := 0
		return build(o.Shape, &idx).Interface()
	}
	if o.Type == "string" && len(o.Shape) == 0 {
		if o.Empty {
			return ""
		}
		n := int(o.Seed%12) + 1
		if o.Seed%11 == 0 {
			n = 1
		}
		if o.Str > 0 {
			n = o.Str
		}
		s := stringOf(mix64(o.Seed), n, o.Seed%3 == 0)
		if o.Nul {
			s = withNUL(s, o.Seed)
		}
		return s
	}
	v := makeValue(o.Type, o.Shape, o.Seed, -1)
	switch o.Bad {
	case "ragged":
		rv := reflect.ValueOf(v)
		last := rv.Index(rv.Len() - 1)
		if o.Seed%2 == 0 {
			last.Set(last.Slice(0, last.Len()-1))
		} else {
			last.Set(reflect.Append(last, last.Index(0)))
		}
	case "nul":
		return pick(NewRNG(o.Seed), any([]string{"ab", "c\x00d"}), any([]string{"\x00d", ""}), any([]string{"a\x00\x00b\x00", "c"}))
	case "type":
		return pick(NewRNG(o.Seed), any([]int{1, 2}), any(true), any([]bool{true}), any(complex(1, 2)), any(uint(3)),
			any([][]int{{1}}), any(struct{ X int }{1}))
	}
	return v
}

func (o *WOp) attributes() api.AttributeMap {
	if o.Nil && len(o.Attrs) == 0 {
		return nil
	}
	if o.Bad == "attrtype" {
		keys := []string{}
		vals := map[string]any{}
		for _, a := range o.Attrs {
			keys = append(keys, a.Name)
			vals[a.Name] = a.value()
		}
		keys = append(keys, "zz_bad")
		vals["zz_bad"] = pick(NewRNG(o.Seed), any([]int{1, 2}), any(true), any(complex(1, 2)), any(7), any(struct{ X int }{1}))
		if o.Nul {
			vals["zz_bad"] = pick(NewRNG(o.Seed), any("a\x00b"), any([]string{"c", "a\x00b"}), any([][]string{{"c"}, {"\x00b"}}))
		}
		om, _ := util.NewOrderedMap(keys, vals)
		return om
	}
	return attrMap(o.Attrs)
}

// WState is the model: it is driven by the same calls as the writer.
type WState struct {
	Kind   string
	Root   *wgroup
	Closed bool
}

type wgroup struct {
	name   string
	attrs  []CAttr
	vars   []*WOp
	groups []*wgroup
}

func (g *wgroup) find(path string) *wgroup {
	for _, p := range strings.Split(strings.Trim(path, "/"), "/") {
		if p == "" {
			continue
		}
		var next *wgroup
		for _, s := range g.groups {
			if s.name == p {
				next = s
			}
		}
		if next == nil {
			return nil
		}
		g = next
	}
	return g
}

func NewWState(kind string) *WState { return &WState{Kind: kind, Root: &wgroup{name: "/"}} }

// Apply records a call that was accepted.
func (s *WState) Apply(o *WOp) {
	g := s.Root.find(o.Group)
	if g == nil {
		return
	}
	switch o.Kind {
	case "attrs":
		g.attrs = o.Attrs
	case "var":
		g.vars = append(g.vars, o)
	case "group":
		if g.find(o.Name) == nil {
			g.groups = append(g.groups, &wgroup{name: o.Name})
		}
	}
}

// stillBad says whether what makes a call refusable is there (the minimiser may
// have taken it away).
func (s *WState) stillBad(o *WOp) bool {
	if o.Bad != "dup" && o.After == "" {
		return true
	}
	g := s.Root.find(o.Group)
	if g == nil {
		return false
	}
	for _, x := range g.vars {
		if o.After != "" && x.Name == o.After || o.Bad == "dup" && x.Name == o.Name {
			return true
		}
	}
	for _, x := range g.groups {
		if o.Bad == "dup" && x.name == o.Name {
			return true
		}
	}
	return false
}

// Model is what a reader must see once the file is complete.
func (s *WState) Model() *MGroup {
	if s.Kind == "cdf" {
		return s.cdfModel()
	}
	return s.hdf5Model(s.Root)
}

func attrModel(attrs []CAttr) []MAttr {
	var out []MAttr
	for _, a := range attrs {
		out = append(out, MAttr{Name: a.Name, Val: a.readBack()})
	}
	return out
}

func (s *WState) cdfModel() *MGroup {
	m := &MGroup{Name: "/", HasDims: true, Attrs: attrModel(s.Root.attrs)}
	seen := map[string]bool{}
	for _, o := range s.Root.vars {
		v := &MVar{Name: o.Name, Type: cdlTypes[o.Type], GoType: o.Type, RawType: o.Type, Attrs: attrModel(o.Attrs)}
		v.Shape = append([]int64{}, o.Shape...)
		if o.Row > 0 {
			v.Shape = append(v.Shape, o.Row)
			v.Huge = o.hugeVar()
		} else {
			v.Val = o.values()
		}
		if o.Type == "string" {
			v.Type = "char"
		}
		if o.Type == "string" && o.Row == 0 {
			longest := 0
			for _, e := range flatten(v.Val) {
				longest = max(longest, e.Len())
			}
			if !(len(o.Shape) == 0 && longest == 1 && len(o.Dims) == 0) {
				v.Shape = append(v.Shape, int64(longest))
			}
			v.Val = padStrings(v.Val, longest)
		}
		for i, n := range v.Shape {
			name := "*"
			if i < len(o.Dims) && o.Dims[i] != "" {
				name = o.Dims[i]
			}
			v.Dims = append(v.Dims, name)
			if name == "*" {
				m.Dims = append(m.Dims, MDim{Name: name, Len: uint64(n)})
				continue
			}
			if !seen[name] {
				seen[name] = true
				m.Dims = append(m.Dims, MDim{Name: name, Len: uint64(n)})
			}
		}
		m.Vars = append(m.Vars, v)
	}
	return m
}

func padStrings(v any, n int) any {
	if s, ok := v.(string); ok {
		return s + strings.Repeat("\x00", n-len(s))
	}
	c := deepCopy(v)
	for _, e := range flatten(c) {
		e.SetString(e.String() + strings.Repeat("\x00", n-e.Len()))
	}
	return c
}

func (s *WState) hdf5Model(g *wgroup) *MGroup {
	m := &MGroup{Name: g.name, Attrs: attrModel(g.attrs), AnyVarOrder: true, AnyGroupOrder: true}
	for _, o := range g.vars {
		v := &MVar{Name: o.Name, Type: cdlTypes[o.Type], GoType: o.Type, RawType: o.Type, Attrs: attrModel(o.Attrs),
			Shape: append([]int64{}, o.Shape...), Val: o.values(), Dims: append([]string{}, o.Dims...)}
		if o.Vlen {
			v.Type, v.GoType = "", ""
		}
		m.Vars = append(m.Vars, v)
	}
	sort.Slice(m.Vars, func(i, j int) bool { return m.Vars[i].Name < m.Vars[j].Name })
	for _, sub := range g.groups {
		m.Groups = append(m.Groups, s.hdf5Model(sub))
	}
	return m
}

// WRun drives a real writer through a history.
type WRun struct {
	w       *World
	root    api.Writer
	groups  map[string]api.Writer
	state   *WState
	openErr error
	panicV  any
}

func startWriter(w *World, kind, fname string) *WRun {
	r := &WRun{w: w, state: NewWState(kind), groups: map[string]api.Writer{}}
	k := netcdf.KindCDF
	if kind == "hdf5" {
		k = netcdf.KindHDF5
	}
	r.root, r.openErr = netcdf.OpenWriter(fname, k)
	if r.openErr == nil {
		r.groups["/"] = r.root
	}
	return r
}

// do makes one call.  The model follows only calls that were accepted.
func (r *WRun) do(o *WOp) error {
	wr := r.groups[o.Group]
	if wr == nil || !r.state.stillBad(o) {
		return errNoGroup
	}
	var err error
	switch o.Kind {
	case "attrs":
		err = wr.AddAttributes(o.attributes())
	case "var":
		err = wr.AddVar(o.Name, api.Variable{Values: o.values(), Dimensions: append([]string(nil), o.Dims...), Attributes: o.attributes()})
	case "group":
		var sub api.Writer
		sub, err = wr.CreateGroup(o.Name)
		if err == nil {
			r.groups[strings.TrimSuffix(o.Group, "/")+"/"+o.Name] = sub
		}
	case "gclose":
		err = wr.Close()
	case "close":
		err = r.root.Close()
	}
	if err == nil {
		r.state.Apply(o)
	}
	r.w.event("%s -> %v", o, err)
	return err
}

var errNoGroup = fmt.Errorf("no such group")
