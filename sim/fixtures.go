package main

// Files made by the reference tools, with what the reference libraries read from
// them (fix/mkfixtures.py wrote both).

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
)

//go:embed fixtures
var fixtureEmbed embed.FS

var fixtureFS, _ = fs.Sub(fixtureEmbed, "fixtures")

// A fixture's JSON.
type fxFile struct {
	Root    *fxGroup   `json:"root"`
	CDF     bool       `json:"cdf"`     // not HDF5
	Regions []fxRegion `json:"regions"` // where checksums protect the bytes
	Tags    []string   `json:"tags"`
	Big     bool       `json:"big"` // too slow for byte-wise delivery
	Huge    *fxHuge    `json:"huge"`
}

type fxRegion struct {
	Kind string `json:"kind"`
	Off  int64  `json:"off"`
	Len  int64  `json:"len"`
}

type fxGroup struct {
	Name      string    `json:"name"`
	Attrs     []fxAttr  `json:"attrs"`
	AttrOrder bool      `json:"attrorder"`
	Order     bool      `json:"order"`
	Vars      []fxVar   `json:"vars"`
	Groups    []fxGroup `json:"groups"`
	Dims      []struct {
		Name string `json:"name"`
		Len  uint64 `json:"len"`
		// An unlimited dimension without a coordinate variable may be given as 0, as
		// the existing tests want it.
		Unlim bool `json:"unlim"`
	} `json:"dims"`
	HasDims bool `json:"hasdims"`
	Types   []struct {
		Name string `json:"name"`
		Type fxType `json:"type"`
	} `json:"types"`
}

type fxAttr struct {
	Name   string `json:"name"`
	Val    fxVal  `json:"val"`
	NCType string `json:"nctype"`
}

type fxVar struct {
	Name      string   `json:"name"`
	Val       fxVal    `json:"val"`
	Attrs     []fxAttr `json:"attrs"`
	AttrOrder bool     `json:"attrorder"`
	Dims      []string `json:"dims"`
	Layout    int      `json:"layout"`
	Filters   []int    `json:"filters"`
	NCType    string   `json:"nctype"` // the name of a type of this group
}

type fxType struct {
	K       string        `json:"k"`
	Size    int           `json:"size"`
	Signed  bool          `json:"signed"`
	Pad     int           `json:"pad"`
	Names   []string      `json:"names"`
	Values  []json.Number `json:"values"`
	Dims    []int64       `json:"dims"`
	Base    *fxType       `json:"base"`
	Members []struct {
		Name string `json:"name"`
		Type fxType `json:"type"`
	} `json:"members"`
}

// fxVal is a value as the reference library reported it.
type fxVal struct {
	Type  fxType  `json:"type"`
	Shape []int64 `json:"shape"`
	Data  []any   `json:"data"` // flat, in row-major order
	Null  bool    `json:"null"`
	Huge  bool    `json:"huge"` // too large to be given
	attr  bool
}

type fixture struct {
	data []byte
	file *fxFile
	m    *MGroup
}

var (
	fixtureNames []string // all but
	hugeNames    []string // the ones of more than 4 GiB
	fixtures     = map[string]*fixture{}
)

func init() { loadFixtureNames() }

func loadFixtureNames() {
	fixtureNames = nil
	ents, err := fs.ReadDir(fixtureFS, ".")
	if err != nil {
		return
	}
	for _, e := range ents {
		if n, ok := strings.CutSuffix(strings.TrimSuffix(e.Name(), ".gz"), ".json"); ok && strings.HasPrefix(n, "huge-") {
			hugeNames = append(hugeNames, n)
		} else if ok {
			fixtureNames = append(fixtureNames, n)
		}
	}
	sort.Strings(fixtureNames)
	sort.Strings(hugeNames)
}

func getFixture(name string) *fixture {
	if f := fixtures[name]; f != nil {
		return f
	}
	data, err := readFixture(name + ".bin")
	if err != nil {
		panic(harnessError("no fixture " + name))
	}
	js, err := readFixture(name + ".json")
	if err != nil {
		panic(harnessError("no fixture " + name))
	}
	f := &fixture{data: data, file: &fxFile{}}
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	if err := d.Decode(f.file); err != nil {
		panic(harnessError("fixture " + name + ": " + err.Error()))
	}
	f.m = f.file.Root.model(f.file.CDF)
	if f.file.Huge != nil {
		allVars(f.m, "/", func(p string, v *MVar) {
			if x := v.Val.(*fxVal); x.Huge {
				v.Huge, v.Val = f.huge(joinPath(p, v.Name), x), nil
			}
		})
	}
	if slices.Contains(f.file.Tags, "mayrefuse") {
		f.m.refusable()
	}
	fixtures[name] = f
	return f
}

// readFixture reads a file of the fixtures; large ones are stored compressed.
func readFixture(name string) ([]byte, error) {
	data, err := fs.ReadFile(fixtureFS, name)
	if err == nil {
		return data, nil
	}
	if data, err = fs.ReadFile(fixtureFS, name+".gz"); err != nil {
		return nil, err
	}
	z, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(z)
}

func fixtureData(name string) []byte   { return append([]byte{}, getFixture(name).data...) }
func fixtureModel(name string) *MGroup { return getFixture(name).m }
func fixtureIsHDF5(name string) bool   { return !getFixture(name).file.CDF }
func fixtureBig(name string) bool      { return getFixture(name).file.Big }

func (m *MGroup) refusable() {
	for _, v := range m.Vars {
		v.Refusable = true
	}
	for _, g := range m.Groups {
		g.refusable()
	}
}

// fixtureMayRefuse is true of files that use features the library doesn't support.
func fixtureMayRefuse(name string) bool {
	return slices.Contains(getFixture(name).file.Tags, "mayrefuse")
}

// pickFixture picks one, the slow ones and those that may be refused rarely.
func pickFixture(r *RNG, hdf5Only, refusable bool) string {
	for range 1000 {
		n := fixtureNames[r.Intn(len(fixtureNames))]
		switch {
		case hdf5Only && !fixtureIsHDF5(n):
		case fixtureMayRefuse(n) && (!refusable || r.P(70)):
		case fixtureBig(n) && (r.P(85) || !refusable && len(getFixture(n).m.Groups) > 0 && len(getFixture(n).m.Groups[0].Groups) > 300):
		default:
			return n
		}
	}
	panic(harnessError("no fixture"))
}

func (g *fxGroup) model(cdf bool) *MGroup {
	m := &MGroup{Name: g.Name, HasDims: g.HasDims, AnyAttrOrder: !g.AttrOrder, AnyVarOrder: !g.Order, AnyGroupOrder: !g.Order}
	m.Attrs = fxAttrs(g.Attrs, g)
	for i := range g.Vars {
		v := &g.Vars[i]
		mv := &MVar{Name: v.Name, Val: &v.Val, Dims: v.Dims, Shape: v.Val.Shape, AnyAttrOrder: !v.AttrOrder}
		mv.Attrs = fxAttrs(v.Attrs, g)
		if v.NCType != "" {
			mv.Type, mv.GoType = v.NCType, v.NCType
		} else {
			mv.Type, mv.GoType = g.describe(&v.Val.Type, v.Name, false), g.describe(&v.Val.Type, v.Name, true)
		}
		m.Vars = append(m.Vars, mv)
	}
	for i := range g.Groups {
		m.Groups = append(m.Groups, g.Groups[i].model(cdf))
	}
	for _, d := range g.Dims {
		md := MDim{Name: d.Name, Len: d.Len, MayBeZero: d.Unlim}
		for _, v := range g.Vars {
			if v.Name == d.Name && len(v.Dims) > 0 && v.Dims[0] == d.Name {
				md.MayBeZero = false
			}
		}
		m.Dims = append(m.Dims, md)
	}
	for i := range g.Types {
		t := &g.Types[i]
		m.Types = append(m.Types, t.Name)
		m.TypeDefs = append(m.TypeDefs, [2]string{g.define(&t.Type, t.Name, false), "type " + t.Name + " " + g.define(&t.Type, t.Name, true)})
	}
	return m
}

func fxAttrs(as []fxAttr, g *fxGroup) []MAttr {
	var out []MAttr
	for i := range as {
		a := &as[i]
		a.Val.attr = true
		out = append(out, MAttr{Name: a.Name, Val: &a.Val, Type: g.describe(&a.Val.Type, a.Name, false), GoType: g.describe(&a.Val.Type, a.Name, true)})
	}
	return out
}

// fxNamer describes types: by name where the group declares a type like that.
type fxNamer struct {
	g      *fxGroup // nil: use no names
	self   string   // the name of what is described
	golang bool
}

func (g *fxGroup) describe(t *fxType, self string, golang bool) string {
	return (&fxNamer{g, self, golang}).name(t)
}

// define describes a type of the group's own.
func (g *fxGroup) define(t *fxType, self string, golang bool) string {
	return (&fxNamer{g, self, golang}).sig(t)
}

func (n *fxNamer) name(t *fxType) string {
	if n.g != nil {
		switch t.K {
		case "compound", "enum", "opaque", "vlen":
			plain := &fxNamer{nil, n.self, n.golang}
			sig := plain.sig(t)
			for i := range n.g.Types {
				if u := &n.g.Types[i]; plain.sig(&u.Type) == sig {
					return u.Name
				}
			}
		}
	}
	return n.sig(t)
}

func (n *fxNamer) sig(t *fxType) string {
	if n.golang {
		return t.goSig(n)
	}
	return t.cdlSig(n)
}

func (t *fxType) cdlSig(n *fxNamer) string {
	switch t.K {
	case "int":
		s := map[int]string{1: "byte", 2: "short", 4: "int", 8: "int64"}[t.Size]
		if !t.Signed {
			s = "u" + s
		}
		return s
	case "float":
		return map[int]string{4: "float", 8: "double"}[t.Size]
	case "str", "vstr":
		return "string"
	case "opaque":
		return fmt.Sprintf("opaque(%d)", t.Size)
	case "vlen":
		return n.name(t.Base) + "(*)"
	case "array":
		var ds []string
		for _, d := range t.Dims {
			ds = append(ds, fmt.Sprint(d))
		}
		return n.name(t.Base) + "(" + strings.Join(ds, ",") + ")"
	case "enum":
		var ms []string
		for i, m := range t.Names {
			ms = append(ms, "\t"+m+" = "+t.Values[i].String())
		}
		return n.name(t.Base) + " enum {\n" + strings.Join(ms, ",\n") + "\n}"
	case "compound":
		s := "compound {\n"
		for i := range t.Members {
			m := &t.Members[i]
			s += "\t" + n.name(&m.Type) + " " + m.Name + ";\n"
		}
		return s + "}"
	}
	return ""
}

func (t *fxType) goSig(n *fxNamer) string {
	switch t.K {
	case "int", "float":
		return t.goType().String()
	case "str", "vstr":
		return "string"
	case "opaque":
		return fmt.Sprintf("[%d]uint8", t.Size)
	case "vlen":
		return "[]" + n.name(t.Base)
	case "array":
		s := ""
		for _, d := range t.Dims {
			s += fmt.Sprintf("[%d]", d)
		}
		return s + n.name(t.Base)
	case "enum":
		var ms []string
		for i, m := range t.Names {
			if i == 0 {
				m += " " + n.self
			}
			ms = append(ms, "\t"+m+" = "+t.Values[i].String())
		}
		return n.name(t.Base) + "\nconst (\n" + strings.Join(ms, "\n") + "\n)\n"
	case "compound":
		var ms []string
		for i := range t.Members {
			m := &t.Members[i]
			ms = append(ms, "\t"+m.Name+" "+n.name(&m.Type))
		}
		return "struct {\n" + strings.Join(ms, "\n") + "\n}\n"
	}
	return ""
}

// goType is the Go type of a number.
func (t *fxType) goType() reflect.Type {
	k := t.K
	if k == "float" {
		k = fmt.Sprintf("float%d", t.Size*8)
	} else if t.Signed {
		k = fmt.Sprintf("int%d", t.Size*8)
	} else {
		k = fmt.Sprintf("uint%d", t.Size*8)
	}
	return goTypes[k]
}

// match compares what the library returned with the value; "" if it is the same.
func (v *fxVal) match(got any) string {
	shape := v.Shape
	if v.attr && len(shape) > 0 && shape[0] == 1 {
		shape = shape[1:] // attributes of one element come as that
	}
	if v.Null {
		shape = []int64{0}
	}
	p := &fxCmp{data: v.Data}
	if d := p.match(reflect.ValueOf(got), &v.Type, shape, ""); d != "" {
		return d
	}
	if p.i != len(p.data) {
		return fmt.Sprintf("only %d of %d elements", p.i, len(p.data))
	}
	return ""
}

type fxCmp struct {
	data []any
	i    int
}

func (p *fxCmp) next() any {
	p.i++
	if p.i > len(p.data) {
		return nil
	}
	return p.data[p.i-1]
}

func (p *fxCmp) match(g reflect.Value, t *fxType, shape []int64, at string) string {
	for g.IsValid() && g.Kind() == reflect.Interface {
		g = g.Elem()
	}
	if !g.IsValid() {
		return "nothing" + atStr(at)
	}
	switch t.K {
	case "array":
		// elements of the array type are lists
		n := int64(1)
		for _, s := range shape {
			n *= s
		}
		var flat []any
		for range n {
			l, _ := p.next().([]any)
			flat = append(flat, l...)
		}
		q := &fxCmp{data: flat}
		if d := q.match(g, t.Base, append(append([]int64{}, shape...), t.Dims...), at); d != "" {
			return d
		}
		if q.i != len(q.data) {
			return "too few elements" + atStr(at)
		}
		return ""
	case "enum":
		if g.Kind() == reflect.Struct {
			return p.match(g.FieldByName("values"), t.Base, shape, at)
		}
		return fmt.Sprintf("a %s for an enum%s", g.Type(), atStr(at))
	case "str":
		if t.Size == 1 && len(shape) == 1 {
			if g.Kind() != reflect.String {
				return fmt.Sprintf("a %s for characters%s", g.Type(), atStr(at))
			}
			var want []byte
			for range shape[0] {
				want = append(want, latin1(p.next())...)
			}
			if g.String() != string(want) {
				return fmt.Sprintf("%q, want %q%s", cut(g.String()), cut(string(want)), atStr(at))
			}
			return ""
		}
	}
	if len(shape) > 0 {
		if g.Kind() != reflect.Slice {
			return fmt.Sprintf("a %s for shape %v%s", g.Type(), shape, atStr(at))
		}
		if int64(g.Len()) != shape[0] {
			return fmt.Sprintf("length %d, want %d%s", g.Len(), shape[0], atStr(at))
		}
		if shape[0] == 0 {
			// there is only the type to look at
			et := g.Type()
			n := len(shape)
			if t.K == "str" && t.Size == 1 {
				n--
			}
			for range n {
				if et.Kind() != reflect.Slice {
					return fmt.Sprintf("a %s for shape %v%s", g.Type(), shape, atStr(at))
				}
				et = et.Elem()
			}
			if (t.K == "int" || t.K == "float") && et != t.goType() {
				return fmt.Sprintf("element type %s, want %s%s", et, t.goType(), atStr(at))
			}
			return ""
		}
		for i := 0; i < g.Len(); i++ {
			if d := p.match(g.Index(i), t, shape[1:], fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	}
	want := p.next()
	bad := func() string {
		return fmt.Sprintf("%s(%s), want %s %q%s", g.Type(), cut(fmt.Sprintf("%q", fmt.Sprint(g))), t.K, cut(fmt.Sprint(want)), atStr(at))
	}
	switch t.K {
	case "int":
		if g.Type() != t.goType() || want == nil || fmt.Sprint(g) != fmt.Sprint(want) {
			return bad()
		}
	case "float":
		if g.Type() != t.goType() {
			return bad()
		}
		var bits uint64
		fmt.Sscan(fmt.Sprint(want), &bits)
		f := g.Float()
		if t.Size == 4 {
			w := math.Float32frombits(uint32(bits))
			if math.Float32bits(float32(f)) != uint32(bits) && !(f != f && w != w) {
				return bad()
			}
		} else if w := math.Float64frombits(bits); math.Float64bits(f) != bits && !(f != f && w != w) {
			return bad()
		}
	case "str", "vstr":
		w := string(latin1(want))
		if t.K == "str" && t.Size > 0 {
			if i := strings.IndexByte(w, 0); i >= 0 {
				w = w[:i]
			}
		}
		if g.Kind() != reflect.String || g.String() != w && !(t.K == "str" && t.Size == 1 && g.String() == string(latin1(want))) {
			return bad()
		}
	case "opaque":
		b, err := hex.DecodeString(fmt.Sprint(want))
		if err != nil || g.Kind() != reflect.Slice || g.Type().Elem().Kind() != reflect.Uint8 || !bytes.Equal(g.Bytes(), b) {
			return bad()
		}
	case "compound":
		l, _ := want.([]any)
		if g.Kind() != reflect.Slice || g.Len() != len(t.Members) || len(l) != len(t.Members) {
			return bad()
		}
		for i := range t.Members {
			m := &t.Members[i]
			f := g.Index(i)
			if f.Kind() != reflect.Struct {
				return bad()
			}
			name, val := f.FieldByName("Name"), f.FieldByName("Val")
			if !name.IsValid() || !val.IsValid() || name.String() != m.Name {
				return bad()
			}
			q := &fxCmp{data: []any{l[i]}}
			if d := q.match(val, &m.Type, nil, at+"."+m.Name); d != "" {
				return d
			}
		}
	case "vlen":
		l, _ := want.([]any)
		if g.Kind() != reflect.Slice || g.Len() != len(l) {
			return bad()
		}
		for i := range l {
			q := &fxCmp{data: []any{l[i]}}
			if d := q.match(g.Index(i), t.Base, nil, fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
	case "ref":
		if fmt.Sprint(g) != fmt.Sprint(want) {
			return bad()
		}
	default:
		return "no rule for " + t.K
	}
	return ""
}

// latin1 gives the bytes of a string that has one character for each.
func latin1(v any) []byte {
	s, _ := v.(string)
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

// cdfRef is a CDF file written by the reference library (sim refcdf made them) from the
// file that the spec encodes to.
type cdfRef struct {
	Spec *CDFSpec
	Data []byte
}

var cdfRefs []cdfRef

func getCDFRefs() []cdfRef {
	if cdfRefs == nil {
		b, err := readFixture("cdfref.refs")
		if err == nil {
			err = json.Unmarshal(b, &cdfRefs)
		}
		if err != nil {
			panic(harnessError("no CDF references: " + err.Error()))
		}
	}
	return cdfRefs
}
