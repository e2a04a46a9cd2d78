package main

// An encoder and a decoder for the CDF formats (versions 1, 2 and 5), written
// from the format specification and sharing nothing with the code under test.

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
)

var nctype = map[string]uint32{"int8": 1, "string": 2, "int16": 3, "int32": 4, "float32": 5, "float64": 6,
	"uint8": 7, "uint16": 8, "uint32": 9, "int64": 10, "uint64": 11}

// CAttr is an attribute of a generated file.
type CAttr struct {
	Name string `json:"n"`
	Type string `json:"t"`
	Len  int    `json:"l"` // -1: a scalar
	Seed uint64 `json:"s"`
	// HDF5 only
	List []int64 `json:"ls,omitempty"` // a list of lists of these lengths; of strings: a list of len(List) strings
	Rows int     `json:"rw,omitempty"` // so many lists of lists, the first as List says, if that has different lengths
}

func (a CAttr) value() any {
	if len(a.List) > 0 {
		t := reflect.SliceOf(goTypes[a.Type])
		if a.Type == "string" {
			out := []string{}
			for i, n := range a.List {
				out = append(out, stringOf(mix64(a.Seed+uint64(i)), int(n), (a.Seed+uint64(i))%3 == 0))
			}
			return out
		}
		out := reflect.MakeSlice(reflect.SliceOf(t), 0, len(a.List))
		for i, n := range a.List {
			out = reflect.Append(out, reflect.ValueOf(makeValue(a.Type, []int64{n}, mix64(a.Seed+uint64(i)), -1)))
		}
		if a.Rows >= 2 && ragged(a.List) {
			rows := reflect.MakeSlice(reflect.SliceOf(out.Type()), 0, a.Rows)
			rows = reflect.Append(rows, out)
			for k := 1; k < a.Rows; k++ {
				row := reflect.MakeSlice(out.Type(), 0, len(a.List))
				for i := range a.List {
					h := mix64(a.Seed ^ uint64(k*100+i))
					n := int64(h % 4)
					if a.Seed%2 == 0 {
						n = int64(k % 3) // all of one length
					}
					row = reflect.Append(row, reflect.ValueOf(makeValue(a.Type, []int64{n}, h, -1)))
				}
				rows = reflect.Append(rows, row)
			}
			return rows.Interface()
		}
		return out.Interface()
	}
	if a.Type == "string" {
		return stringOf(mix64(a.Seed), max(a.Len, 0), a.Seed%3 == 0)
	}
	if a.Len < 0 {
		return makeValue(a.Type, nil, a.Seed, -1)
	}
	return makeValue(a.Type, []int64{int64(a.Len)}, a.Seed, -1)
}

func ragged(lens []int64) bool {
	for _, n := range lens {
		if n != lens[0] {
			return true
		}
	}
	return false
}

// readBack is what a reader returns for the attribute: one value is a scalar.
func (a CAttr) readBack() any {
	v := a.value()
	if len(a.List) > 0 {
		if len(a.List) == 1 {
			return reflect.ValueOf(v).Index(0).Interface()
		}
		return v
	}
	if a.Type != "string" && a.Len == 1 {
		return reflect.ValueOf(v).Index(0).Interface()
	}
	return v
}

type CDim struct {
	Name string `json:"n"`
	Len  int64  `json:"l"` // 0: the record dimension
}

type CVar struct {
	Name  string  `json:"n"`
	Type  string  `json:"t"`
	Dims  []int   `json:"d,omitempty"`
	Attrs []CAttr `json:"a,omitempty"`
	Seed  uint64  `json:"s"`
}

// CDFSpec describes a CDF file completely.
type CDFSpec struct {
	Version int     `json:"v"`
	Dims    []CDim  `json:"dims,omitempty"`
	NumRecs int64   `json:"recs,omitempty"`
	Attrs   []CAttr `json:"attrs,omitempty"`
	Vars    []CVar  `json:"vars,omitempty"`
	Gap     int     `json:"gap,omitempty"`   // unused bytes before the data
	Perm    uint64  `json:"perm,omitempty"`  // order in which the variables' data lie in the file
	Holes   uint64  `json:"holes,omitempty"` // unused bytes between the variables' data
	Tags    bool    `json:"tags,omitempty"`  // an empty list is a tag and the number 0
	Tail    int     `json:"tail,omitempty"`  // unused bytes at the end
	places  []place // where Build has put the data
}

func (s *CDFSpec) isRec(v *CVar) bool { return len(v.Dims) > 0 && s.Dims[v.Dims[0]].Len == 0 }

func (s *CDFSpec) shape(v *CVar) []int64 {
	sh := []int64{}
	for _, d := range v.Dims {
		n := s.Dims[d].Len
		if n == 0 {
			n = s.NumRecs
		}
		sh = append(sh, n)
	}
	return sh
}

// slab is the size in bytes of the variable, or of one record of it.
func (s *CDFSpec) slab(v *CVar) int64 {
	n := int64(typeSize[v.Type])
	for i, d := range v.Dims {
		if i == 0 && s.Dims[d].Len == 0 {
			continue
		}
		n *= s.Dims[d].Len
	}
	return n
}

// value is the variable's data as a reader returns it.
func (s *CDFSpec) value(v *CVar) any {
	sh := s.shape(v)
	if v.Type != "string" {
		return makeValue(v.Type, sh, v.Seed, -1)
	}
	if len(sh) == 0 {
		return makeValue("string", nil, v.Seed, 1)
	}
	return makeValue("string", sh[:len(sh)-1], v.Seed, int(sh[len(sh)-1]))
}

func putScalar(b []byte, v reflect.Value) []byte {
	be := binary.BigEndian
	switch v.Kind() {
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Int16:
		return be.AppendUint16(b, uint16(v.Int()))
	case reflect.Uint16:
		return be.AppendUint16(b, uint16(v.Uint()))
	case reflect.Int32:
		return be.AppendUint32(b, uint32(v.Int()))
	case reflect.Uint32:
		return be.AppendUint32(b, uint32(v.Uint()))
	case reflect.Int64:
		return be.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint64:
		return be.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return be.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return be.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		return append(b, v.String()...)
	}
	panic("putScalar: " + v.Kind().String())
}

func putValue(b []byte, v any) []byte {
	for _, s := range flatten(v) {
		b = putScalar(b, s)
	}
	return b
}

func pad4(b []byte, fill byte) []byte {
	for len(b)%4 != 0 {
		b = append(b, fill)
	}
	return b
}

// Build encodes the file.
func (s *CDFSpec) Build() []byte {
	out, begins, pos, recSize := s.layout()
	total := pos + recSize*s.NumRecs + int64(s.Tail)
	data := make([]byte, total-int64(len(out)))
	for i := range data {
		data[i] = 0xEE // padding and gaps hold nothing anyone may rely on
	}
	h := int64(len(out))
	for i := range s.Vars {
		v := &s.Vars[i]
		raw := putValue(nil, s.value(v))
		if !s.isRec(v) {
			copy(data[begins[i]-h:], raw)
			continue
		}
		sl := s.slab(v)
		for r := int64(0); r < s.NumRecs; r++ {
			copy(data[begins[i]-h+r*recSize:], raw[r*sl:(r+1)*sl])
		}
	}
	return append(out, data...)
}

// layout encodes the header and says where the variables begin, where the records
// begin and how large one is.
func (s *CDFSpec) layout() (head []byte, begins []int64, recBegin, recSize int64) {
	be := binary.BigEndian
	var b []byte
	num := func(n int64) {
		if s.Version == 5 {
			b = be.AppendUint64(b, uint64(n))
		} else {
			b = be.AppendUint32(b, uint32(n))
		}
	}
	empty := func(tag uint32) uint32 {
		if s.Tags {
			return tag
		}
		return 0
	}
	name := func(n string) {
		num(int64(len(n)))
		b = pad4(append(b, n...), 0)
	}
	attrs := func(as []CAttr) {
		if len(as) == 0 {
			b = be.AppendUint32(b, empty(12))
			num(0)
			return
		}
		b = be.AppendUint32(b, 12)
		num(int64(len(as)))
		for _, a := range as {
			name(a.Name)
			b = be.AppendUint32(b, nctype[a.Type])
			n := int64(a.Len)
			if n < 0 {
				n = 1
			}
			num(n)
			b = pad4(putValue(b, a.value()), 0)
		}
	}
	header := func(begins []int64) []byte {
		b = append([]byte("CDF"), byte(s.Version))
		num(s.NumRecs)
		if len(s.Dims) == 0 {
			b = be.AppendUint32(b, empty(10))
			num(0)
		} else {
			b = be.AppendUint32(b, 10)
			num(int64(len(s.Dims)))
			for _, d := range s.Dims {
				name(d.Name)
				num(d.Len)
			}
		}
		attrs(s.Attrs)
		if len(s.Vars) == 0 {
			b = be.AppendUint32(b, empty(11))
			num(0)
			return b
		}
		b = be.AppendUint32(b, 11)
		num(int64(len(s.Vars)))
		for i := range s.Vars {
			v := &s.Vars[i]
			name(v.Name)
			num(int64(len(v.Dims)))
			for _, d := range v.Dims {
				num(int64(d))
			}
			attrs(v.Attrs)
			b = be.AppendUint32(b, nctype[v.Type])
			vsize := (s.slab(v) + 3) / 4 * 4
			if s.Version < 5 && vsize > math.MaxUint32-3 {
				vsize = math.MaxUint32 // the field is too small
			}
			num(vsize)
			if s.Version == 1 {
				b = be.AppendUint32(b, uint32(begins[i]))
			} else {
				b = be.AppendUint64(b, uint64(begins[i]))
			}
		}
		return b
	}
	begins = make([]int64, len(s.Vars))
	hlen := int64(len(header(begins)))
	order := make([]int, len(s.Vars))
	for i := range order {
		order[i] = i
	}
	if s.Perm != 0 {
		r := NewRNG(s.Perm)
		for i := len(order) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	pos := hlen + int64(s.Gap)/4*4
	var holes *RNG
	if s.Holes != 0 {
		holes = NewRNG(s.Holes)
	}
	hole := func() {
		if holes != nil && holes.P(60) {
			pos += 4 * int64(holes.Intn(20))
		}
	}
	var recVars []int
	for _, i := range order {
		v := &s.Vars[i]
		if s.isRec(v) {
			recVars = append(recVars, i)
			continue
		}
		hole()
		begins[i] = pos
		pos += (s.slab(v) + 3) / 4 * 4
	}
	hole()
	// One record variable alone is packed without padding.
	for _, i := range recVars {
		begins[i] = pos + recSize
		if len(recVars) == 1 {
			recSize += s.slab(&s.Vars[i])
		} else {
			recSize += (s.slab(&s.Vars[i]) + 3) / 4 * 4
		}
	}
	s.places = make([]place, len(s.Vars))
	for i := range s.Vars {
		rec := s.isRec(&s.Vars[i])
		s.places[i] = place{begins[i], recSize, s.slab(&s.Vars[i]), rec, rec && len(recVars) == 1}
	}
	return header(begins), begins, pos, recSize
}

// Model is what a reader must see.
func (s *CDFSpec) Model() *MGroup {
	g := &MGroup{Name: "/", HasDims: true}
	for _, a := range s.Attrs {
		g.Attrs = append(g.Attrs, MAttr{Name: a.Name, Val: a.readBack()})
	}
	for _, d := range s.Dims {
		g.Dims = append(g.Dims, MDim{Name: d.Name, Len: uint64(d.Len)})
	}
	for i := range s.Vars {
		v := &s.Vars[i]
		m := &MVar{Name: v.Name, Val: s.value(v), Shape: s.shape(v), Type: cdlTypes[v.Type], GoType: v.Type, RawType: v.Type}
		if v.Type == "string" {
			m.Type = "char"
		}
		for _, d := range v.Dims {
			m.Dims = append(m.Dims, s.Dims[d].Name)
		}
		for _, a := range v.Attrs {
			m.Attrs = append(m.Attrs, MAttr{Name: a.Name, Val: a.readBack()})
		}
		g.Vars = append(g.Vars, m)
	}
	return g
}

// ---- decoder -------------------------------------------------------------

type cdfDecoder struct {
	f   *simNode
	pos int64
	ver int
}

type decodeError string

func (d *cdfDecoder) take(n int64) []byte {
	d.skip(n)
	if d.f.virt == nil {
		return d.f.data[d.pos-n : d.pos]
	}
	r := make([]byte, n)
	d.f.copyTo(r, d.pos-n)
	return r
}
func (d *cdfDecoder) skip(n int64) {
	if n < 0 || d.pos < 0 || d.pos+n > d.f.size() {
		panic(decodeError(fmt.Sprintf("needs %d bytes at %d of %d", n, d.pos, d.f.size())))
	}
	d.pos += n
}
func (d *cdfDecoder) u32() uint32 { return binary.BigEndian.Uint32(d.take(4)) }
func (d *cdfDecoder) u64() uint64 { return binary.BigEndian.Uint64(d.take(8)) }
func (d *cdfDecoder) num() int64 {
	if d.ver == 5 {
		return int64(d.u64())
	}
	return int64(d.u32())
}
func (d *cdfDecoder) padded(n int64) []byte {
	r := d.take(n)
	for _, x := range d.take((4 - n%4) % 4) {
		if x != 0 {
			panic(decodeError("header padding is not zero"))
		}
	}
	return r
}
func (d *cdfDecoder) name() string { return string(d.padded(d.num())) }

var ncNames = func() map[uint32]string {
	m := map[uint32]string{}
	for k, v := range nctype {
		m[v] = k
	}
	return m
}()

func (d *cdfDecoder) typ() string {
	n := d.u32()
	t, ok := ncNames[n]
	if !ok || (n > 6 && d.ver != 5) {
		panic(decodeError(fmt.Sprintf("type %d in a version %d file", n, d.ver)))
	}
	return t
}

func getScalars(ty string, raw []byte) any {
	n := len(raw) / typeSize[ty]
	be := binary.BigEndian
	s := reflect.MakeSlice(reflect.SliceOf(goTypes[ty]), n, n)
	for i := 0; i < n; i++ {
		e := s.Index(i)
		p := raw[i*typeSize[ty]:]
		switch ty {
		case "int8":
			e.SetInt(int64(int8(p[0])))
		case "uint8":
			e.SetUint(uint64(p[0]))
		case "int16":
			e.SetInt(int64(int16(be.Uint16(p))))
		case "uint16":
			e.SetUint(uint64(be.Uint16(p)))
		case "int32":
			e.SetInt(int64(int32(be.Uint32(p))))
		case "uint32":
			e.SetUint(uint64(be.Uint32(p)))
		case "int64":
			e.SetInt(int64(be.Uint64(p)))
		case "uint64":
			e.SetUint(be.Uint64(p))
		case "float32":
			e.SetFloat(float64(math.Float32frombits(be.Uint32(p))))
		case "float64":
			e.SetFloat(math.Float64frombits(be.Uint64(p)))
		}
	}
	return s.Interface()
}

func (d *cdfDecoder) attrs() []MAttr {
	tag, n := d.u32(), d.num()
	if tag == 0 && n == 0 {
		return nil
	}
	if tag != 12 {
		panic(decodeError(fmt.Sprintf("attribute list has tag %d", tag)))
	}
	var out []MAttr
	for i := int64(0); i < n; i++ {
		name := d.name()
		ty := d.typ()
		cnt := d.num()
		raw := d.padded(cnt * int64(typeSize[ty]))
		var v any
		if ty == "string" {
			v = string(raw)
		} else {
			v = getScalars(ty, raw)
			if cnt == 1 {
				v = reflect.ValueOf(v).Index(0).Interface()
			}
		}
		out = append(out, MAttr{Name: name, Val: v})
	}
	return out
}

// decodedCDF is the content of a file in a flat, comparable form.
type decodedCDF struct {
	Version int
	Dims    []CDim
	NumRecs int64
	Attrs   []MAttr
	Vars    []decodedVar
}

type decodedVar struct {
	Name  string
	Type  string
	Dims  []string
	Shape []int64
	Attrs []MAttr
	Flat  any // scalars in row-major order, or the characters
	Place place
}

// place is where a variable's data lie.
type place struct {
	Begin, RecSize, Slab int64
	Rec, Alone           bool // a record variable; the only one
}

// decodeCDF reads a file strictly: anything the specification does not allow is an error.
func decodeCDF(b []byte) (*decodedCDF, error) { return decodeCDFNode(&simNode{data: b}) }

func decodeCDFNode(f *simNode) (out *decodedCDF, err error) {
	defer func() {
		if r := recover(); r != nil {
			de, ok := r.(decodeError)
			if !ok {
				panic(r)
			}
			out, err = nil, fmt.Errorf("malformed file: %s", string(de))
		}
	}()
	d := &cdfDecoder{f: f}
	magic := d.take(4)
	if string(magic[:3]) != "CDF" || (magic[3] != 1 && magic[3] != 2 && magic[3] != 5) {
		panic(decodeError(fmt.Sprintf("magic %q", magic)))
	}
	d.ver = int(magic[3])
	out = &decodedCDF{Version: d.ver}
	out.NumRecs = d.num()
	tag, n := d.u32(), d.num()
	if tag != 10 && !(tag == 0 && n == 0) {
		panic(decodeError("dimension list"))
	}
	nrec := 0
	seen := map[string]bool{}
	for i := int64(0); i < n; i++ {
		nm := d.name()
		if seen[nm] {
			panic(decodeError("dimension " + nm + " defined twice"))
		}
		seen[nm] = true
		l := d.num()
		if l == 0 {
			nrec++
		}
		if most := map[int]int64{1: math.MaxInt32 - 3, 2: math.MaxUint32 - 3, 5: math.MaxInt64 - 3}[d.ver]; l < 0 || l > most {
			panic(decodeError(fmt.Sprintf("dimension %s of length %d in a version %d file", nm, l, d.ver)))
		}
		out.Dims = append(out.Dims, CDim{nm, l})
	}
	if nrec > 1 {
		panic(decodeError("more than one record dimension"))
	}
	out.Attrs = d.attrs()
	tag, n = d.u32(), d.num()
	if tag != 11 && !(tag == 0 && n == 0) {
		panic(decodeError("variable list"))
	}
	type ext struct {
		begin, slab int64
		rec         bool
	}
	var exts []ext
	var large []int64 // variables that are too large unless they come last
	seen = map[string]bool{}
	for i := int64(0); i < n; i++ {
		var v decodedVar
		v.Name = d.name()
		if seen[v.Name] {
			panic(decodeError("variable " + v.Name + " defined twice"))
		}
		seen[v.Name] = true
		nd := d.num()
		rec := false
		elems := int64(1)
		for j := int64(0); j < nd; j++ {
			id := d.num()
			if id < 0 || id >= int64(len(out.Dims)) {
				panic(decodeError("dimension id"))
			}
			l := out.Dims[id].Len
			if l == 0 {
				if j != 0 {
					panic(decodeError("record dimension is not first"))
				}
				rec = true
				l = out.NumRecs
			} else {
				elems *= l
			}
			v.Dims = append(v.Dims, out.Dims[id].Name)
			v.Shape = append(v.Shape, l)
		}
		v.Attrs = d.attrs()
		v.Type = d.typ()
		vsize := d.num()
		slab := elems * int64(typeSize[v.Type])
		want := (slab + 3) / 4 * 4
		if d.ver < 5 && want > math.MaxUint32-3 {
			large = append(large, i)
			want = vsize // it cannot be given
		}
		if vsize != want {
			panic(decodeError(fmt.Sprintf("variable %s: vsize %d, want %d", v.Name, vsize, want)))
		}
		var begin int64
		if d.ver == 1 {
			begin = int64(d.u32())
		} else {
			begin = int64(d.u64())
		}
		exts = append(exts, ext{begin, slab, rec})
		out.Vars = append(out.Vars, v)
	}
	headerEnd := d.pos
	recSize, nrv := int64(0), 0
	for _, e := range exts {
		if e.rec {
			recSize += (e.slab + 3) / 4 * 4
			nrv++
		}
	}
	for _, i := range large {
		for j, e := range exts {
			if int64(j) > i && e.rec == exts[i].rec || e.rec && !exts[i].rec {
				panic(decodeError(fmt.Sprintf("variable %s is too large for version %d", out.Vars[i].Name, d.ver)))
			}
		}
	}
	for i, e := range exts {
		if nrv == 1 && e.rec {
			recSize = e.slab
		}
		if e.begin < headerEnd {
			panic(decodeError(fmt.Sprintf("variable %s starts inside the header", out.Vars[i].Name)))
		}
	}
	// the reference library insists on data in the order of the variables
	for _, rec := range []bool{false, true} {
		prev := headerEnd
		for i, e := range exts {
			if e.rec != rec {
				continue
			}
			if e.begin < prev {
				panic(decodeError(fmt.Sprintf("variable %s starts before the end of the one before", out.Vars[i].Name)))
			}
			prev = e.begin + e.slab
		}
	}
	// no two variables may share bytes
	type span struct {
		a, b int64
		n    string
	}
	var spans []span
	for i, e := range exts {
		var raw []byte
		if !e.rec {
			d.pos = e.begin
			if e.slab > hugeMost && f.virt != nil { // the caller looks at them
				d.skip(e.slab)
			} else {
				raw = d.take(e.slab)
			}
			spans = append(spans, span{e.begin, e.begin + e.slab, out.Vars[i].Name})
		} else {
			for r := int64(0); r < out.NumRecs; r++ {
				d.pos = e.begin + r*recSize
				raw = append(raw, d.take(e.slab)...)
				spans = append(spans, span{e.begin + r*recSize, e.begin + r*recSize + e.slab, out.Vars[i].Name})
			}
		}
		out.Vars[i].Place = place{e.begin, recSize, e.slab, e.rec, e.rec && nrv == 1}
		if out.Vars[i].Type == "string" {
			out.Vars[i].Flat = string(raw)
		} else {
			out.Vars[i].Flat = getScalars(out.Vars[i].Type, raw)
		}
	}
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i := 1; i < len(spans); i++ {
		if spans[i].a < spans[i-1].b && spans[i].b > spans[i].a {
			panic(decodeError(fmt.Sprintf("variables %s and %s overlap", spans[i-1].n, spans[i].n)))
		}
	}
	return out, nil
}

// compareDecoded checks an independently decoded file against the model.
func compareDecoded(d *decodedCDF, m *MGroup) *diff {
	cmp := func(where string, got, want []MAttr) *diff {
		if len(got) != len(want) {
			return mkdiff("raw-attr-list", "%s: %d attributes, want %d", where, len(got), len(want))
		}
		for i := range got {
			if got[i].Name != want[i].Name {
				return mkdiff("raw-attr-list", "%s: attribute %q, want %q", where, got[i].Name, want[i].Name)
			}
			if s := sameValue(got[i].Val, want[i].Val); s != "" {
				return mkdiff("raw-attr-value", "%s: attribute %q: %s", where, got[i].Name, s)
			}
		}
		return nil
	}
	if x := cmp("global", d.Attrs, m.Attrs); x != nil {
		return x
	}
	if len(d.Dims) != len(m.Dims) {
		return mkdiff("raw-dim-list", "dimensions %v, want %v", d.Dims, m.Dims)
	}
	for i := range d.Dims {
		if (d.Dims[i].Name != m.Dims[i].Name && m.Dims[i].Name != "*") || uint64(d.Dims[i].Len) != m.Dims[i].Len {
			return mkdiff("raw-dim-list", "dimensions %v, want %v", d.Dims, m.Dims)
		}
	}
	if len(d.Vars) != len(m.Vars) {
		return mkdiff("raw-var-list", "%d variables, want %d", len(d.Vars), len(m.Vars))
	}
	for i := range d.Vars {
		g, w := &d.Vars[i], m.Vars[i]
		if g.Name != w.Name {
			return mkdiff("raw-var-list", "variable %q, want %q", g.Name, w.Name)
		}
		if g.Type != w.RawType {
			return mkdiff("raw-var-type", "%s: type %s, want %s", g.Name, g.Type, w.RawType)
		}
		if !sameList(g.Dims, w.Dims, false) || fmt.Sprint(g.Shape) != fmt.Sprint(append([]int64(nil), w.Shape...)) {
			return mkdiff("raw-var-dims", "%s: %v %v, want %v %v", g.Name, g.Dims, g.Shape, w.Dims, w.Shape)
		}
		if x := cmp(g.Name, g.Attrs, w.Attrs); x != nil {
			return x
		}
		if w.Huge != nil {
			continue
		}
		if g.Type == "string" {
			if want := string(putValue(nil, w.Val)); g.Flat.(string) != want {
				return mkdiff("raw-var-value", "%s: %q, want %q", g.Name, cut(g.Flat.(string)), cut(want))
			}
			continue
		}
		want := flatten(w.Val)
		got := reflect.ValueOf(g.Flat)
		if got.Len() != len(want) {
			return mkdiff("raw-var-value", "%s: %d elements, want %d", g.Name, got.Len(), len(want))
		}
		for j := range want {
			if s := sameRV(got.Index(j), want[j], ""); s != "" {
				return mkdiff("raw-var-value", "%s: element %d: %s", g.Name, j, s)
			}
		}
	}
	return nil
}
