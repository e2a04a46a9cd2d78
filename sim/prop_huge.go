package main

// C18: files of more than 4 GiB.  Their contents are computed rather than stored.

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
)

// hugeVar is a variable too large to be held; parts of it can be asked for.
type hugeVar struct {
	shape    []int64
	rowBytes int64
	marks    []int64 // rows where something happens
	part     func(begin, end []int64) any
}

// ---- CDF ------------------------------------------------------------------------

// virtCDF is the contents of the file that a CDFSpec describes.
type virtCDF struct {
	s                        *CDFSpec
	head                     []byte
	begins                   []int64
	recBegin, recSize, total int64
}

func (s *CDFSpec) virtual() *virtCDF {
	v := &virtCDF{s: s}
	v.head, v.begins, v.recBegin, v.recSize = s.layout()
	v.total = v.recBegin + v.recSize*s.NumRecs
	return v
}

func (v *virtCDF) size() int64 { return v.total }

// hugeScalar is element i of a variable; a character is a string of one.
func hugeScalar(v *CVar, i int64) reflect.Value {
	if v.Type == "string" {
		return reflect.ValueOf(string(rune('a' + mix64(v.Seed^mix64(uint64(i)))%26)))
	}
	return scalarAt(v.Type, v.Seed, int(i))
}

// find says where pos lies: in which variable, or -1, at which element and byte of it, and
// how many bytes from there are alike.
func (v *virtCDF) find(pos int64) (which int, elem, at, n int64) {
	n = v.total - pos
	rec := int64(0)
	p := pos
	if v.recSize > 0 && pos >= v.recBegin {
		rec = (pos - v.recBegin) / v.recSize
		p = v.recBegin + (pos-v.recBegin)%v.recSize
		n = v.recBegin + v.recSize - p
	}
	for i := range v.s.Vars {
		cv := &v.s.Vars[i]
		if v.s.isRec(cv) != (v.recSize > 0 && pos >= v.recBegin) {
			continue
		}
		slab := v.s.slab(cv)
		d := p - v.begins[i]
		if d < 0 {
			n = min(n, -d)
			continue
		}
		if d >= slab {
			continue
		}
		es := int64(typeSize[cv.Type])
		return i, rec*(slab/es) + d/es, d % es, es - d%es
	}
	return -1, 0, 0, n
}

func (v *virtCDF) fill(p []byte, pos int64) {
	for len(p) > 0 {
		if pos < int64(len(v.head)) {
			k := copy(p, v.head[pos:])
			p, pos = p[k:], pos+int64(k)
			continue
		}
		which, elem, at, n := v.find(pos)
		n = min(n, int64(len(p)))
		if which < 0 {
			for i := range p[:n] {
				p[i] = 0xEE
			}
		} else {
			copy(p[:n], putScalar(nil, hugeScalar(&v.s.Vars[which], elem))[at:])
		}
		p, pos = p[n:], pos+n
	}
}

// part builds a part of the variable, as a reader returns it.
func (s *CDFSpec) part(v *CVar, begin, end []int64) any {
	sh := s.shape(v)
	char := v.Type == "string"
	depth := len(sh)
	if char {
		depth--
	}
	var build func(k int, flat int64) reflect.Value
	build = func(k int, flat int64) reflect.Value {
		if k == len(sh) {
			return hugeScalar(v, flat)
		}
		if k == depth { // the string
			var b strings.Builder
			for i := begin[k]; i < end[k]; i++ {
				b.WriteString(hugeScalar(v, flat*sh[k]+i).String())
			}
			return reflect.ValueOf(b.String())
		}
		t := goTypes[v.Type]
		for range depth - k {
			t = reflect.SliceOf(t)
		}
		out := reflect.MakeSlice(t, 0, int(end[k]-begin[k]))
		for i := begin[k]; i < end[k]; i++ {
			out = reflect.Append(out, build(k+1, flat*sh[k]+i))
		}
		return out
	}
	return build(0, 0).Interface()
}

const (
	hugeBytes = 1 << 16 // larger variables are not read whole
	hugeMost  = 1 << 26 // no slice that is compared needs to read more
)

// hugeModel is the model of the file; the values of the large variables are left out.
func (s *CDFSpec) hugeModel() *MGroup {
	small := *s
	small.Vars = nil
	m := small.Model()
	v := s.virtual()
	for i := range s.Vars {
		cv := &s.Vars[i]
		sh := s.shape(cv)
		mv := &MVar{Name: cv.Name, Shape: sh, Type: cdlTypes[cv.Type], GoType: cv.Type, RawType: cv.Type}
		if cv.Type == "string" {
			mv.Type = "char"
		}
		for _, d := range cv.Dims {
			mv.Dims = append(mv.Dims, s.Dims[d].Name)
		}
		for _, a := range cv.Attrs {
			mv.Attrs = append(mv.Attrs, MAttr{Name: a.Name, Val: a.readBack()})
		}
		hv := &hugeVar{shape: sh, rowBytes: int64(typeSize[cv.Type])}
		bytes := float64(hv.rowBytes)
		for k, d := range sh {
			bytes *= float64(d)
			if k > 0 {
				hv.rowBytes *= d
			}
		}
		hv.part = func(b, e []int64) any { return s.part(cv, b, e) }
		if bytes <= hugeBytes {
			mv.Val = hv.part(make([]int64, len(sh)), sh)
		} else {
			mv.Huge = hv
			stride := hv.rowBytes
			if s.isRec(cv) {
				stride = v.recSize
			}
			for _, x := range []int64{1 << 31, 1 << 32, 1 << 33} {
				hv.marks = append(hv.marks, (x-v.begins[i])/max(stride, 1), x, x/max(hv.rowBytes, 1), x/max(hv.rowBytes/int64(typeSize[cv.Type]), 1))
			}
		}
		m.Vars = append(m.Vars, mv)
	}
	return m
}

// hugeSpec draws a CDF file of more than 4 GiB.
func (g *gen) hugeSpec() *CDFSpec {
	r := g.r
	s := &CDFSpec{Version: pick(r, 1, 2, 2, 5, 5)}
	types := v2Types
	if s.Version == 5 {
		types = allTypes
	}
	limit := map[int]int64{1: math.MaxInt32 - 3, 2: math.MaxUint32 - 3, 5: 1 << 40}[s.Version]
	long := func() int64 {
		n := pick(r, int64(1)<<30, 1<<31-4, 1<<31, 1<<31+7, 3_000_000_000, 1<<32-4, 1<<32+3, 1<<32+1000, 1<<33+1, 1<<36, r.I64n(1<<33)+1<<28)
		return min(n, limit)
	}
	dim := func(n int64) int {
		s.Dims = append(s.Dims, CDim{g.name(), n})
		return len(s.Dims) - 1
	}
	var little []int
	for range r.Range(1, 3) {
		little = append(little, dim(int64(r.Range(1, 6))))
	}
	s.Attrs = g.attrs(types, 3)
	variable := func(dims ...int) *CVar {
		s.Vars = append(s.Vars, CVar{Name: g.name(), Type: types[r.Intn(len(types))], Seed: r.U64(), Dims: slices.Clone(dims)})
		v := &s.Vars[len(s.Vars)-1]
		if r.P(30) {
			v.Attrs = g.attrs(types, 2)
		}
		return v
	}
	some := func(first ...int) []int { // dimensions, the first ones given
		for range r.Intn(3) {
			first = append(first, little[r.Intn(len(little))])
		}
		return first
	}
	smallFixed := func() {
		for range r.Intn(4) {
			variable(some()...)
		}
	}
	// Before version 5 the size of a variable, or of one record, must be less than 4 GiB,
	// unless it is the last.
	shrink := func(v *CVar) {
		if s.Version < 5 && s.slab(v) > math.MaxUint32-3 {
			v.Dims = v.Dims[:1]
			v.Type = "int8"
		}
	}
	switch mode := r.Intn(4); {
	case mode == 0: // a large one at the end
		smallFixed()
		variable(some(dim(long()))...)
	case mode == 1 && s.Version > 1: // large ones, then records
		smallFixed()
		for range r.Range(1, 3) {
			shrink(variable(some(dim(long()))...))
			smallFixed()
		}
		if r.P(60) {
			rec := dim(0)
			s.NumRecs = int64(r.Range(0, 5))
			for range r.Range(1, 3) {
				variable(some(rec)...)
			}
		}
		s.Perm = r.U64()
	case mode <= 2: // very many records
		smallFixed()
		rec := dim(0)
		s.NumRecs = min(long(), 1<<32-2)
		if s.Version == 5 {
			s.NumRecs = long()
		}
		for range r.Range(1, 3) {
			variable(some(rec)...)
		}
		if r.P(50) {
			s.Perm = r.U64()
		}
	default: // large records
		smallFixed()
		rec := dim(0)
		s.NumRecs = int64(r.Range(1, 6))
		for range r.Range(1, 3) {
			variable(some(rec)...)
		}
		variable(rec, dim(long()))
		if s.Version == 5 && r.P(60) {
			variable(some(rec)...)
			s.Perm = r.U64()
		}
	}
	return s
}

// ---- HDF5 -----------------------------------------------------------------------

// fxHuge is what a fixture says in addition if the file is very large.
type fxHuge struct {
	Size    int64      `json:"size"`
	Extents [][2]int64 `json:"extents"` // what the data are of
	Vars    map[string]struct {
		Regions [][2][]int64 `json:"regions"` // where something was written
		Fill    []int        `json:"fill"`
	} `json:"vars"`
}

// sparse is a file of which most is zero.
type sparse struct {
	n    int64
	ext  [][2]int64
	offs []int64 // where an extent's data are
	data []byte
}

func newSparse(h *fxHuge, data []byte) *sparse {
	s := &sparse{n: h.Size, ext: h.Extents, data: data}
	at := int64(0)
	for _, e := range h.Extents {
		s.offs = append(s.offs, at)
		at += e[1]
	}
	if at != int64(len(data)) {
		panic(harnessError("bad extents"))
	}
	return s
}

func (s *sparse) size() int64 { return s.n }

func (s *sparse) fill(p []byte, pos int64) {
	clear(p)
	end := pos + int64(len(p))
	i := sort.Search(len(s.ext), func(i int) bool { return s.ext[i][0]+s.ext[i][1] > pos })
	for ; i < len(s.ext) && s.ext[i][0] < end; i++ {
		a, b := max(pos, s.ext[i][0]), min(end, s.ext[i][0]+s.ext[i][1])
		copy(p[a-pos:b-pos], s.data[s.offs[i]+a-s.ext[i][0]:])
	}
}

// patternByte and hugeElem must agree with fix/mkhuge.py.
func patternByte(x int64) byte { return byte(uint64(x) * 0x9E3779B97F4A7C15 >> 56) }

// hugeRaw is element i as it was written, in the machine's byte order.
func (t *fxType) hugeRaw(i int64) []byte {
	b := make([]byte, t.Size)
	for j := range b {
		b[j] = patternByte(i*int64(t.Size) + int64(j))
	}
	switch t.K {
	case "float":
		b[len(b)-1] &= 0xbf
	case "str":
		for j := range b {
			b[j] = 'a' + b[j]%26
		}
	case "enum":
		n, _ := t.Values[int64(patternByte(i))%int64(len(t.Values))].Int64()
		var x [8]byte
		binary.LittleEndian.PutUint64(x[:], uint64(n))
		copy(b, x[:])
	}
	return b
}

// hugeJSON is what a raw element is in a fxVal.
func (t *fxType) hugeJSON(b []byte) any {
	switch t.K {
	case "enum":
		return t.Base.hugeJSON(b)
	case "str":
		s := make([]rune, len(b))
		for i, c := range b {
			s[i] = rune(c)
		}
		return string(s)
	case "opaque":
		return hex.EncodeToString(b)
	}
	var x [8]byte
	copy(x[:], b)
	u := binary.LittleEndian.Uint64(x[:])
	if t.K == "int" && t.Signed {
		sh := 64 - 8*t.Size
		return json.Number(fmt.Sprint(int64(u<<sh) >> sh))
	}
	return json.Number(fmt.Sprint(u))
}

func (f *fixture) huge(path string, v *fxVal) *hugeVar {
	h := f.file.Huge.Vars[path]
	fill := make([]byte, v.Type.Size)
	for i, x := range h.Fill {
		fill[i] = byte(x)
	}
	hv := &hugeVar{shape: v.Shape, rowBytes: int64(v.Type.Size)}
	for _, d := range v.Shape[1:] {
		hv.rowBytes *= d
	}
	for _, r := range h.Regions {
		hv.marks = append(hv.marks, r[0][0], r[0][0], r[0][0]+r[1][0])
	}
	for _, x := range []int64{1 << 31, 1 << 32, 1 << 33} {
		hv.marks = append(hv.marks, x, x/hv.rowBytes, x/(hv.rowBytes/int64(v.Type.Size)))
	}
	hv.part = func(b, e []int64) any {
		out := &fxVal{Type: v.Type}
		for k := range b {
			out.Shape = append(out.Shape, e[k]-b[k])
		}
		at := make([]int64, len(b))
		var walk func(k int, flat int64)
		walk = func(k int, flat int64) {
			if k < len(b) {
				for at[k] = b[k]; at[k] < e[k]; at[k]++ {
					walk(k+1, flat*v.Shape[k]+at[k])
				}
				return
			}
			raw := fill
			for _, r := range h.Regions {
				in := true
				for k := range at {
					in = in && at[k] >= r[0][k] && at[k] < r[0][k]+r[1][k]
				}
				if in {
					raw = v.Type.hugeRaw(flat)
				}
			}
			out.Data = append(out.Data, v.Type.hugeJSON(raw))
		}
		walk(0, 0)
		return out
	}
	return hv
}

// ---- the property ----------------------------------------------------------------

func hugeModelOf(c *Case) *MGroup {
	if c.Kind == "fix" {
		return fixtureModel(c.Fixture)
	}
	return c.CDF.hugeModel()
}

func allVars(m *MGroup, path string, f func(path string, v *MVar)) {
	for _, v := range m.Vars {
		f(path, v)
	}
	for _, g := range m.Groups {
		allVars(g, strings.TrimSuffix(path, "/")+"/"+g.Name, f)
	}
}

func runHuge(c *Case, e *Env) *Violation {
	w := e.W
	if c.Kind == "fix" {
		fx := getFixture(c.Fixture)
		w.PutVirtual(inName, newSparse(fx.file.Huge, fx.data))
	} else {
		w.PutVirtual(inName, c.CDF.virtual())
	}
	m := hugeModelOf(c)
	n, v := hugeReads(c, e, m, inName)
	e.Trivial = n == 0
	return v
}

// hugeReads makes the calls of the reader and compares; it returns how many were compared.
func hugeReads(c *Case, e *Env, m *MGroup, name string) (n int, _ *Violation) {
	w := e.W
	byPath := map[string]*MVar{}
	allVars(m, "/", func(p string, v *MVar) { byPath[joinPath(p, v.Name)] = v })
	rr := newRRun(w)
	for i := range c.ROps {
		o := &c.ROps[i]
		s := rr.slots[o.H]
		w.windowFaults = 0
		w.bytesRead = 0
		if o.Kind == "walk" {
			if s == nil {
				continue
			}
			if d := compareGroup(s.g, m, "/"); d != nil && w.windowFaults == 0 {
				return n, violDiff("walk:", d)
			}
			n++
			continue
		}
		res := rr.do(o, name)
		if res.Skip || o.Kind == "close" {
			continue
		}
		faulty := w.windowFaults > 0
		if faulty && res.Err != nil {
			e.probe("fault reported")
			continue
		}
		if o.Kind == "open" || o.Kind == "new" || o.Kind == "group" {
			if res.Err != nil {
				return n, violf("open", "%s: %v", o, res.Err)
			}
			continue
		}
		v := byPath[joinPath(s.path, o.Name)]
		if v == nil {
			continue // the run was made smaller
		}
		var b, en []int64
		switch o.Kind {
		case "meta":
			if res.Err != nil {
				return n, violf("meta", "%s: %v", o, res.Err)
			}
			if d := compareMeta(s.getters[o.Name], v, o.Name); d != nil {
				return n, violDiff("", d)
			}
			n++
			continue
		case "values":
			if v.Huge != nil {
				continue
			}
			if res.Err != nil {
				return n, violf("values", "%s: %v", o, res.Err)
			}
			if d := sameValue(res.Out[0], v.Val); d != "" {
				return n, violf("values", "%s: %s", o, d)
			}
			e.probe("small variable compared")
			n++
			continue
		case "slice", "md":
			b, en = slices.Clone(o.Begin), slices.Clone(o.End)
		}
		if v.Huge == nil || len(b) == 0 {
			continue
		}
		if o.Kind == "slice" {
			for _, d := range v.Huge.shape[1:] {
				b, en = append(b, 0), append(en, d)
			}
		}
		valid := len(b) == len(v.Huge.shape) && len(en) == len(b)
		for k := 0; valid && k < len(b); k++ {
			valid = b[k] >= 0 && b[k] <= en[k] && en[k] <= v.Huge.shape[k]
		}
		if !valid {
			if res.Err == nil {
				return n, violf("range-accepted", "%s (shape %v) returned %s", o, v.Huge.shape, show(res.Out[0]))
			}
			e.probe("bad range refused")
			continue
		}
		if (en[0]-b[0])*v.Huge.rowBytes > 64*hugeBytes {
			continue // the run was made smaller, so that it came to ask for very much
		}
		if w.bytesRead > hugeMost {
			return n, violf("slice-cost", "%s (shape %v) read %d bytes", o, v.Huge.shape, w.bytesRead)
		}
		if res.Err != nil {
			return n, violf("slice-error", "%s (shape %v): %v", o, v.Huge.shape, res.Err)
		}
		if d := sameValue(res.Out[0], v.Huge.part(b, en)); d != "" {
			return n, violf("slice-value", "%s (shape %v): %s", o, v.Huge.shape, d)
		}
		e.probe("slice compared")
		n++
	}
	return n, nil
}

func genHuge(r *RNG, c *Case) {
	if r.P(50) {
		c.Kind = "fix"
		c.Fixture = hugeNames[r.Intn(len(hugeNames))]
	} else {
		c.Kind = "spec"
		c.CDF = newGen(r.Fork()).hugeSpec()
	}
	genReadDelivery(r, c)
	if c.Delivery.Mode == "one" || c.Delivery.Size < 64 {
		c.Delivery.Mode, c.Delivery.Size = "chunk", 512
	}
	genHugeReads(r, c, hugeModelOf(c))
	if r.P(20) {
		c.Faults = append(c.Faults, Fault{Op: "read", Nth: r.Intn(150), Kind: pick(r, "eio", "eof", "stall"), Arg: r.Intn(300), N: r.Range(1, 2)})
	}
}

// genHugeReads draws the calls of a reader of a very large file.
func genHugeReads(r *RNG, c *Case, m *MGroup) {
	type where struct {
		h int
		v *MVar
	}
	var all, huge []where
	add := func(o ROp) { c.ROps = append(c.ROps, o) }
	slot := map[string]int{"/": 0}
	add(ROp{Kind: pick(r, "open", "new"), To: 0})
	allVars(m, "/", func(p string, v *MVar) {
		if _, has := slot[p]; !has {
			slot[p] = len(slot)
			add(ROp{Kind: "group", H: 0, To: slot[p], Name: p})
		}
		all = append(all, where{slot[p], v})
		if v.Huge != nil {
			huge = append(huge, where{slot[p], v})
		}
	})
	if len(all) == 0 {
		return
	}
	for range r.Range(6, 24) {
		x := all[r.Intn(len(all))]
		if len(huge) > 0 && r.P(70) {
			x = huge[r.Intn(len(huge))]
		}
		o := ROp{Kind: "values", H: x.h, Name: x.v.Name}
		if r.P(10) {
			o.Kind = "meta"
		}
		if hv := x.v.Huge; hv != nil && o.Kind == "values" {
			o.Kind = pick(r, "slice", "md")
			n := hv.shape[0]
			most := min(40, 16*hugeBytes/max(hv.rowBytes, 1))
			at := r.I64n(n + 1)
			switch r.Intn(5) {
			case 0, 1:
				at = hv.marks[r.Intn(len(hv.marks))]
			case 2:
				at = pick(r, int64(0), n, n-1)
			}
			a := max(0, min(n, at-int64(r.Intn(8))))
			if most == 0 && n > 0 {
				o.Kind = "meta"
			}
			b := min(n, a+r.I64n(most+1))
			if r.P(4) { // not a valid range
				b = pick(r, n+1, n+1<<32, a-1)
				if b < a {
					a = b + 1
				}
			}
			o.Begin, o.End = []int64{a}, []int64{b}
			if o.Kind == "md" {
				for _, d := range hv.shape[1:] {
					p := r.I64n(d + 1)
					o.Begin, o.End = append(o.Begin, p), append(o.End, p+r.I64n(d-p+1))
				}
			}
			if o.Kind == "meta" {
				o.Begin, o.End = nil, nil
			}
		}
		add(o)
	}
	if r.P(30) {
		add(ROp{Kind: "walk", H: 0})
	}
}

func init() {
	register(&Prop{ID: "C18", Quick: 6000, Thorough: 150000, Run: runHuge, Gen: genHuge})
}
