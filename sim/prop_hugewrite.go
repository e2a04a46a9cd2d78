package main

// C19: writing files of more than 2 and 4 GiB.  A large variable is made of a few distinct
// rows that its slices share, and the storage keeps one copy of pieces that are alike, so
// that every byte can be checked and few need to be held.

import (
	"bytes"
	"hash/maphash"
	"reflect"
	"slices"
	"sort"
)

// ---- storage --------------------------------------------------------------------

// pieces is the contents of a file, as the pieces it was written in.
type pieces struct {
	at    []int64 // where each piece begins
	data  [][]byte
	n     int64
	known map[uint64][]byte
	held  int64
}

var pieceSeed = maphash.MakeSeed()

const piecesMost = 512 << 20 // a writer that needs more is not followed

func (s *pieces) size() int64 { return s.n }

// keep returns a copy of p, the same one for pieces that are alike.
func (s *pieces) keep(p []byte) []byte {
	h := maphash.Bytes(pieceSeed, p)
	if q := s.known[h]; bytes.Equal(q, p) {
		return q
	}
	s.held += int64(len(p))
	if s.held > piecesMost {
		panic(unfollowable{})
	}
	q := bytes.Clone(p)
	if s.known == nil {
		s.known = map[uint64][]byte{}
	}
	s.known[h] = q
	return q
}

type unfollowable struct{}

func (s *pieces) write(p []byte, pos int64) {
	for pos > s.n { // a hole
		z := min(pos-s.n, 1<<20)
		s.write(make([]byte, z), s.n)
	}
	end := pos + int64(len(p))
	if len(p) == 0 {
		return
	}
	if pos == s.n {
		s.at, s.data, s.n = append(s.at, pos), append(s.data, s.keep(p)), end
		return
	}
	// over what is there
	i, j := s.index(pos), s.index(min(end, s.n)-1)
	at, data := []int64{}, [][]byte{}
	if k := pos - s.at[i]; k > 0 {
		at, data = append(at, s.at[i]), append(data, s.data[i][:k])
	}
	at, data = append(at, pos), append(data, s.keep(p))
	if k := s.at[j] + int64(len(s.data[j])) - end; k > 0 {
		at, data = append(at, end), append(data, s.data[j][int64(len(s.data[j]))-k:])
	}
	s.at = slices.Replace(s.at, i, j+1, at...)
	s.data = slices.Replace(s.data, i, j+1, data...)
	s.n = max(s.n, end)
}

// index is the piece that pos is in.
func (s *pieces) index(pos int64) int {
	return sort.Search(len(s.at), func(i int) bool { return s.at[i] > pos }) - 1
}

func (s *pieces) fill(p []byte, pos int64) {
	for i := s.index(pos); len(p) > 0; i++ {
		k := copy(p, s.data[i][pos-s.at[i]:])
		p, pos = p[k:], pos+int64(k)
	}
}

// ---- values ---------------------------------------------------------------------

const rowKinds = 4

// row is the contents of the rows of the given kind.
func (o *WOp) row(kind int) any {
	seed := mix64(o.Seed + uint64(kind)*977)
	if o.Type == "string" {
		b := make([]byte, o.Row)
		for i := range b {
			b[i] = 'a' + byte(mix64(seed^uint64(i))%26)
		}
		return string(b)
	}
	return makeValue(o.Type, []int64{o.Row}, seed, -1)
}

// rowKind says of which kind a row is.
func (o *WOp) rowKind(i int64) int { return int(mix64(o.Seed^mix64(uint64(i))) % rowKinds) }

// hugeValues builds the argument to AddVar of shape Shape, Row.
func (o *WOp) hugeValues() any {
	var kinds [rowKinds]reflect.Value
	for k := range kinds {
		kinds[k] = reflect.ValueOf(o.row(k))
	}
	i := int64(-1)
	var build func(sh []int64) reflect.Value
	build = func(sh []int64) reflect.Value {
		if len(sh) == 0 {
			i++
			return kinds[o.rowKind(i)]
		}
		t := kinds[0].Type()
		for range sh {
			t = reflect.SliceOf(t)
		}
		s := reflect.MakeSlice(t, int(sh[0]), int(sh[0]))
		for k := range int(sh[0]) {
			s.Index(k).Set(build(sh[1:]))
		}
		return s
	}
	return build(o.Shape).Interface()
}

func (o *WOp) hugeSize() int64 {
	n := o.Row * int64(typeSize[o.Type])
	for _, d := range o.Shape {
		n *= d
	}
	return n
}

// hugeVar is what the model has for the variable.
func (o *WOp) hugeVar() *hugeVar {
	sh := append(slices.Clone(o.Shape), o.Row)
	es := int64(typeSize[o.Type])
	hv := &hugeVar{shape: sh, rowBytes: es}
	for _, d := range sh[1:] {
		hv.rowBytes *= d
	}
	for _, x := range []int64{1 << 31, 1 << 32} {
		hv.marks = append(hv.marks, x/hv.rowBytes, x/max(hv.rowBytes/es, 1))
	}
	var all any
	hv.part = func(b, e []int64) any {
		if all == nil {
			all = o.hugeValues()
		}
		return subValue(all, b, e)
	}
	return hv
}

// compareRows checks every byte of the variable.
func (o *WOp) compareRows(n *simNode, begin int64) *Violation {
	es := int64(typeSize[o.Type])
	var kinds [rowKinds][]byte
	for k := range kinds {
		kinds[k] = putValue(nil, o.row(k))
	}
	rows := o.hugeSize() / (o.Row * es)
	buf := make([]byte, o.Row*es)
	for i := range rows {
		n.copyTo(buf, begin+i*o.Row*es)
		if want := kinds[o.rowKind(i)]; !bytes.Equal(buf, want) {
			k := 0
			for buf[k] == want[k] {
				k++
			}
			return violf("raw-var-value", "%s: row %d of %d, byte %d (at %d in the file) is %#x, want %#x", o.Name, i, rows, k, begin+i*o.Row*es+int64(k), buf[k], want[k])
		}
	}
	return nil
}

// ---- the property ----------------------------------------------------------------

func runHugeWrite(c *Case, e *Env) (v *Violation) {
	w := e.W
	w.largeFiles = true
	w.maxSteps = 40_000_000
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unfollowable); !ok {
				panic(r)
			}
			e.Trivial = true
			v = nil
		}
	}()
	wr, v := writeAll(c, e)
	if wr == nil {
		return v
	}
	m := wr.state.Model()
	node := w.files[outName]
	dec, err := decodeCDFNode(node)
	if err != nil {
		return violf("malformed", "%v", err)
	}
	if d := compareDecoded(dec, m); d != nil {
		return violDiff("", d)
	}
	large := int64(0)
	for i, o := range wr.state.Root.vars {
		if o.Row > 0 {
			if v := o.compareRows(node, dec.Vars[i].Place.Begin); v != nil {
				return v
			}
			large += o.hugeSize()
			e.probe("large variable compared")
		}
	}
	switch n := node.size(); {
	case n > 1<<32:
		e.probe("file of more than 4 GiB")
	case n > 1<<31:
		e.probe("file of more than 2 GiB")
	}
	n, v := hugeReads(c, e, m, outName)
	e.Trivial = large < 1<<30 || n == 0
	return v
}

func genHugeWrite(r *RNG, c *Case) {
	c.Kind = "cdf"
	g := newGen(r.Fork())
	g.small = true
	c.WOps = g.wHist("cdf", false)
	dims := map[int64]string{}
	add := func(bytes int64) {
		o := WOp{Kind: "var", Group: "/", Name: g.name(), Type: allTypes[r.Intn(len(allTypes))], Seed: r.U64()}
		switch r.Intn(5) {
		case 0, 1:
			o.Type = v2Types[r.Intn(len(v2Types))]
		case 2, 3: // quickly written
			o.Type = pick(r, "float64", "float64", "float32", "int32", "string")
		}
		es := int64(typeSize[o.Type])
		if bytes == 1<<32-4 { // which is 9*7*11*31 times 4*151*331
			o.Type = pick(r, "int8", "int16", "int32", "float32", "string")
			es = int64(typeSize[o.Type])
			o.Row = 4 * 151 * 331 / es
		} else {
			o.Row = int64(1) << r.Range(16, 19) / es
			if r.P(40) {
				o.Row += int64(r.Range(-9, 9))
			}
		}
		n := bytes / (o.Row * es)
		if r.P(30) {
			n += int64(r.Intn(3))
		}
		o.Shape = []int64{max(n, 1)}
		if k := int64(r.Range(2, 4)); n%k == 0 && r.P(40) && o.Row*es*k <= hugeBytes*16 {
			o.Shape = []int64{n / k, k}
		}
		if r.P(70) { // names for the dimensions
			for _, d := range append(slices.Clone(o.Shape), o.Row) {
				if dims[d] == "" {
					dims[d] = g.name()
				}
				o.Dims = append(o.Dims, dims[d])
			}
			if r.P(20) {
				o.Dims = o.Dims[:r.Intn(len(o.Dims))]
			}
		}
		if r.P(30) {
			o.Attrs = g.attrs(v2Types, 2)
		}
		at := r.Intn(len(c.WOps) + 1)
		c.WOps = slices.Insert(c.WOps, at, o)
	}
	switch r.Intn(8) {
	case 0, 1: // one of about 2 GiB
		add(pick(r, int64(1)<<31, 1<<31+1<<20, 1<<31-1<<20, 1<<31-4))
	case 2, 3: // two that cross 2 GiB together
		add(r.I64n(1<<30) + 1<<30)
		add(r.I64n(1<<29) + 1<<30)
	case 4: // one of about 4 GiB
		add(pick(r, int64(1)<<32, 1<<32+1<<20, 1<<32-4))
	case 5: // or a little less
		add(1<<32 - 4)
	default: // several that cross 4 GiB together
		add(r.I64n(1<<30) + 3<<29)
		add(r.I64n(1<<30) + 3<<29)
		if r.P(50) {
			add(1<<30 + r.I64n(1<<20))
		}
	}
	if r.P(25) {
		f := Fault{Op: "wbytes", Kind: pick(r, "eio", "enospc"), N: -1}
		f.Nth = int(pick(r, r.I64n(1<<32), int64(1)<<31, 1<<31-1, 1<<32, 1<<32-1, 1<<31+r.I64n(1<<20)))
		if r.P(20) {
			f = Fault{Op: "close", Kind: "eio"}
		}
		c.Faults = []Fault{f}
	}
	st := NewWState("cdf")
	for i := range c.WOps {
		st.Apply(&c.WOps[i])
	}
	genHugeReads(r, c, st.Model())
}

func init() {
	register(&Prop{ID: "C19", Quick: 64, Thorough: 1500, Run: runHugeWrite, Gen: genHugeWrite, Slow: true})
}
