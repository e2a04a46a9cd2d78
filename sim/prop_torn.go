package main

// C04: what a crash leaves behind.

import (
	"math"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// defaultFill is the fill value of the format, by type.
var defaultFill = map[string]any{
	"int8": int8(-127), "string": "\x00", "int16": int16(-32767), "int32": int32(-2147483647),
	"float32": math.Float32frombits(0x7cf00000), "float64": math.Float64frombits(0x479e000000000000),
	"uint8": uint8(255), "uint16": uint16(65535), "uint32": uint32(4294967295),
	"int64": int64(-9223372036854775806), "uint64": uint64(0xfffffffffffffffe),
}

// tornValue is what a variable may read as when the file ends at cut: elements
// wholly or partly beyond the end are the fill value.  ok is false if the
// variable has a record that is cut, when there must be an error.
func tornValue(v *MVar, p place, cut int64) (val any, missing int) {
	size := int64(typeSize[v.RawType])
	val = deepCopy(v.Val)
	fill := defaultFill[v.RawType]
	for _, a := range v.Attrs {
		if a.Name == "_FillValue" && reflect.TypeOf(a.Val) == reflect.TypeOf(fill) {
			fill = a.Val
		}
	}
	pos := func(i int64) int64 {
		if !p.Rec {
			return p.Begin + i*size
		}
		per := p.Slab / size
		if per == 0 {
			return p.Begin
		}
		return p.Begin + i/per*p.RecSize + i%per*size
	}
	i := int64(0)
	var walk func(rv reflect.Value) reflect.Value
	walk = func(rv reflect.Value) reflect.Value {
		switch rv.Kind() {
		case reflect.Slice:
			for k := 0; k < rv.Len(); k++ {
				rv.Index(k).Set(walk(rv.Index(k)))
			}
			return rv
		case reflect.String:
			b := []byte(rv.String())
			for k := range b {
				if pos(i)+size > cut {
					b[k] = fill.(string)[0]
					missing++
				}
				i++
			}
			return reflect.ValueOf(string(b))
		}
		at := i
		i++
		if pos(at)+size > cut {
			missing++
			return reflect.ValueOf(fill)
		}
		return rv
	}
	val = walk(reflect.ValueOf(val)).Interface()
	return val, missing
}

// compareTorn accepts errors, but no wrong data.
func compareTorn(e *Env, g api.Group, m *MGroup, path string, places map[string]place, cut int64, r *RNG) *diff {
	attrs := func(am api.AttributeMap, want []MAttr, anyOrder bool, where string) *diff {
		if am == nil {
			return nil
		}
		return compareAttrs(am, want, anyOrder, where)
	}
	if d := attrs(g.Attributes(), m.Attrs, m.AnyAttrOrder, path); d != nil {
		return d
	}
	var vn, gn []string
	for _, v := range m.Vars {
		vn = append(vn, v.Name)
	}
	for _, s := range m.Groups {
		gn = append(gn, s.Name)
	}
	if got := g.ListVariables(); !sameList(got, vn, m.AnyVarOrder) {
		return mkdiff("var-list", "%s: variables %q, want %q", path, got, vn)
	}
	if got := g.ListSubgroups(); !sameList(got, gn, m.AnyGroupOrder) {
		return mkdiff("group-list", "%s: groups %q, want %q", path, got, gn)
	}
	for _, v := range m.Vars {
		where := path + v.Name
		whole := v.Val
		if p, ok := places[v.Name]; ok && (!p.Rec || p.Alone) {
			var missing int
			whole, missing = tornValue(v, p, cut)
			if missing > 0 {
				e.probe("variable beyond the end")
			}
		}
		vr, err := g.GetVariable(v.Name)
		if err == nil {
			if vr == nil {
				return mkdiff("var-nil", "%s: neither a variable nor an error", where)
			}
			if d := sameValue(vr.Values, whole); d != "" {
				return mkdiff("var-value", "%s: %s", where, d)
			}
			if !sameList(vr.Dimensions, v.Dims, false) {
				return mkdiff("var-dims", "%s: dimensions %q, want %q", where, vr.Dimensions, v.Dims)
			}
			if d := attrs(vr.Attributes, v.Attrs, m.AnyAttrOrder, where); d != nil {
				return d
			}
		} else {
			e.probe("torn variable refused")
		}
		vg, err := g.GetVarGetter(v.Name)
		if err != nil {
			continue
		}
		if d := compareMeta(vg, v, where); d != nil {
			return d
		}
		if d := attrs(vg.Attributes(), v.Attrs, m.AnyAttrOrder, where); d != nil {
			return d
		}
		if v.RawType == "" {
			continue
		}
		for k := 0; k < 4 && len(v.Shape) > 0; k++ {
			n := v.Shape[0]
			b, en := r.I64n(n+1), r.I64n(n+1)
			if b > en {
				b, en = en, b
			}
			if got, err := vg.GetSlice(b, en); err == nil {
				if d := sameValue(got, subValue(whole, []int64{b}, []int64{en})); d != "" {
					return mkdiff("slice-value", "%s[%d:%d]: %s", where, b, en, d)
				}
			}
		}
	}
	for _, s := range m.Groups {
		sg, err := g.GetGroup(s.Name)
		if err != nil {
			continue
		}
		d := compareTorn(e, sg, s, strings.TrimSuffix(path, "/")+"/"+s.Name+"/", nil, cut, r)
		sg.Close()
		if d != nil {
			return d
		}
	}
	return nil
}

func runTorn(c *Case, e *Env) *Violation {
	w := e.W
	var m *MGroup
	var left []byte
	places := map[string]place{}
	if c.Kind == "spec" {
		data := c.CDF.Build()
		for i := range c.CDF.Vars {
			places[c.CDF.Vars[i].Name] = c.CDF.places[i]
		}
		m = c.CDF.Model()
		left = damaged(data, c)
		if len(left) == len(data) {
			e.Trivial = true
		}
	} else {
		whole := writeFile(w, c.Kind, c.WOps)
		if whole == nil {
			e.Trivial = true
			return nil
		}
		if c.Kind == "cdf" {
			dec, err := decodeCDF(whole)
			if err != nil {
				e.Trivial = true // C01 is about that
				return nil
			}
			for _, v := range dec.Vars {
				places[v.Name] = v.Place
			}
		}
		m = sourceModel(c)
		died := func() (died bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(crashPanic); !ok {
						panic(r)
					}
					died = true
				}
			}()
			wr := startWriter(w, c.Kind, outName)
			if wr.openErr != nil {
				return true
			}
			for i := range c.WOps {
				wr.do(&c.WOps[i])
			}
			wr.do(&WOp{Kind: "close", Group: "/"})
			return false
		}()
		left = w.Get(outName)
		e.Trivial = !died || len(left) == len(whole)
		if died {
			e.probe("writer died")
		}
	}
	w2 := NewWorld()
	w2.setDelivery(c.Delivery)
	w2.install()
	defer w.install()
	w2.Put(outName, left)
	g, err := netcdf.Open(outName)
	w.event("survivor of %d bytes: open %v", len(left), err != nil)
	defer func() {
		for k, n := range w2.fired {
			w.fired[k] += n
		}
		w.steps += w2.steps
		w.now += w2.now
	}()
	if err != nil {
		e.probe("torn file refused")
		return nil
	}
	e.probe("torn file opened")
	d := compareTorn(e, g, m, "/", places, int64(len(left)), NewRNG(c.Seed))
	g.Close()
	w.event("compared %v %d", d, w2.logHash)
	return violDiff("", d)
}

func init() {
	register(&Prop{ID: "C04", Quick: 12000, Thorough: 300000, Run: runTorn,
		Gen: func(r *RNG, c *Case) {
			g := newGen(r.Fork())
			switch k := r.Intn(100); {
			case k < 45:
				c.Kind = "spec"
				g.small = r.P(98)
				c.CDF = g.cdfSpec()
			case k < 75:
				c.Kind = "cdf"
				g.small = true
				c.WOps = g.wHist("cdf", false)
			default:
				c.Kind = "hdf5"
				g.small = true
				c.WOps = g.wHist("hdf5", false)
			}
			if r.P(25) {
				genReadDelivery(r, c)
			}
			n := int64(len(caseBytes(c)))
			if n == 0 {
				return
			}
			cut := r.I64n(n) + 1
			switch r.Intn(6) {
			case 0:
				cut = n - r.I64n(min(n, 40))
			case 1:
				cut = r.I64n(min(n, 300)) + 1
			case 2:
				if c.Kind == "spec" && len(c.CDF.places) > 0 {
					// about the end of some element, record or variable
					p := c.CDF.places[r.Intn(len(c.CDF.places))]
					cut = p.Begin + p.Slab*r.I64n(2) + p.RecSize*r.I64n(max(c.CDF.NumRecs, 1)) + int64(r.Range(-9, 9))
					cut = min(max(cut, 1), n)
				}
			}
			if c.Kind == "spec" {
				c.Cut = cut
			} else {
				c.Faults = []Fault{{Op: "wbytes", Nth: int(cut), Kind: "crash", N: -1}}
			}
		}})
}
