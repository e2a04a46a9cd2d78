package main

// C06 to C10, C12, C13, C15: properties of reading.

import (
	"fmt"
	"os"
	"runtime/metrics"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// openMode opens inName through Open or through New.
func openMode(c *Case, w *World) (api.Group, error) {
	if c.P["new"] == 1 {
		f, err := w.Open(inName)
		if err != nil {
			return nil, err
		}
		g, err := netcdf.New(f)
		if err != nil {
			f.Close()
		}
		return g, err
	}
	return netcdf.Open(inName)
}

// ---- C06, C07 ------------------------------------------------------------------

func runReadExact(c *Case, e *Env) *Violation {
	w := e.W
	w.Put(inName, sourceBytes(c, w))
	m := sourceModel(c)
	g, err := openMode(c, w)
	if err != nil && c.Kind == "fix" && fixtureMayRefuse(c.Fixture) {
		// uses a feature that the library doesn't claim to support
		e.Trivial = true
		w.event("refused %v", err)
		return nil
	}
	if err != nil {
		return violf("open", "the file cannot be opened: %v", err)
	}
	d := compareGroup(g, m, "/")
	g.Close()
	e.Trivial = len(m.Vars) == 0 && len(m.Attrs) == 0 && len(m.Groups) == 0
	w.event("done %v", d)
	return violDiff("", d)
}

func genReadDelivery(r *RNG, c *Case) {
	if r.P(20) {
		return
	}
	c.Delivery = Delivery{Mode: pick(r, "", "one", "rand", "rand", "chunk", "mix"), Size: pick(r, 1, 2, 3, 5, 7, 16, 64, 512, 4096, 4097), EOF: r.P(40), Seed: r.U64()}
	if r.P(30) {
		c.Delivery.Zero = r.Range(1, 20)
	}
}

// ---- C08 -----------------------------------------------------------------------

func runSlices(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	w.Put(inName, data)
	or := newOracle(data)
	rr := newRRun(w)
	n := 0
	for i := range c.ROps {
		o := &c.ROps[i]
		s := rr.slots[o.H]
		res := rr.do(o, inName)
		if res.Skip || s == nil || o.Kind == "close" || o.Kind == "group" || o.Kind == "open" || o.Kind == "new" {
			if res.Err != nil && (o.Kind == "open" || o.Kind == "new") {
				return violf("open", "%s: %v", o, res.Err)
			}
			continue
		}
		switch o.Kind {
		case "slice", "md", "values", "meta", "getter":
		default:
			continue
		}
		whole := or.ask(w, s.path, &ROp{Kind: "values", Name: o.Name})
		meta := or.ask(w, s.path, &ROp{Kind: "meta", Name: o.Name})
		if meta.Err != nil {
			if res.Err == nil {
				return violf("phantom", "%s returned data of a variable that cannot be opened: %v", o, meta.Err)
			}
			continue
		}
		if whole.Err != nil {
			continue // C06 and C07 are about that
		}
		n++
		shape := meta.Out[1].([]int64)
		length := meta.Out[0].(int64)
		if v := shapeMatches(whole.Out[0], shape, length, s.path+" "+o.Name); v != nil {
			return v
		}
		var b, en []int64
		valid := true
		switch o.Kind {
		case "meta", "getter":
			if d := sameRes(res, meta); d != "" {
				return violf("meta", "%s: %s", o, d)
			}
			continue
		case "values":
		case "slice":
			b, en = o.Begin, o.End
			valid = b[0] >= 0 && b[0] <= en[0] && en[0] <= length
			if len(shape) == 0 {
				valid = valid && b[0] < en[0]
				if valid {
					b, en = nil, nil
				}
			}
		case "md":
			b, en = o.Begin, o.End
			valid = len(b) == len(shape) && len(en) == len(shape)
			for k := 0; valid && k < len(b); k++ {
				valid = b[k] >= 0 && b[k] <= en[k] && en[k] <= shape[k]
			}
		}
		if !valid {
			if res.Err == nil {
				return violf("range-accepted", "%s (shape %v) returned %s", o, shape, show(res.Out[0]))
			}
			if len(res.Out) > 0 && res.Out[0] != nil {
				return violf("range-data", "%s (shape %v) returned %s along with an error", o, shape, show(res.Out[0]))
			}
			e.probe("bad range refused")
			continue
		}
		if res.Err != nil {
			return violf("slice-error", "%s (shape %v): %v", o, shape, res.Err)
		}
		want := subValue(whole.Out[0], b, en)
		if d := sameValue(res.Out[0], want); d != "" {
			return violf("slice-value", "%s (shape %v): %s", o, shape, d)
		}
		e.probe("slice compared")
	}
	e.Trivial = n == 0
	return nil
}

// shapeMatches checks that Len and Shape describe the value.
func shapeMatches(v any, shape []int64, length int64, what string) *Violation {
	if len(shape) == 0 {
		if length != 1 {
			return violf("len", "%s: a scalar with Len %d", what, length)
		}
		return nil
	}
	if length != shape[0] {
		return violf("len", "%s: Len %d of shape %v", what, length, shape)
	}
	if d := valueHasShape(v, shape); d != "" {
		return violf("shape", "%s: shape %v, but %s", what, shape, d)
	}
	return nil
}

// ---- C09 -----------------------------------------------------------------------

func runIndependent(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	w.Put(inName, data)
	or := newOracle(data)
	rr := newRRun(w)
	n := 0
	for i := range c.ROps {
		o := &c.ROps[i]
		s := rr.slots[o.H]
		wasOpen := s != nil && s.open
		res := rr.do(o, inName)
		if res.Skip || o.Kind == "close" {
			continue
		}
		if o.Kind == "open" || o.Kind == "new" {
			if res.Err != nil {
				return violf("open", "%s: %v", o, res.Err)
			}
			continue
		}
		if !wasOpen {
			continue
		}
		n++
		if d := sameRes(res, or.ask(w, s.path, o)); d != "" {
			return violf("differs:"+o.Kind, "%s (after %d calls): %s", o, i, d)
		}
		if c.P["scribble"] == 1 {
			scribbleRes(o, res)
		}
	}
	e.Trivial = n < 2
	return nil
}

// ---- C10 -----------------------------------------------------------------------

func runReadFaults(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	w.Put(inName, data)
	or := newOracle(data)
	rr := newRRun(w)
	for i := range c.ROps {
		o := &c.ROps[i]
		s := rr.slots[o.H]
		wasOpen := s != nil && s.open
		w.windowFaults = 0
		res := rr.do(o, inName)
		if res.Skip || o.Kind == "close" {
			continue
		}
		faulty := w.windowFaults > 0
		var want *Res
		if o.Kind == "open" || o.Kind == "new" {
			want = &Res{made: true}
		} else if !wasOpen {
			continue
		} else {
			want = or.ask(w, s.path, o)
		}
		if faulty && res.Err != nil {
			e.probe("fault reported")
			continue
		}
		if faulty && o.Kind == "attrs" && isHDF5(c) && len(res.Out) == 1 && res.Out[0] == nil {
			e.probe("fault reported")
			continue // it has no other way to say so
		}
		if faulty && o.Kind == "dim" && len(res.Out) == 2 && res.Out[1] == false {
			e.probe("fault reported")
			continue // nor has this
		}
		if d := sameRes(res, want); d != "" {
			if faulty {
				return violf("wrong:"+o.Kind, "%s, during which the storage failed: %s", o, d)
			}
			return violf("stuck:"+o.Kind, "%s, with the storage healthy again: %s", o, d)
		}
		if faulty {
			e.probe("fault without consequence")
		}
	}
	n := 0
	for _, k := range w.fired {
		n += k
	}
	e.Trivial = n == 0
	return nil
}

// rehearse counts the storage operations of a history on healthy storage.
func rehearse(c *Case) (counts map[string]int) {
	w := NewWorld()
	w.keepLog = false
	w.install()
	defer func() { recover() }()
	counts = w.counts
	data := sourceBytes(c, w)
	if data == nil {
		return
	}
	w.Put(inName, data)
	rr := newRRun(w)
	for i := range c.ROps {
		rr.do(&c.ROps[i], inName)
	}
	return
}

func genReadFaults(r *RNG, c *Case) {
	counts := rehearse(c)
	for k := pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
		f := Fault{Op: pick(r, "read", "read", "read", "read", "seek", "open")}
		n := counts[f.Op]
		if c.Delivery.Mode != "" {
			n = n * pick(r, 1, 3, 10)
		}
		f.Nth = r.Intn(n + 1)
		if r.P(20) {
			f.Nth = r.Intn(min(n, 8) + 1)
		}
		f.N = pick(r, 1, 1, 1, 2, 3, 10, 100)
		f.Kind = "eio"
		if f.Op == "read" {
			f.Arg = pick(r, 0, 0, 1, 3, 8, 100, 4095)
			if isHDF5(c) && r.P(30) {
				f.Kind = "eof"
			} else if r.P(10) {
				f.Kind = "stall"
				f.Arg = r.Range(1, 100)
			}
		}
		c.Faults = append(c.Faults, f)
	}
}

// ---- C12 -----------------------------------------------------------------------

func runLifecycle(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	good := damaged(data, c)
	healthy := len(c.Faults) == 0 && string(good) == string(data)
	w.Put(inName, good)
	or := newOracle(data)
	rr := newRRun(w)
	check := func(o *ROp) *Violation {
		if l := w.lifecycle(); l != "" {
			return violf("lifecycle", "after %s: %s", o, l)
		}
		if open, live := w.OpenFiles(), rr.live(); open > live {
			return violf("leak", "after %s: %d files open, %d in use", o, open, live)
		} else if open < live {
			return violf("closed-early", "after %s: %d files open, %d in use", o, open, live)
		}
		return nil
	}
	for i := range c.ROps {
		o := &c.ROps[i]
		s := rr.slots[o.H]
		wasOpen := s != nil && s.open
		before := w.counts["read"] + w.counts["seek"] + w.counts["open"]
		res := rr.do(o, inName)
		if res.Skip {
			continue
		}
		if v := check(o); v != nil {
			return v
		}
		switch o.Kind {
		case "open", "new":
			if healthy && res.Err != nil {
				return violf("open", "%s: %v", o, res.Err)
			}
			continue
		case "close":
			if !wasOpen {
				e.probe("closed twice")
			}
			continue
		}
		if !wasOpen {
			e.probe("used after close")
			if after := w.counts["read"] + w.counts["seek"] + w.counts["open"]; after != before {
				return violf("use-after-close", "%s touched the file", o)
			}
			if o.Kind == "group" && res.Err == nil {
				return violf("use-after-close", "%s of a closed handle succeeded", o)
			}
			continue
		}
		if healthy {
			if d := sameRes(res, or.ask(w, s.path, o)); d != "" {
				return violf("differs:"+o.Kind, "%s: %s", o, d)
			}
		}
	}
	for id := 0; id < 2000; id++ {
		if s := rr.slots[id]; s != nil && s.open {
			o := &ROp{Kind: "close", H: id}
			rr.do(o, inName)
			if v := check(o); v != nil {
				return v
			}
		}
	}
	e.Trivial = rr.insts == 0 && len(c.Faults) == 0 && len(c.Corrupt) == 0 && c.Cut == 0
	return nil
}

// damaged applies the case's damage to a copy of the bytes.
func damaged(data []byte, c *Case) []byte {
	out := append([]byte{}, data...)
	for _, x := range c.Corrupt {
		if x.Off < 0 || x.Off >= int64(len(out)) {
			continue
		}
		if x.Set != nil {
			out[x.Off] = *x.Set
		} else {
			out[x.Off] ^= x.Xor
		}
	}
	switch {
	case c.Cut < 0:
		out = out[:0]
	case c.Cut > 0 && c.Cut < int64(len(out)):
		out = out[:c.Cut]
	}
	return out
}

// ---- C13 -----------------------------------------------------------------------

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

const callBudget = 6 << 30 // bytes one call may allocate in all

// walker makes every kind of call on what it finds, whatever it finds.
type walker struct {
	w      *World
	calls  int
	depth  int
	errors int
	values int
	last   uint64
	v      *Violation
}

func (k *walker) did(what string) bool {
	k.calls++
	now := allocated()
	if d := now - k.last; d > callBudget && k.v == nil {
		k.v = violf("memory", "%s allocated %d bytes", what, d)
	}
	k.last = now
	return k.calls < 600 && k.v == nil
}

func (k *walker) group(g api.Group, r *RNG) {
	call := func(o ROp) *Res {
		res, _ := readCall(g, nil, &o)
		if res.Err != nil {
			k.errors++
		} else {
			k.values++
		}
		k.w.event("%s -> %s", o, res)
		k.did(o.String())
		return res
	}
	call(ROp{Kind: "attrs"})
	for _, t := range g.ListTypes() {
		call(ROp{Kind: "type", Name: t})
		if call(ROp{Kind: "gotype", Name: t}); k.calls > 500 {
			return
		}
	}
	for _, d := range g.ListDimensions() {
		if call(ROp{Kind: "dim", Name: d}); k.calls > 500 {
			return
		}
	}
	for _, name := range g.ListVariables() {
		call(ROp{Kind: "var", Name: name})
		vg, err := g.GetVarGetter(name)
		if !k.did("getter " + name) {
			return
		}
		if err != nil {
			k.errors++
			continue
		}
		metaOut(vg)
		sh := vg.Shape()
		use := func(o ROp) {
			res, _ := readCall(g, vg, &o)
			k.w.event("%s -> %s", o, res)
			k.did(o.String())
		}
		n := vg.Len()
		b, e := r.I64n(n+1), r.I64n(n+1)
		use(ROp{Kind: "slice", Name: name, Begin: []int64{min(b, e)}, End: []int64{max(b, e)}})
		use(ROp{Kind: "slice", Name: name, Begin: []int64{n - 1}, End: []int64{n}})
		o := ROp{Kind: "md", Name: name}
		for _, n := range sh {
			b := r.I64n(n)
			o.Begin, o.End = append(o.Begin, b), append(o.End, min(b+2, n))
		}
		use(o)
		use(ROp{Kind: "values", Name: name})
		if k.v != nil {
			return
		}
	}
	for _, s := range g.ListSubgroups() {
		if k.depth > 5 || k.calls > 500 {
			return
		}
		sub, err := g.GetGroup(s)
		if !k.did("group " + s) {
			return
		}
		if err != nil {
			k.errors++
			continue
		}
		k.depth++
		k.group(sub, r)
		k.depth--
		sub.Close()
		if k.v != nil {
			return
		}
	}
}

var decoyBytes []byte

// decoy is a small healthy file.
func decoy() []byte {
	if decoyBytes == nil {
		s := &CDFSpec{Version: 1, Dims: []CDim{{"x", 3}}, Vars: []CVar{{Name: "v", Type: "int32", Dims: []int{0}, Seed: 9}}}
		decoyBytes = s.Build()
	}
	return decoyBytes
}

func runDamage(c *Case, e *Env) *Violation {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil
	}
	w.Put(inName, damaged(data, c))
	w.fired["stored:damage"] += len(c.Corrupt)
	if c.Cut != 0 {
		w.fired["stored:cut"]++
	}
	w.Put("other.nc", decoy())
	other, err := netcdf.Open("other.nc")
	if err != nil {
		return violf("open", "healthy file: %v", err)
	}
	k := &walker{w: w, last: allocated()}
	g, err := openMode(c, w)
	k.did("open")
	if err == nil {
		e.probe("damaged file opened")
		k.group(g, NewRNG(c.Seed))
		g.Close()
		if k.errors > 0 {
			e.probe("damage reported by a call")
		}
	} else {
		e.probe("damaged file refused")
	}
	w.event("open %v", err != nil)
	if k.v != nil {
		return k.v
	}
	if v, err := other.GetVariable("v"); err != nil || sameValue(v.Values, makeValue("int32", []int64{3}, 9, -1)) != "" {
		return violf("other-file", "another file no longer reads: %v %v", v, err)
	}
	other.Close()
	if l := w.lifecycle(); l != "" {
		return violf("lifecycle", "%s", l)
	}
	if n := w.OpenFiles(); n != 0 {
		return violf("leak", "%d files left open", n)
	}
	return nil
}

// genDamage makes the damage: biased to the front and to fields that look like
// sizes, offsets and counts.
func genDamage(r *RNG, c *Case, size int64, data []byte) {
	if size == 0 {
		return
	}
	set := func(off int64, b byte) {
		if off < size {
			c.Corrupt = append(c.Corrupt, Corrupt{Off: off, Set: &b})
		}
	}
	// bytes that are not zero are more likely to mean something
	place := func() int64 {
		for try := 0; ; try++ {
			var o int64
			switch r.Intn(4) {
			case 0:
				o = r.I64n(min(size, 64))
			case 1:
				o = r.I64n(min(size, 1024))
			default:
				o = r.I64n(size)
			}
			if try > 4 || data[o] != 0 && data[o] != 0xff || r.P(20) {
				return o
			}
		}
	}
	switch r.Intn(20) {
	case 0:
		c.Cut = r.I64n(size) + 1
		return
	case 1:
		// random contents behind a proper start
		keep := pick(r, int64(4), 8, 9, 16, 48, 100)
		for i := keep; i < min(size, keep+2000); i++ {
			set(i, byte(r.U64()))
		}
		return
	}
	for k := pick(r, 1, 1, 1, 1, 2, 2, 3, 5); k > 0; k-- {
		o := place()
		switch r.Intn(8) {
		case 0: // a bit
			c.Corrupt = append(c.Corrupt, Corrupt{Off: o, Xor: 1 << r.Intn(8)})
		case 1:
			c.Corrupt = append(c.Corrupt, Corrupt{Off: o, Xor: byte(r.Range(1, 255))})
		case 2:
			set(o, pick(r, byte(0), 1, 0x7f, 0x80, 0xff))
		case 3: // a whole field
			o &^= 3
			b := pick(r, byte(0), 0xff, 0x7f, 0x80)
			for i := int64(0); i < pick(r, int64(2), 4, 8); i++ {
				set(o+i, b)
			}
		case 4: // a small change of a number
			d := pick(r, byte(1), 255, 2, 254, 4, 8)
			set(o, data[o]+d)
		case 5: // an address or count taken from elsewhere in the file
			from := place()
			n := pick(r, int64(1), 2, 4, 8)
			for i := int64(0); i < n && from+i < size; i++ {
				set(o+i, data[from+i])
			}
		case 6: // a big-endian or little-endian number that is just large
			n := pick(r, int64(2), 4, 8)
			for i := int64(0); i < n; i++ {
				b := byte(0)
				if i == 0 || i == n-1 {
					b = byte(r.Intn(128))
				}
				set(o+i, b)
			}
		case 7: // point somewhere in the file
			v := uint64(r.I64n(size))
			n := pick(r, int64(4), 8)
			for i := int64(0); i < n; i++ {
				set(o+i, byte(v>>(8*uint(i))))
			}
		}
	}
}

// ---- C15 -----------------------------------------------------------------------

type transcript []string

func (t *transcript) add(o fmt.Stringer, res *Res) {
	if res.Skip {
		return
	}
	if res.Err != nil {
		*t = append(*t, fmt.Sprintf("%s -> error %v", o, res.Err))
		return
	}
	*t = append(*t, fmt.Sprintf("%s -> %016x %s", o, res.hash(), cut(fmt.Sprint(res.Out...))))
}

// runSame makes the same history twice, with different map orders.
func runSame(c *Case, e *Env) *Violation {
	var first transcript
	var firstBytes []byte
	for pass := 0; pass < 2; pass++ {
		w := NewWorld()
		w.faults = c.Faults
		w.install()
		seedMaps(mix64(c.MapSeed+uint64(pass)*7919) | 1)
		if pass == 1 && c.P["decoy"] == 1 {
			// other files have been read and written before
			w.Put("other.nc", decoy())
			if g, err := netcdf.Open("other.nc"); err == nil {
				g.GetVariable("v")
				defer g.Close()
			}
			writeFile(w, "hdf5", []WOp{{Kind: "var", Group: "/", Name: "zz", Type: "int32", Shape: []int64{2}, Dims: []string{"dd"}, Seed: 3,
				Attrs: []CAttr{{Name: "a", Type: "string", Len: 3, Seed: 2}}}})
			w.counts = map[string]int{}
		}
		var t transcript
		var data []byte
		if c.Kind == "cdf" || c.Kind == "hdf5" {
			wr := startWriter(w, c.Kind, outName)
			if wr.openErr == nil {
				for i := range c.WOps {
					err := wr.do(&c.WOps[i])
					t.add(c.WOps[i], &Res{Out: []any{fmt.Sprint(err)}})
				}
				err := wr.do(&WOp{Kind: "close", Group: "/"})
				t.add(WOp{Kind: "close"}, &Res{Out: []any{fmt.Sprint(err)}})
				data = w.Get(outName)
			}
		} else {
			data = damaged(sourceBytes(c, w), c)
		}
		w.faults = nil
		w.Put(inName, data)
		rr := newRRun(w)
		for i := range c.ROps {
			t.add(c.ROps[i], rr.do(&c.ROps[i], inName))
		}
		e.W.steps += w.steps
		e.W.now += w.now
		if pass == 0 {
			first, firstBytes = t, data
			for _, l := range t {
				e.W.event("%s", l)
			}
			e.Trivial = len(t) < 3
			continue
		}
		e.W.install()
		if string(data) != string(firstBytes) {
			return violf("bytes", "the files differ: %s", bytesDiffer(data, firstBytes))
		}
		for i := range t {
			if i >= len(first) || t[i] != first[i] {
				o := "?"
				if f := strings.Fields(t[i]); len(f) > 0 {
					o = f[0]
				}
				if j := strings.Index(o, "."); j >= 0 {
					o = o[j+1:]
				}
				f := ""
				if i < len(first) {
					f = first[i]
				}
				return violf("varies", "%s, and another time %s", t[i], f)
			}
		}
	}
	return nil
}

func bytesDiffer(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d bytes", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("first at byte %d of %d", i, len(a))
		}
	}
	return "not at all"
}

func (r *Res) size() int { return len(r.Out) }

// readAll makes the calls that read everything, in one group after the other.
func readAll(m *MGroup) []ROp {
	ops := []ROp{{Kind: "open", To: 0}}
	next := 1
	var walk func(h int, g *MGroup)
	walk = func(h int, g *MGroup) {
		for _, k := range []string{"attrs", "lsvar", "lsgrp", "lsdim", "lstyp"} {
			ops = append(ops, ROp{Kind: k, H: h})
		}
		for _, t := range g.Types {
			ops = append(ops, ROp{Kind: "type", H: h, Name: t}, ROp{Kind: "gotype", H: h, Name: t})
		}
		for _, v := range g.Vars {
			ops = append(ops, ROp{Kind: "var", H: h, Name: v.Name}, ROp{Kind: "getter", H: h, Name: v.Name})
			for _, d := range v.Dims {
				ops = append(ops, ROp{Kind: "dim", H: h, Name: d})
			}
		}
		for _, s := range g.Groups {
			id := next
			next++
			ops = append(ops, ROp{Kind: "group", H: h, Name: s.Name, To: id})
			walk(id, s)
		}
	}
	walk(0, m)
	return ops[:min(len(ops), 200)]
}

func init() {
	register(&Prop{ID: "C06", Quick: 60000, Thorough: 300000, Run: runReadExact,
		Gen: func(r *RNG, c *Case) {
			if c.Kind = "spec"; r.P(12) {
				c.Kind = "ref"
				c.P["ref"] = int64(r.Intn(len(getCDFRefs())))
			} else {
				c.CDF = newGen(r.Fork()).cdfSpec()
			}
			c.P["new"] = int64(r.Intn(2))
			genReadDelivery(r, c)
		}})
	register(&Prop{ID: "C07", Quick: 10000, Thorough: 100000, Run: runReadExact,
		Gen: func(r *RNG, c *Case) {
			c.Kind = "fix"
			c.Fixture = pickFixture(r, true, true)
			c.P["new"] = int64(r.Intn(2))
			genReadDelivery(r, c)
			if fixtureBig(c.Fixture) && (c.Delivery.Mode == "one" || c.Delivery.Size < 16) {
				c.Delivery.Mode, c.Delivery.Size = "chunk", 512
			}
		}})
	register(&Prop{ID: "C08", Quick: 10000, Thorough: 200000, Run: runSlices,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			rg := newRgen(r.Fork(), sourceModel(c))
			rg.openRoot("open")
			for k := r.Intn(4); k > 0; k-- {
				rg.openGroup()
			}
			n := r.Range(4, 25)
			if r.P(2) {
				n = r.Range(25, 500)
			}
			for k := n; k > 0; k-- {
				if s := rg.slotFor(false); s != nil {
					rg.call(s, "slice", "slice", "slice", "md", "md", "md", "values", "meta", "getter")
				}
			}
			c.ROps = rg.ops
			if r.P(50) {
				genReadDelivery(r, c)
			}
		}})
	register(&Prop{ID: "C09", Quick: 10000, Thorough: 200000, Run: runIndependent,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			rg := newRgen(r.Fork(), sourceModel(c))
			c.ROps = rg.history(r.Range(8, 50), pick(r, 5, 10, 20), false)
			c.P["scribble"] = int64(r.Intn(2))
			if r.P(30) {
				genReadDelivery(r, c)
			}
		}})
	register(&Prop{ID: "C10", Quick: 10000, Thorough: 200000, Run: runReadFaults,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			m := sourceModel(c)
			rg := newRgen(r.Fork(), m)
			if r.P(30) {
				c.ROps = append(readAll(m), readAll(m)...)
			} else {
				c.ROps = rg.history(r.Range(5, 40), pick(r, 5, 10, 20), false)
				// try again what may have failed
				c.ROps = append(c.ROps, c.ROps...)
			}
			if r.P(40) {
				genReadDelivery(r, c)
			}
			genReadFaults(r, c)
		}})
	register(&Prop{ID: "C12", Quick: 10000, Thorough: 200000, Run: runLifecycle,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			rg := newRgen(r.Fork(), sourceModel(c))
			c.ROps = rg.history(r.Range(6, 40), pick(r, 20, 35, 50), true)
			switch r.Intn(5) {
			case 0:
				genReadFaults(r, c)
			case 1:
				if d := caseBytes(c); len(d) > 0 {
					genDamage(r, c, int64(len(d)), d)
				}
			case 2:
				c.Faults = append(c.Faults, Fault{Op: "close", Nth: r.Intn(6), Kind: "eio", N: pick(r, 1, 2, -1)})
			}
			if r.P(20) {
				genReadDelivery(r, c)
			}
		}})
	register(&Prop{ID: "C13", Quick: 20000, Thorough: 400000, Run: runDamage, DeathIsViolation: true,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			c.P["new"] = int64(r.Intn(2))
			if d := caseBytes(c); len(d) > 0 {
				genDamage(r, c, int64(len(d)), d)
			}
		}})
	register(&Prop{ID: "C15", Quick: 8000, Thorough: 200000, Run: runSame,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			if c.Kind == "cdf" || c.Kind == "hdf5" {
				c.WOps = newGen(r.Fork()).wHist(c.Kind, r.P(20))
			}
			m := sourceModel(c)
			c.ROps = readAll(m)
			if r.P(50) {
				c.ROps = newRgen(r.Fork(), m).history(r.Range(8, 40), 15, false)
			}
			c.P["decoy"] = int64(r.Intn(2))
			if r.P(20) && c.Kind != "cdf" && c.Kind != "hdf5" {
				if d := caseBytes(c); len(d) > 0 {
					genDamage(r, c, int64(len(d)), d)
				}
			}
			if r.P(15) && (c.Kind == "cdf" || c.Kind == "hdf5") {
				genWriteFaults(r, c)
			}
		}})
}

// caseBytes is the file of a case that is still being generated.
func caseBytes(c *Case) (d []byte) {
	w := NewWorld()
	w.keepLog = false
	w.install()
	defer func() { recover() }()
	return sourceBytes(c, w)
}

var _ = os.ErrClosed
