package main

// Reader histories: what a caller does with open files, and the reference every
// result is judged by, namely what a fresh handle on healthy storage returns.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"maps"
	"os"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

const inName = "in.nc"

// Res is what a reader call returned.
type Res struct {
	Skip bool // the call could not be made (no such handle)
	Err  error
	Out  []any
	// for calls that make a handle
	made bool
}

func (r *Res) String() string {
	if r.Err != nil {
		return "error"
	}
	return fmt.Sprintf("%d results %016x", len(r.Out), r.hash())
}

func (r *Res) hash() uint64 {
	h := fnv.New64a()
	for _, o := range r.Out {
		fmt.Fprintf(h, "%T %v\x00", o, o)
	}
	return h.Sum64()
}

// sameRes compares two results; "" means they are the same.
func sameRes(got, want *Res) string {
	if (got.Err != nil) != (want.Err != nil) {
		return fmt.Sprintf("error %v, want %v", got.Err, want.Err)
	}
	if got.Err != nil {
		return ""
	}
	if len(got.Out) != len(want.Out) {
		return fmt.Sprintf("%d results %s, want %d %s", len(got.Out), show(got.Out), len(want.Out), show(want.Out))
	}
	for i := range got.Out {
		if d := sameValue(got.Out[i], want.Out[i]); d != "" {
			return fmt.Sprintf("result %d: %s", i, d)
		}
	}
	return ""
}

// attrsOut lists everything an attribute map offers.
func attrsOut(am api.AttributeMap) []any {
	if am == nil {
		return []any{nil}
	}
	keys := am.Keys()
	out := []any{append([]string{}, keys...)}
	for _, k := range keys {
		v, has := am.Get(k)
		t, hasT := am.GetType(k)
		gt, hasG := am.GetGoType(k)
		out = append(out, v, has, t, hasT, gt, hasG)
	}
	_, has := am.Get("no such attribute")
	return append(out, has)
}

// metaOut lists what a getter says without reading values.
func metaOut(vg api.VarGetter) []any {
	out := []any{vg.Len(), vg.Shape(), vg.Dimensions(), vg.Type(), vg.GoType()}
	return append(out, attrsOut(vg.Attributes())...)
}

// do makes one call on a group handle.  With a getter, slice calls use it.
func readCall(g api.Group, vg api.VarGetter, o *ROp) (res *Res, made api.VarGetter) {
	res = &Res{}
	getter := func() bool {
		if vg == nil {
			vg, res.Err = g.GetVarGetter(o.Name)
			if res.Err == nil && vg == nil {
				res.Err = fmt.Errorf("neither a getter nor an error")
			}
			if res.Err != nil {
				return false
			}
		}
		return true
	}
	switch o.Kind {
	case "attrs":
		res.Out = attrsOut(g.Attributes())
	case "lsvar":
		res.Out = []any{g.ListVariables()}
	case "lsgrp":
		res.Out = []any{g.ListSubgroups()}
	case "lsdim":
		res.Out = []any{g.ListDimensions()}
	case "lstyp":
		res.Out = []any{g.ListTypes()}
	case "dim":
		n, has := g.GetDimension(o.Name)
		res.Out = []any{n, has}
	case "type":
		s, has := g.GetType(o.Name)
		res.Out = []any{s, has}
	case "gotype":
		s, has := g.GetGoType(o.Name)
		res.Out = []any{s, has}
	case "var":
		v, err := g.GetVariable(o.Name)
		res.Err = err
		if err == nil && v == nil {
			res.Out = []any{nil}
		} else if err == nil {
			res.Out = append([]any{v.Values, v.Dimensions}, attrsOut(v.Attributes)...)
		}
	case "getter":
		vg = nil
		if getter() {
			res.Out = metaOut(vg)
		}
	case "meta":
		if getter() {
			res.Out = metaOut(vg)
		}
	case "values":
		if getter() {
			var v any
			v, res.Err = vg.Values()
			res.Out = []any{v}
		}
	case "slice":
		if getter() {
			var v any
			v, res.Err = vg.GetSlice(o.Begin[0], o.End[0])
			res.Out = []any{v}
		}
	case "md":
		if getter() {
			var v any
			v, res.Err = vg.GetSliceMD(append([]int64{}, o.Begin...), append([]int64{}, o.End...))
			res.Out = []any{v}
		}
	default:
		panic(harnessError("unknown reader call " + o.Kind))
	}
	return res, vg
}

// rslot is an open (or closed) handle.
type rslot struct {
	g       api.Group
	path    string // the group
	file    string
	inst    int // which opening of the file it belongs to
	open    bool
	getters map[string]api.VarGetter
}

type RRun struct {
	w     *World
	slots map[int]*rslot
	insts int
}

func newRRun(w *World) *RRun { return &RRun{w: w, slots: map[int]*rslot{}} }

// split makes a table with the same handles.
func (r *RRun) split(id int) *RRun {
	return &RRun{w: r.w, slots: maps.Clone(r.slots), insts: r.insts + id*1000}
}

// join takes over what became of the handles in a table that was split off.
func (r *RRun) join(t *RRun) {
	for id, s := range t.slots {
		r.slots[id] = s
	}
}

// live is how many openings of files still have an open handle.
func (r *RRun) live() int {
	seen := map[int]bool{}
	for _, s := range r.slots {
		if s.open {
			seen[s.inst] = true
		}
	}
	return len(seen)
}

func joinPath(base, rel string) string {
	p := base + "/" + rel
	if strings.HasPrefix(rel, "/") {
		p = rel
	}
	var parts []string
	for _, x := range strings.Split(p, "/") {
		if x != "" {
			parts = append(parts, x)
		}
	}
	return "/" + strings.Join(parts, "/")
}

// do makes a call.  file is what open and new open.
func (r *RRun) do(o *ROp, file string) *Res {
	res := r.do1(o, file)
	if !res.Skip {
		r.w.event("%s -> %s", o, res)
	}
	return res
}

func (r *RRun) do1(o *ROp, file string) *Res {
	if o.G != "" {
		file = o.G
	}
	switch o.Kind {
	case "open", "new":
		if s := r.slots[o.To]; s != nil {
			if s.open {
				return &Res{Skip: true}
			}
		}
		var g api.Group
		var err error
		if o.Kind == "open" {
			g, err = netcdf.Open(file)
		} else {
			var f *simFile
			f, err = r.w.Open(file)
			if err == nil {
				g, err = netcdf.New(f)
				if err != nil {
					f.Close() // it is still ours
				}
			}
		}
		if err == nil && g == nil {
			return &Res{Err: fmt.Errorf("neither a group nor an error")}
		}
		if err == nil {
			r.insts++
			r.slots[o.To] = &rslot{g: g, path: "/", file: file, inst: r.insts, open: true, getters: map[string]api.VarGetter{}}
		}
		return &Res{Err: err, made: err == nil}
	}
	s := r.slots[o.H]
	if s == nil {
		return &Res{Skip: true}
	}
	switch o.Kind {
	case "group":
		if t := r.slots[o.To]; t != nil && t.open {
			return &Res{Skip: true}
		}
		g, err := s.g.GetGroup(o.Name)
		if err == nil && g == nil {
			return &Res{Err: fmt.Errorf("neither a group nor an error")}
		}
		if err == nil {
			r.slots[o.To] = &rslot{g: g, path: joinPath(s.path, o.Name), file: s.file, inst: s.inst, open: true, getters: map[string]api.VarGetter{}}
		}
		return &Res{Err: err, made: err == nil}
	case "close":
		s.g.Close()
		s.open = false
		return &Res{}
	}
	res, vg := readCall(s.g, s.getters[o.Name], o)
	if vg != nil {
		s.getters[o.Name] = vg
	}
	return res
}

// ---- the reference -------------------------------------------------------------

// Oracle answers any reader call with a fresh handle on healthy storage.
type Oracle struct {
	w     *World
	cache map[string]*Res
}

func newOracle(data []byte) *Oracle {
	w := NewWorld()
	w.keepLog = false
	w.Put(inName, data)
	return &Oracle{w: w, cache: map[string]*Res{}}
}

// refPanic is a call that panics even on a fresh handle: C13 is about that.
type refPanic struct{ v any }

// ask answers what the call returns in the group at path.  cur is the world to
// go back to.
func (or *Oracle) ask(cur *World, path string, o *ROp) (res *Res) {
	key := fmt.Sprintf("%s|%s|%s|%v|%v", path, o.Kind, o.Name, o.Begin, o.End)
	if o.Kind == "getter" {
		key = fmt.Sprintf("%s|meta|%s|%v|%v", path, o.Name, o.Begin, o.End)
	}
	if r := or.cache[key]; r != nil {
		return r
	}
	or.w.handles = nil
	or.w.steps = 0
	or.within(cur, func() {
		g, err := netcdf.Open(inName)
		if err != nil {
			res = &Res{Err: err}
			return
		}
		defer g.Close()
		if o.Kind == "group" && o.Name != "" {
			path = joinPath(path, o.Name) // one level at a time, however it is asked
		}
		for _, p := range strings.Split(path, "/") {
			if p == "" {
				continue
			}
			sub, err := g.GetGroup(p)
			if err != nil {
				res = &Res{Err: err}
				return
			}
			defer sub.Close()
			g = sub
		}
		if o.Kind == "group" && o.Name != "" {
			res = &Res{made: true}
			return
		}
		if o.Kind == "group" {
			sub, err := g.GetGroup(o.Name)
			if err == nil {
				sub.Close()
			}
			res = &Res{Err: err, made: err == nil}
			return
		}
		res, _ = readCall(g, nil, o)
	})
	or.cache[key] = res
	return res
}

// within runs f in the reference world, so that the run cannot notice.
func (or *Oracle) within(cur *World, f func()) {
	old := verifMapState
	seedMaps(77)
	or.w.install()
	defer func() {
		verifMapState = old
		cur.install()
	}()
	f()
}

// ---- where files come from -------------------------------------------------------

// writeFile runs a writer history on healthy storage and returns the file.
func writeFile(cur *World, kind string, ops []WOp) []byte {
	w := NewWorld()
	w.keepLog = false
	w.install()
	defer cur.install()
	wr := startWriter(w, kind, outName)
	if wr.openErr != nil {
		return nil
	}
	for i := range ops {
		wr.do(&ops[i])
	}
	if wr.do(&WOp{Kind: "close", Group: "/"}) != nil {
		return nil
	}
	return w.Get(outName)
}

// sourceBytes makes the file a case reads.
func sourceBytes(c *Case, cur *World) []byte {
	switch c.Kind {
	case "spec":
		return c.CDF.Build()
	case "cdf", "hdf5":
		return writeFile(cur, c.Kind, c.WOps)
	case "ref":
		return bytes.Clone(getCDFRefs()[c.P["ref"]].Data)
	case "fix":
		return fixtureData(c.Fixture)
	case "none":
		return nil
	}
	panic(harnessError("unknown source " + c.Kind))
}

// sourceModel is what the file contains, for generating calls.
func sourceModel(c *Case) *MGroup {
	switch c.Kind {
	case "spec":
		return c.CDF.Model()
	case "cdf", "hdf5":
		s := NewWState(c.Kind)
		for i := range c.WOps {
			s.Apply(&c.WOps[i])
		}
		return s.Model()
	case "ref":
		return getCDFRefs()[c.P["ref"]].Spec.Model()
	case "fix":
		return fixtureModel(c.Fixture)
	}
	panic(harnessError("unknown source " + c.Kind))
}

// genSource picks a file to read.
func genSource(r *RNG, c *Case, hdf5Only bool) {
	k := r.Intn(100)
	g := newGen(r.Fork())
	g.low = c.Prop == "C17" || c.Prop == "C16" // they are copied to HDF5
	if hdf5Only && k < 45 {
		k = 45 + r.Intn(55)
	}
	switch {
	case k < 35:
		c.Kind = "spec"
		g.small = r.P(98)
		c.CDF = g.cdfSpec()
	case k < 45:
		c.Kind = "cdf"
		g.small = r.P(98)
		c.WOps = g.wHist("cdf", false)
	case k < 70:
		c.Kind = "hdf5"
		g.small = r.P(98)
		c.WOps = g.wHist("hdf5", false)
	default:
		c.Kind = "fix"
		c.Fixture = pickFixture(r, hdf5Only, false)
	}
}

func isHDF5(c *Case) bool { return c.Kind == "hdf5" || c.Kind == "fix" && fixtureIsHDF5(c.Fixture) }

// ---- generating calls ------------------------------------------------------------

// rgen makes reader histories over a model.
type rgen struct {
	r     *RNG
	root  *MGroup
	slots []rgslot
	next  int
	ops   []ROp
	bad   int // percent of calls that ask for what is not there
	types []string
}

type rgslot struct {
	id   int
	g    *MGroup
	path string
	open bool
}

func newRgen(r *RNG, m *MGroup) *rgen {
	rg := &rgen{r: r, root: m, bad: pick(r, 0, 10, 30)}
	return rg
}

func (g *rgen) add(o ROp) { g.ops = append(g.ops, o) }

func (g *rgen) openRoot(kind string) int {
	id := g.next
	g.next++
	g.add(ROp{Kind: kind, To: id})
	g.slots = append(g.slots, rgslot{id, g.root, "/", true})
	return id
}

// anyPath lists all groups below m.
func groupPaths(m *MGroup, path string, f func(path string, g *MGroup)) {
	f(path, m)
	for _, s := range m.Groups {
		groupPaths(s, joinPath(path, s.Name), f)
	}
}

// openGroup opens a group from some open slot.
func (g *rgen) openGroup() {
	r := g.r
	var open []int
	for i, s := range g.slots {
		if s.open {
			open = append(open, i)
		}
	}
	if len(open) == 0 {
		return
	}
	s := g.slots[open[r.Intn(len(open))]]
	if r.P(g.bad) {
		g.add(ROp{Kind: "group", H: s.id, Name: pick(r, "nosuch", "", "/nosuch", "a/b/c", "."), To: g.next + 1000})
		return
	}
	var paths []string
	var mods []*MGroup
	if r.P(40) {
		groupPaths(g.root, "/", func(p string, m *MGroup) { paths, mods = append(paths, p), append(mods, m) })
	} else {
		groupPaths(s.g, "/", func(p string, m *MGroup) {
			if p != "/" {
				paths, mods = append(paths, p[1:]), append(mods, m)
			}
		})
	}
	if len(paths) == 0 {
		return
	}
	k := r.Intn(len(paths))
	id := g.next
	g.next++
	name := paths[k]
	if len(g.root.Groups) > 0 && r.P(15) { // the same path, written otherwise
		switch r.Intn(4) {
		case 0:
			name += "/"
		case 1:
			name = strings.ReplaceAll(name, "/", "//")
		case 2:
			name = strings.ReplaceAll(name, "/", "///") + "//"
		default:
			name = joinPath(s.path, name)
		}
	}
	g.add(ROp{Kind: "group", H: s.id, Name: name, To: id})
	g.slots = append(g.slots, rgslot{id, mods[k], joinPath(s.path, paths[k]), true})
}

func (g *rgen) slotFor(any bool) *rgslot {
	var c []*rgslot
	for i := range g.slots {
		if g.slots[i].open || any {
			c = append(c, &g.slots[i])
		}
	}
	if len(c) == 0 {
		return nil
	}
	// prefer slots that have something
	for try := 0; try < 3; try++ {
		s := c[g.r.Intn(len(c))]
		if len(s.g.Vars) > 0 {
			return s
		}
	}
	return c[g.r.Intn(len(c))]
}

// call adds one call on the slot.
func (g *rgen) call(s *rgslot, kinds ...string) {
	r := g.r
	if len(kinds) == 0 {
		kinds = []string{"attrs", "lsvar", "lsgrp", "lsdim", "lstyp", "dim", "type", "gotype", "var", "var", "getter", "meta", "values", "slice", "slice", "md", "md"}
	}
	o := ROp{Kind: kinds[r.Intn(len(kinds))], H: s.id}
	switch o.Kind {
	case "dim":
		o.Name = "nosuch"
		if len(s.g.Vars) > 0 && !r.P(g.bad) {
			if v := s.g.Vars[r.Intn(len(s.g.Vars))]; len(v.Dims) > 0 {
				o.Name = v.Dims[r.Intn(len(v.Dims))]
			}
		}
		if len(s.g.Dims) > 0 && !r.P(g.bad) {
			o.Name = s.g.Dims[r.Intn(len(s.g.Dims))].Name
		}
	case "type", "gotype":
		o.Name = "nosuch"
		if len(s.g.Types) > 0 && !r.P(g.bad) {
			o.Name = s.g.Types[r.Intn(len(s.g.Types))]
		}
	case "var", "getter", "meta", "values", "slice", "md":
		o.Name = "nosuch"
		var v *MVar
		if len(s.g.Vars) > 0 && !r.P(g.bad/2) {
			v = s.g.Vars[r.Intn(len(s.g.Vars))]
			o.Name = v.Name
		} else if r.P(50) && len(s.g.Groups) > 0 {
			o.Name = s.g.Groups[0].Name // a group is not a variable
		} else if r.P(50) && len(s.g.Dims) > 0 {
			o.Name = s.g.Dims[0].Name
		}
		var sh []int64
		if v != nil {
			sh = v.Shape
		}
		switch o.Kind {
		case "slice":
			n := int64(1)
			if len(sh) > 0 {
				n = sh[0]
			}
			b, e := g.span(n)
			o.Begin, o.End = []int64{b}, []int64{e}
		case "md":
			o.Begin, o.End = []int64{}, []int64{}
			for _, n := range sh {
				b, e := g.span(n)
				o.Begin, o.End = append(o.Begin, b), append(o.End, e)
			}
			if r.P(g.bad / 3) { // wrong rank
				switch r.Intn(3) {
				case 0:
					o.Begin, o.End = append(o.Begin, 0), append(o.End, 1)
				case 1:
					if len(sh) > 0 {
						o.Begin, o.End = o.Begin[1:], o.End[1:]
					}
				case 2:
					o.End = append(o.End, 0)
				}
			}
		}
	}
	g.add(o)
}

// span picks a range of a dimension of length n.
func (g *rgen) span(n int64) (int64, int64) {
	r := g.r
	if r.P(g.bad / 2) {
		switch r.Intn(8) {
		case 0:
			return -1, 0
		case 1:
			return 0, n + 1
		case 2:
			return n, n + 1
		case 3:
			return 1, 0
		case 4:
			return n + 5, n + 6
		case 5:
			return 0, 1 << 40
		case 6:
			return -1 << 63, 1<<63 - 1
		case 7:
			return n + 1, n + 1
		}
	}
	switch r.Intn(7) {
	case 0:
		return 0, n
	case 1:
		b := r.I64n(n + 1)
		return b, b
	case 2:
		if n > 0 {
			return n - 1, n
		}
	case 3:
		if n > 0 {
			b := r.I64n(n)
			return b, b + 1
		}
	case 4:
		return r.I64n(n + 1), n
	case 5:
		return 0, r.I64n(n + 1)
	}
	b, e := r.I64n(n+1), r.I64n(n+1)
	if b > e {
		b, e = e, b
	}
	return b, e
}

// history makes a history of n calls with handles opened and closed in between.
func (g *rgen) history(n int, handles int, afterClose bool) []ROp {
	r := g.r
	g.openRoot(pick(r, "open", "open", "new"))
	maxSlots := 12
	if r.P(2) { // a long one, perhaps with very many handles
		n = r.Range(n, 600)
		maxSlots = pick(r, 12, 400)
	}
	for len(g.ops) < n {
		open := 0
		for _, s := range g.slots {
			if s.open {
				open++
			}
		}
		k := r.Intn(100)
		switch {
		case open == 0 && !afterClose, open == 0 && k < 50:
			g.openRoot(pick(r, "open", "open", "new"))
		case k < handles && len(g.slots) < maxSlots:
			if r.P(30) {
				g.openRoot(pick(r, "open", "new"))
			} else {
				g.openGroup()
			}
		case k < handles+handles/2:
			s := &g.slots[r.Intn(len(g.slots))]
			if s.open || afterClose {
				g.add(ROp{Kind: "close", H: s.id})
				s.open = false
			}
		default:
			if s := g.slotFor(afterClose && r.P(20)); s != nil {
				g.call(s)
			}
		}
	}
	return g.ops
}

// scribbleRes overwrites what a call handed out.
func scribbleRes(o *ROp, res *Res) {
	if res.Err != nil {
		return
	}
	switch o.Kind {
	case "lsvar", "lsgrp", "lsdim", "lstyp", "values", "slice", "md":
		for _, v := range res.Out {
			scribble(v)
		}
	case "var":
		if len(res.Out) > 1 {
			scribble(res.Out[0])
			scribble(res.Out[1])
		}
	case "getter", "meta":
		scribble(res.Out[1])
		scribble(res.Out[2])
	}
}

var _ = os.ErrClosed
var _ = io.EOF
