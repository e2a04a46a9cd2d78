package main

// C16: what was read can be written.

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

type copier struct {
	w       *World
	e       *Env
	to      string
	refused int
}

// copied is what was read and accepted by the writer.
type copied struct {
	attrs  api.AttributeMap
	vars   []*copiedVar
	groups []*copied
	name   string
}

type copiedVar struct {
	name       string
	v          *api.Variable
	typ, gotyp string
	shape      []int64
}

// builtin has the types that do not depend on how strings are stored.
var builtin = map[string]bool{"byte": true, "ubyte": true, "short": true, "ushort": true, "int": true, "uint": true,
	"int64": true, "uint64": true, "float": true, "double": true}

func (k *copier) group(g api.Group, out api.Writer, name, path string) (*copied, *Violation) {
	c := &copied{name: name}
	if a := writable(g.Attributes()); a != nil && len(a.Keys()) > 0 {
		if err := out.AddAttributes(a); err != nil {
			if v := k.refusal(attrsTellTypes(a, k.to == "cdf"), "%s attributes: %v", path, err); v != nil {
				return nil, v
			}
		} else {
			c.attrs = a
		}
	}
	for _, n := range g.ListVariables() {
		v, err := g.GetVariable(n)
		if err != nil {
			return nil, violf("source", "%s%s: %v", path, n, err)
		}
		vg, err := g.GetVarGetter(n)
		if err != nil {
			return nil, violf("source", "%s%s: %v", path, n, err)
		}
		v.Attributes = writable(v.Attributes)
		shape := vg.Shape()
		if isChars(vg, v.Values) && !(k.to == "cdf" && sameLen(reflect.ValueOf(v.Values), shape[len(shape)-1])) {
			// the characters of a string are no dimension of the values
			shape = shape[:len(shape)-1]
			if len(v.Dimensions) > len(shape) {
				v.Dimensions = v.Dimensions[:len(shape)]
			}
		}
		if len(v.Dimensions) < len(shape) {
			// plain HDF5: without names, the values would be lists of varying length
			v.Dimensions = nil
			for i, d := range shape {
				v.Dimensions = append(v.Dimensions, fmt.Sprintf("d%d_%d", i, d))
			}
		}
		if err := out.AddVar(n, *v); err != nil {
			nd := len(v.Dimensions)
			if isChars(vg, v.Values) && nd == len(vg.Shape()) {
				nd--
			}
			ok := tellsType(reflect.ValueOf(v.Values), nd, true, k.to == "cdf") && attrsTellTypes(v.Attributes, k.to == "cdf") && oneSize(v.Dimensions, shape)
			if v := k.refusal(ok, "%s%s of type %s with dimensions %v: %v", path, n, vg.Type(), v.Dimensions, err); v != nil {
				return nil, v
			}
			continue
		}
		c.vars = append(c.vars, &copiedVar{n, v, vg.Type(), vg.GoType(), shape})
	}
	for _, n := range g.ListSubgroups() {
		s, err := g.GetGroup(n)
		if err != nil {
			return nil, violf("source", "%s%s: %v", path, n, err)
		}
		o, err := out.CreateGroup(n)
		if err != nil {
			s.Close()
			return nil, violf("refused", "group %s%s: %v", path, n, err)
		}
		sub, v := k.group(s, o, n, path+n+"/")
		s.Close()
		if v != nil {
			return nil, v
		}
		c.groups = append(c.groups, sub)
	}
	return c, nil
}

// writable leaves out the attributes whose names are reserved.
func writable(a api.AttributeMap) api.AttributeMap {
	if a == nil {
		return nil
	}
	var keys []string
	vals := map[string]any{}
	for _, n := range a.Keys() {
		if strings.HasPrefix(n, "_") {
			continue
		}
		keys = append(keys, n)
		vals[n], _ = a.Get(n)
	}
	m, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	return m
}

// refusal judges what the writer did not accept.
func (k *copier) refusal(writable bool, f string, a ...any) *Violation {
	k.refused++
	if os.Getenv("COPYNOTE") != "" {
		fmt.Printf("REF %v %s\n", writable, strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
	}
	if !writable {
		return nil
	}
	return violf("refused", f, a...)
}

func oneSize(dims []string, shape []int64) bool {
	sizes := map[string]int64{}
	for i, d := range dims {
		if n, has := sizes[d]; has && n != shape[i] {
			return false // like-named dimensions of two groups
		}
		sizes[d] = shape[i]
	}
	return true
}

// attrsTellTypes tells whether the attributes' types are clear from their values.
func attrsTellTypes(a api.AttributeMap, noEmpty bool) bool {
	if a == nil {
		return true
	}
	for _, n := range a.Keys() {
		v, _ := a.Get(n)
		if v == nil {
			return false
		}
		rv := reflect.ValueOf(v)
		if dataSize(v) > 30000 || !tellsType(rv, 0, false, noEmpty) && !(rv.Kind() == reflect.Slice && !isUser(rv.Type()) && tellsType(rv, 1, false, noEmpty)) {
			return false
		}
	}
	return true
}

func isUser(t reflect.Type) bool {
	switch t.String() {
	case "hdf5.compound", "hdf5.opaque", "hdf5.enumerated":
		return true
	}
	return false
}

// tellsType tells whether the type of what has these many dimensions is clear from
// its value, and is one that netCDF has.
func tellsType(v reflect.Value, dims int, lists, noEmpty bool) bool {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return false
	}
	switch v.Type().String() {
	case "hdf5.enumerated":
		return tellsType(v.Field(0), dims, false, noEmpty)
	case "hdf5.opaque":
		return dims == 0 && v.Len() > 0
	case "hdf5.compound":
		for i := range v.Len() {
			if !tellsType(v.Index(i).FieldByName("Val"), 0, lists, noEmpty) {
				return false
			}
		}
		return dims == 0 && v.Len() > 0
	}
	switch v.Kind() {
	case reflect.String:
		return dims == 0 && !(noEmpty && v.Len() == 0) && !strings.Contains(strings.TrimRight(v.String(), "\x00"), "\x00")
	case reflect.Slice:
		if dims == 0 && !lists {
			return false
		}
		if dims == 0 {
			lists = false
		}
		elem := v.Type().Elem()
		if v.Len() == 0 {
			if dims == 1 && elem.Kind() == reflect.Slice && !isUser(elem) {
				elem = elem.Elem()
			}
			return !noEmpty && dims <= 1 && elem.Kind() != reflect.Slice && !isUser(elem)
		}
		for i := range v.Len() {
			if !tellsType(v.Index(i), max(dims-1, 0), lists, noEmpty) {
				return false
			}
		}
		return true
	}
	return dims == 0
}

func (k *copier) compare(g api.Group, c *copied, path string) *diff {
	if d := k.compareAttrs(g.Attributes(), c.attrs, path); d != nil {
		return d
	}
	var names []string
	for _, v := range c.vars {
		names = append(names, v.name)
	}
	if !sameList(g.ListVariables(), names, k.to == "hdf5") {
		return mkdiff("var-list", "%s: variables %q, want %q", path, g.ListVariables(), names)
	}
	for _, v := range c.vars {
		where := path + v.name
		vr, err := g.GetVariable(v.name)
		if err != nil {
			return mkdiff("var-error", "%s: GetVariable: %v", where, err)
		}
		if d := sameValue(noNULs(vr.Values), noNULs(v.v.Values)); d != "" {
			return mkdiff("var-value", "%s: %s", where, d)
		}
		if !sameList(vr.Dimensions, v.v.Dimensions, false) && !k.chars(vr, v) {
			return mkdiff("var-dims", "%s: dimensions %q, want %q", where, vr.Dimensions, v.v.Dimensions)
		}
		if d := k.compareAttrs(vr.Attributes, v.v.Attributes, where); d != nil {
			return d
		}
		vg, err := g.GetVarGetter(v.name)
		if err != nil {
			return mkdiff("var-error", "%s: GetVarGetter: %v", where, err)
		}
		if builtin[v.typ] && (vg.Type() != v.typ || vg.GoType() != v.gotyp) {
			return mkdiff("var-type", "%s: type %s (%s), want %s (%s)", where, vg.Type(), vg.GoType(), v.typ, v.gotyp)
		}
	}
	names = nil
	for _, s := range c.groups {
		names = append(names, s.name)
	}
	if !sameList(g.ListSubgroups(), names, true) {
		return mkdiff("group-list", "%s: groups %q, want %q", path, g.ListSubgroups(), names)
	}
	for _, s := range c.groups {
		sg, err := g.GetGroup(s.name)
		if err != nil {
			return mkdiff("group-error", "%s: GetGroup(%q): %v", path, s.name, err)
		}
		d := k.compare(sg, s, path+s.name+"/")
		sg.Close()
		if d != nil {
			return d
		}
	}
	return nil
}

// copyAll copies a file and closes the copy.  It returns nil if there is nothing more to
// check.
func copyAll(c *Case, e *Env) (*copier, *copied, *Violation) {
	w := e.W
	data := sourceBytes(c, w)
	if data == nil {
		e.Trivial = true
		return nil, nil, nil
	}
	w.Put(inName, data)
	g, err := openMode(c, w)
	if err != nil {
		return nil, nil, violf("open", "the source cannot be opened: %v", err)
	}
	kind := netcdf.KindHDF5
	if c.Mode == "cdf" {
		kind = netcdf.KindCDF
	}
	out, err := netcdf.OpenWriter(outName, kind)
	if err != nil {
		return nil, nil, violf("create-failed", "OpenWriter: %v", err)
	}
	k := &copier{w: w, e: e, to: c.Mode}
	cp, v := k.group(g, out, "", "/")
	if v != nil {
		return nil, nil, v
	}
	e.Trivial = len(cp.vars)+len(cp.groups) == 0 && cp.attrs == nil
	w.windowFaults = 0
	if err := out.Close(); err != nil {
		if w.windowFaults == 0 {
			return nil, nil, violf("close-failed", "Close: %v, though nothing went wrong in the storage", err)
		}
		return nil, nil, nil
	}
	g.Close()
	w.faults = nil
	return k, cp, nil
}

func runCopy(c *Case, e *Env) *Violation {
	k, cp, v := copyAll(c, e)
	if cp == nil {
		return v
	}
	g, err := openSim(e.W, outName)
	if err != nil {
		return violf("reopen", "the copy cannot be opened: %v", err)
	}
	d := k.compare(g, cp, "/")
	g.Close()
	return violDiff("", d)
}

func init() {
	register(&Prop{ID: "C16", Quick: 15000, Thorough: 400000, Run: runCopy,
		Gen: func(r *RNG, c *Case) {
			genSource(r, c, false)
			c.Mode = "hdf5"
			if isCDF := c.Kind == "spec" || c.Kind == "cdf"; isCDF && r.P(60) {
				c.Mode = "cdf"
			}
			c.P["new"] = int64(r.Intn(2))
			if r.P(30) {
				genWriteFaults(r, c)
			}
			genDelivery(r, c)
		},
	})
}

// isChars tells whether the last dimension is that of the characters in the strings.
func isChars(vg api.VarGetter, v any) bool {
	t := reflect.TypeOf(v)
	depth := 0
	for ; t.Kind() == reflect.Slice; t = t.Elem() {
		depth++
	}
	return t.Kind() == reflect.String && len(vg.Shape()) == depth+1
}

// noNULs leaves out the NULs at the end of strings, which files pad them with.
func noNULs(v any) any {
	if v == nil {
		return nil
	}
	return noNULsRV(reflect.ValueOf(v)).Interface()
}

func noNULsRV(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.String:
		return reflect.ValueOf(strings.TrimRight(v.String(), "\x00")).Convert(v.Type())
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return noNULsRV(v.Elem())
	case reflect.Slice:
		if v.IsNil() || hasNoStrings(v.Type().Elem()) {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := range v.Len() {
			c.Index(i).Set(noNULsRV(v.Index(i)))
		}
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		for i := range v.NumField() {
			if !v.Type().Field(i).IsExported() {
				return v // an enum
			}
			c.Field(i).Set(noNULsRV(v.Field(i)))
		}
		return c
	}
	return v
}

func hasNoStrings(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice:
		return hasNoStrings(t.Elem())
	case reflect.String, reflect.Struct, reflect.Interface:
		return false
	}
	return true
}

// unwrapped takes the element out of lists of one, as attributes do.
func unwrapped(want, got any) any {
	rv := reflect.ValueOf(want)
	for got != nil && rv.Kind() == reflect.Slice && rv.Len() == 1 && rv.Type() != reflect.TypeOf(got) {
		rv = rv.Index(0)
	}
	return rv.Interface()
}

// chars tells whether the last dimension is that of the characters in CDF strings.
func (k *copier) chars(got *api.Variable, want *copiedVar) bool {
	n := len(got.Dimensions)
	return k.to == "cdf" && n == len(want.v.Dimensions)+1 && got.Dimensions[n-1] == "_stringlen_"+want.name &&
		sameList(got.Dimensions[:n-1], want.v.Dimensions, false)
}

func (k *copier) compareAttrs(got, want api.AttributeMap, where string) *diff {
	var gotKeys, wantKeys []string
	if got != nil {
		gotKeys = got.Keys()
	}
	if want != nil {
		wantKeys = want.Keys()
	}
	if !sameList(gotKeys, wantKeys, false) {
		return mkdiff("attr-list", "%s: attributes %q, want %q", where, gotKeys, wantKeys)
	}
	for _, n := range wantKeys {
		w, _ := want.Get(n)
		g, has := got.Get(n)
		if !has {
			return mkdiff("attr-missing", "%s: attribute %q cannot be read", where, n)
		}
		if e := enumForm(w); e != "" && e == enumForm(g) {
			continue
		}
		if d := sameValue(noNULs(g), unwrapped(noNULs(w), g)); d != "" {
			return mkdiff("attr-value", "%s: attribute %q: %s", where, n, d)
		}
	}
	return nil
}

// enumForm describes enums so that a list of enums and an enum of a list are the same.
func enumForm(v any) string {
	if v == nil {
		return ""
	}
	info := ""
	one := func(rv reflect.Value) reflect.Value {
		for rv.Kind() == reflect.Slice && rv.Len() == 1 {
			rv = rv.Index(0)
		}
		return rv
	}
	var walk func(rv reflect.Value) string
	walk = func(rv reflect.Value) string {
		if rv.Kind() == reflect.Slice {
			var elems []string
			for i := range rv.Len() {
				elems = append(elems, walk(rv.Index(i)))
			}
			return "[" + strings.Join(elems, " ") + "]"
		}
		if rv.Kind() != reflect.Struct || rv.Type().String() != "hdf5.enumerated" {
			info = "no enum"
			return ""
		}
		vals := one(rv.Field(0).Elem())
		t := vals.Type()
		for t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		info = fmt.Sprintf("%v %v %v", t, rv.Field(1), rv.Field(2))
		return fmt.Sprintf("%v", vals)
	}
	s := walk(one(reflect.ValueOf(v)))
	if info == "no enum" || info == "" {
		return ""
	}
	return s + " " + info
}

// dataSize is about how many bytes a value has.
func dataSize(v any) int {
	var size func(rv reflect.Value) int
	size = func(rv reflect.Value) int {
		switch rv.Kind() {
		case reflect.Interface:
			return size(rv.Elem())
		case reflect.String:
			return rv.Len() + 16
		case reflect.Slice:
			n := 16
			for i := range rv.Len() {
				n += size(rv.Index(i))
			}
			return n
		case reflect.Struct:
			n := 0
			for i := range rv.NumField() {
				n += size(rv.Field(i))
			}
			return n
		}
		return 8
	}
	return size(reflect.ValueOf(v))
}

// sameLen tells whether all strings have that length.
func sameLen(v reflect.Value, n int64) bool {
	if v.Kind() == reflect.String {
		return int64(v.Len()) == n
	}
	for i := range v.Len() {
		if !sameLen(v.Index(i), n) {
			return false
		}
	}
	return v.Len() > 0
}
