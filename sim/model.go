package main

// The reference model: what a file is supposed to contain, as a reader sees it.

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

type MAttr struct {
	Name         string
	Val          any
	Type, GoType string // without the dimensions; for fixtures
}

type MVar struct {
	Name   string
	Val    any
	Dims   []string
	Shape  []int64
	Attrs  []MAttr
	Type   string // CDL type
	GoType string
	// SliceDims is how many leading dimensions GetSlice/GetSliceMD index.
	RawType      string
	AnyAttrOrder bool
	Refusable    bool     // may be refused with an error
	Huge         *hugeVar // instead of Val: too large to be read
}

type MGroup struct {
	Name     string
	Attrs    []MAttr
	Vars     []*MVar // in the order a reader lists them
	Groups   []*MGroup
	Dims     []MDim
	Types    []string    // names of user-defined types
	TypeDefs [][2]string // their descriptions in CDL and Go
	HasDims  bool        // dimension listing is part of the comparison
	// what the format leaves open
	AnyVarOrder   bool
	AnyGroupOrder bool
	AnyAttrOrder  bool
}

type MDim struct {
	Name string
	Len  uint64
	// MayBeZero: the length, or 0
	MayBeZero bool
}

func (g *MGroup) Var(name string) *MVar {
	for _, v := range g.Vars {
		if v.Name == name {
			return v
		}
	}
	return nil
}

func (g *MGroup) Group(name string) *MGroup {
	for _, v := range g.Groups {
		if v.Name == name {
			return v
		}
	}
	return nil
}

// diff describes a mismatch: Class is stable, Detail is for people.
type diff struct{ Class, Detail string }

func (d *diff) String() string {
	if d == nil {
		return ""
	}
	return d.Class + ": " + d.Detail
}

func mkdiff(class, format string, a ...any) *diff { return &diff{class, fmt.Sprintf(format, a...)} }

func sameList(got, want []string, anyOrder bool) bool {
	if len(got) != len(want) {
		return false
	}
	if anyOrder {
		got, want = append([]string{}, got...), append([]string{}, want...)
		sort.Strings(got)
		sort.Strings(want)
	}
	for i := range got {
		if got[i] != want[i] && want[i] != "*" {
			return false
		}
	}
	return true
}

func compareAttrs(am api.AttributeMap, want []MAttr, anyOrder bool, where string) *diff {
	var names []string
	for _, a := range want {
		names = append(names, a.Name)
	}
	if am == nil {
		if len(want) == 0 {
			return nil
		}
		return mkdiff("attr-missing", "%s: no attributes, want %v", where, names)
	}
	got := append([]string{}, am.Keys()...)
	if !sameList(got, names, anyOrder) {
		return mkdiff("attr-list", "%s: attributes %q, want %q", where, got, names)
	}
	for _, a := range want {
		v, has := am.Get(a.Name)
		if !has {
			return mkdiff("attr-missing", "%s: attribute %q cannot be read", where, a.Name)
		}
		if d := sameValue(v, a.Val); d != "" {
			return mkdiff("attr-value", "%s: attribute %q: %s", where, a.Name, d)
		}
		if d := attrTypes(am, &a, v); d != "" {
			return mkdiff("attr-type", "%s: attribute %q: %s", where, a.Name, d)
		}
	}
	return nil
}

var arrayDims = regexp.MustCompile(`\[[0-9]*\]`)

var cdlBase = map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint",
	"int64": "int64", "uint64": "uint64", "float32": "float", "float64": "double", "string": "string"}

// attrTypes checks that the types an attribute is said to have are those of its value,
// where that is of a builtin type.
func attrTypes(am api.AttributeMap, a *MAttr, v any) string {
	name := a.Name
	gt, hasGo := am.GetGoType(name)
	ct, hasCDL := am.GetType(name)
	if !hasGo || gt == "" || !hasCDL || ct == "" {
		return fmt.Sprintf("has no type: %q %v, %q %v", gt, hasGo, ct, hasCDL)
	}
	if a.Type != "" {
		if rest, ok := strings.CutPrefix(ct, a.Type); !ok || strings.ReplaceAll(rest, "(*)", "") != "" {
			return fmt.Sprintf("CDL type %q, want %q", ct, a.Type)
		}
		if rest, ok := strings.CutSuffix(gt, a.GoType); !ok || strings.ReplaceAll(rest, "[]", "") != "" {
			return fmt.Sprintf("Go type %q, want %q", gt, a.GoType)
		}
	}
	want := fmt.Sprintf("%T", v)
	base := strings.ReplaceAll(want, "[]", "")
	cdl := cdlBase[base]
	if cdl == "" {
		return ""
	}
	gt = arrayDims.ReplaceAllString(gt, "[]")
	if cdlBase[strings.ReplaceAll(gt, "[]", "")] == "" {
		return "" // a user-defined type
	}
	if gt != want {
		return fmt.Sprintf("Go type %q, the value is %s", gt, want)
	}
	if cb, _, _ := strings.Cut(ct, "("); cb != cdl || (cb == ct) != (base == want) {
		return fmt.Sprintf("CDL type %q, the value is %s", ct, want)
	}
	return ""
}

func compareVar(g api.Group, m *MVar, anyAttrOrder bool, where string) *diff {
	where = where + "/" + m.Name
	if m.Huge != nil {
		vg, err := g.GetVarGetter(m.Name)
		if err != nil {
			return mkdiff("var-error", "%s: GetVarGetter: %v", where, err)
		}
		if d := compareMeta(vg, m, where); d != nil {
			return d
		}
		return compareAttrs(vg.Attributes(), m.Attrs, anyAttrOrder, where)
	}
	vr, err := g.GetVariable(m.Name)
	if err != nil {
		if m.Refusable {
			return nil
		}
		return mkdiff("var-error", "%s: GetVariable: %v", where, err)
	}
	if vr == nil {
		return mkdiff("var-nil", "%s: GetVariable returned nothing", where)
	}
	if d := sameValue(vr.Values, m.Val); d != "" {
		return mkdiff("var-value", "%s: %s", where, d)
	}
	if !sameList(vr.Dimensions, m.Dims, false) {
		return mkdiff("var-dims", "%s: dimensions %q, want %q", where, vr.Dimensions, m.Dims)
	}
	if d := compareAttrs(vr.Attributes, m.Attrs, anyAttrOrder, where); d != nil {
		return d
	}
	return compareGetter(g, m, anyAttrOrder, where)
}

func compareGetter(g api.Group, m *MVar, anyAttrOrder bool, where string) *diff {
	vg, err := g.GetVarGetter(m.Name)
	if err != nil {
		return mkdiff("var-error", "%s: GetVarGetter: %v", where, err)
	}
	if d := compareMeta(vg, m, where); d != nil {
		return d
	}
	vals, err := vg.Values()
	if err != nil {
		if m.Refusable {
			return nil
		}
		return mkdiff("var-error", "%s: Values: %v", where, err)
	}
	if d := sameValue(vals, m.Val); d != "" {
		return mkdiff("var-value", "%s: Values: %s", where, d)
	}
	return compareAttrs(vg.Attributes(), m.Attrs, anyAttrOrder, where)
}

func compareMeta(vg api.VarGetter, m *MVar, where string) *diff {
	if sh := vg.Shape(); fmt.Sprint(sh) != fmt.Sprint(append([]int64{}, m.Shape...)) {
		return mkdiff("var-shape", "%s: shape %v, want %v", where, sh, m.Shape)
	}
	want := int64(1)
	if len(m.Shape) > 0 {
		want = m.Shape[0]
	}
	if vg.Len() != want {
		return mkdiff("var-len", "%s: Len %d, want %d", where, vg.Len(), want)
	}
	if !sameList(vg.Dimensions(), m.Dims, false) {
		return mkdiff("var-dims", "%s: dimensions %q, want %q", where, vg.Dimensions(), m.Dims)
	}
	if m.Type != "" && vg.Type() != m.Type {
		return mkdiff("var-type", "%s: Type %q, want %q", where, vg.Type(), m.Type)
	}
	if m.GoType != "" && vg.GoType() != m.GoType {
		return mkdiff("var-type", "%s: GoType %q, want %q", where, vg.GoType(), m.GoType)
	}
	return nil
}

// compareGroup walks everything the API offers and compares it to the model.
func compareGroup(g api.Group, m *MGroup, path string) *diff {
	if d := compareAttrs(g.Attributes(), m.Attrs, m.AnyAttrOrder, path); d != nil {
		return d
	}
	var vn, gn []string
	for _, v := range m.Vars {
		vn = append(vn, v.Name)
	}
	for _, s := range m.Groups {
		gn = append(gn, s.Name)
	}
	if got := g.ListVariables(); !sameList(got, vn, m.AnyVarOrder) {
		return mkdiff("var-list", "%s: variables %q, want %q", path, got, vn)
	}
	if got := g.ListSubgroups(); !sameList(got, gn, m.AnyGroupOrder) {
		return mkdiff("group-list", "%s: groups %q, want %q", path, got, gn)
	}
	if m.HasDims {
		if d := compareDims(g, m, path); d != nil {
			return d
		}
	}
	if d := compareTypes(g, m, path); d != nil {
		return d
	}
	for _, v := range m.Vars {
		if d := compareVar(g, v, m.AnyAttrOrder || v.AnyAttrOrder, path); d != nil {
			return d
		}
	}
	if v, err := g.GetVariable("no such variable"); err == nil {
		return mkdiff("phantom", "%s: a variable that does not exist was returned: %v", path, v)
	}
	for _, s := range m.Groups {
		sg, err := g.GetGroup(s.Name)
		if err != nil {
			return mkdiff("group-error", "%s: GetGroup(%q): %v", path, s.Name, err)
		}
		d := compareGroup(sg, s, strings.TrimSuffix(path, "/")+"/"+s.Name)
		sg.Close()
		if d != nil {
			return d
		}
	}
	return nil
}

func compareDims(g api.Group, m *MGroup, path string) *diff {
	var want []string
	stars := false
	for _, d := range m.Dims {
		want = append(want, d.Name)
		stars = stars || d.Name == "*"
	}
	got := append([]string{}, g.ListDimensions()...)
	if !sameList(got, want, !stars) {
		return mkdiff("dim-list", "%s: dimensions %q, want %q", path, got, want)
	}
	for i, d := range m.Dims {
		if d.Name == "*" {
			d.Name = got[i]
		}
		n, has := g.GetDimension(d.Name)
		if !has || n != d.Len && !(d.MayBeZero && n == 0) {
			return mkdiff("dim-len", "%s: dimension %q is %d (%v), want %d", path, d.Name, n, has, d.Len)
		}
	}
	return nil
}

func compareTypes(g api.Group, m *MGroup, path string) *diff {
	if got := g.ListTypes(); !sameList(got, m.Types, m.AnyVarOrder) {
		return mkdiff("type-list", "%s: types %q, want %q", path, got, m.Types)
	}
	for i, t := range m.Types {
		if len(m.TypeDefs) == 0 {
			break
		}
		if got, has := g.GetType(t); !has || got != m.TypeDefs[i][0] {
			return mkdiff("type-def", "%s: type %q is %q (%v), want %q", path, t, got, has, m.TypeDefs[i][0])
		}
		if got, has := g.GetGoType(t); !has || got != m.TypeDefs[i][1] {
			return mkdiff("type-def", "%s: type %q is %q (%v) in Go, want %q", path, t, got, has, m.TypeDefs[i][1])
		}
	}
	return nil
}
