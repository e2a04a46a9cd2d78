package main

// Values: deterministic data of every NetCDF type, and exact comparison.

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

var v2Types = []string{"int8", "int16", "int32", "float32", "float64", "string"}
var v5Types = []string{"uint8", "uint16", "uint32", "int64", "uint64"}
var allTypes = append(append([]string{}, v2Types...), v5Types...)

var typeSize = map[string]int{"int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4,
	"int64": 8, "uint64": 8, "float32": 4, "float64": 8, "string": 1}

var goTypes = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "uint8": reflect.TypeOf(uint8(0)),
	"int16": reflect.TypeOf(int16(0)), "uint16": reflect.TypeOf(uint16(0)),
	"int32": reflect.TypeOf(int32(0)), "uint32": reflect.TypeOf(uint32(0)),
	"int64": reflect.TypeOf(int64(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""),
}

var cdlTypes = map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort",
	"int32": "int", "uint32": "uint", "int64": "int64", "uint64": "uint64",
	"float32": "float", "float64": "double", "string": "string"}

// scalarAt makes element i of the value with the given seed.  Every element
// differs from its neighbours so that a misplaced one cannot go unnoticed, and
// the extremes of the type turn up often.
func scalarAt(ty string, seed uint64, i int) reflect.Value {
	x := mix64(seed ^ mix64(uint64(i)+0x1234))
	edge := x%13 == 0
	y := mix64(x)
	v := reflect.New(goTypes[ty]).Elem()
	switch ty {
	case "int8", "int16", "int32", "int64":
		bits := typeSize[ty] * 8
		n := int64(y) >> (64 - bits)
		if edge {
			n = pick(NewRNG(y), 0, -1, 1, int64(-1)<<(bits-1), int64(math.MaxInt64)>>(64-bits))
		}
		v.SetInt(n)
	case "uint8", "uint16", "uint32", "uint64":
		bits := typeSize[ty] * 8
		n := y >> (64 - bits)
		if edge {
			n = pick(NewRNG(y), uint64(0), 1, math.MaxUint64>>(64-bits))
		}
		v.SetUint(n)
	case "float32":
		f := float32(int32(y)) / 1024
		if edge {
			f = pick(NewRNG(y), float32(0), float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)),
				float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32)
		}
		v.SetFloat(float64(f))
	case "float64":
		f := float64(int64(y)>>8) / 65536
		if edge {
			f = pick(NewRNG(y), 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64,
				math.SmallestNonzeroFloat64)
		}
		v.SetFloat(f)
	case "string":
		v.SetString(stringOf(y, int(x>>8%9), edge))
	}
	return v
}

const strAlphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+./\t\"'\\%"

// stringOf makes a string of exactly n bytes without NULs.
func stringOf(seed uint64, n int, wide bool) string {
	var sb strings.Builder
	r := NewRNG(seed)
	for sb.Len() < n {
		if wide && n-sb.Len() >= 3 && r.P(30) {
			sb.WriteString(pick(r, "é", "ß", "€", "Ω"))
			continue
		}
		if wide && r.P(8) {
			// not UTF-8, or a control character
			sb.WriteByte(pick[byte](r, 0xff, 0x80, 0xc3, 0xa9, 1, 0x7f, '\n', '\r'))
			continue
		}
		sb.WriteByte(strAlphabet[r.Intn(len(strAlphabet))])
	}
	s := sb.String()
	if len(s) > n {
		s = s[:n-1]
		for len(s) < n {
			s += "x"
		}
	}
	return s
}

// withNUL puts a NUL somewhere in s.
func withNUL(s string, seed uint64) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	b[seed%uint64(len(b))] = 0
	return string(b)
}

// makeValue builds a nested slice of the given type and shape.  For strings
// the leaf strings have the exact length strLen when strLen >= 0.
func makeValue(ty string, shape []int64, seed uint64, strLen int) any {
	idx := 0
	ts := []reflect.Type{goTypes[ty]} // by the number of dimensions
	for range shape {
		ts = append(ts, reflect.SliceOf(ts[len(ts)-1]))
	}
	var build func(sh []int64) reflect.Value
	build = func(sh []int64) reflect.Value {
		if len(sh) == 0 {
			i := idx
			idx++
			if ty == "string" && strLen >= 0 {
				s := stringOf(mix64(seed^mix64(uint64(i)+0x777)), strLen, i%5 == 0)
				if i%5 == 0 && seed%3 == 0 {
					s = withNUL(s, seed)
				}
				return reflect.ValueOf(s)
			}
			return scalarAt(ty, seed, i)
		}
		s := reflect.MakeSlice(ts[len(sh)], int(sh[0]), int(sh[0]))
		for i := 0; i < int(sh[0]); i++ {
			s.Index(i).Set(build(sh[1:]))
		}
		return s
	}
	return build(shape).Interface()
}

// sameValue compares exactly: types, shapes, and bits (a NaN equals a NaN).
// It returns "" or where and how they differ.
func sameValue(got, want any) string {
	if f, ok := want.(*fxVal); ok {
		return f.match(got)
	}
	if got == nil || want == nil {
		if got == nil && want == nil {
			return ""
		}
		return fmt.Sprintf("got %s, want %s", show(got), show(want))
	}
	return sameRV(reflect.ValueOf(got), reflect.ValueOf(want), "")
}

func sameRV(g, w reflect.Value, at string) string {
	for g.IsValid() && g.Kind() == reflect.Interface && !g.IsNil() {
		g = g.Elem()
	}
	for w.IsValid() && w.Kind() == reflect.Interface && !w.IsNil() {
		w = w.Elem()
	}
	if !g.IsValid() || !w.IsValid() {
		if g.IsValid() == w.IsValid() {
			return ""
		}
		return "one side missing at " + at
	}
	if g.Type() != w.Type() {
		return fmt.Sprintf("type %s, want %s%s", g.Type(), w.Type(), atStr(at))
	}
	switch g.Kind() {
	case reflect.Slice, reflect.Array:
		if g.Len() != w.Len() {
			return fmt.Sprintf("length %d, want %d%s", g.Len(), w.Len(), atStr(at))
		}
		for i := 0; i < g.Len(); i++ {
			if d := sameRV(g.Index(i), w.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < g.NumField(); i++ {
			if d := sameRV(g.Field(i), w.Field(i), at+"."+g.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if g.Len() != w.Len() {
			return fmt.Sprintf("map size %d, want %d%s", g.Len(), w.Len(), atStr(at))
		}
		for _, k := range w.MapKeys() {
			if d := sameRV(g.MapIndex(k), w.MapIndex(k), fmt.Sprintf("%s[%v]", at, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		a, b := g.Float(), w.Float()
		if math.IsNaN(a) && math.IsNaN(b) {
			return ""
		}
		if math.Float64bits(a) != math.Float64bits(b) {
			return fmt.Sprintf("%v, want %v%s", a, b, atStr(at))
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.Int() != w.Int() {
			return fmt.Sprintf("%d, want %d%s", g.Int(), w.Int(), atStr(at))
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if g.Uint() != w.Uint() {
			return fmt.Sprintf("%d, want %d%s", g.Uint(), w.Uint(), atStr(at))
		}
		return ""
	case reflect.String:
		if g.String() != w.String() {
			return fmt.Sprintf("%q, want %q%s", cut(g.String()), cut(w.String()), atStr(at))
		}
		return ""
	case reflect.Bool:
		if g.Bool() != w.Bool() {
			return fmt.Sprintf("%v, want %v%s", g.Bool(), w.Bool(), atStr(at))
		}
		return ""
	}
	return "cannot compare kind " + g.Kind().String()
}

func atStr(at string) string {
	if at == "" {
		return ""
	}
	return " at " + at
}

func cut(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

func show(v any) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// deepCopy copies nested slices so that a caller's scribbling cannot reach them.
func deepCopy(v any) any {
	if v == nil {
		return nil
	}
	return deepCopyRV(reflect.ValueOf(v)).Interface()
}

func deepCopyRV(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Slice || v.IsNil() {
		return v
	}
	out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if e.Kind() == reflect.Slice {
			out.Index(i).Set(deepCopyRV(e))
		} else {
			out.Index(i).Set(e)
		}
	}
	return out
}

// scribble overwrites every element of a value that was handed out.
func scribble(v any) {
	if v == nil {
		return
	}
	scribbleRV(reflect.ValueOf(v))
}

func scribbleRV(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			switch e.Kind() {
			case reflect.Slice:
				scribbleRV(e)
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				e.SetInt(e.Int() ^ 0x55)
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				e.SetUint(e.Uint() ^ 0x55)
			case reflect.Float32, reflect.Float64:
				e.SetFloat(-12345)
			case reflect.String:
				e.SetString("scribbled")
			}
		}
	}
}

// subValue is the model of slicing: the part [begin,end) of a nested slice.
func subValue(v any, begin, end []int64) any {
	return subRV(reflect.ValueOf(v), begin, end).Interface()
}

func subRV(v reflect.Value, begin, end []int64) reflect.Value {
	if len(begin) == 0 {
		return v
	}
	if v.Kind() == reflect.String {
		return reflect.ValueOf(v.String()[begin[0]:end[0]])
	}
	if v.Kind() == reflect.Struct { // what the HDF5 reader has for enumerated values
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		for i := 0; i < out.NumField(); i++ {
			if f := out.Field(i); f.Kind() == reflect.Interface && !f.IsNil() {
				f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
				f.Set(subRV(f.Elem(), begin, end))
				break
			}
		}
		return out
	}
	n := int(end[0] - begin[0])
	out := reflect.MakeSlice(v.Type(), n, n)
	for i := 0; i < n; i++ {
		out.Index(i).Set(subRV(v.Index(int(begin[0])+i), begin[1:], end[1:]))
	}
	return out
}

// flatten lists the scalars of a nested slice in row-major order.
func flatten(v any) []reflect.Value {
	var out []reflect.Value
	var walk func(reflect.Value)
	walk = func(r reflect.Value) {
		if r.Kind() == reflect.Slice {
			for i := 0; i < r.Len(); i++ {
				walk(r.Index(i))
			}
			return
		}
		out = append(out, r)
	}
	walk(reflect.ValueOf(v))
	return out
}

// valueHasShape checks the lengths of a nested value; "" if they are right.
func valueHasShape(v any, shape []int64) string {
	var walk func(rv reflect.Value, sh []int64) string
	walk = func(rv reflect.Value, sh []int64) string {
		if len(sh) == 0 {
			return ""
		}
		switch rv.Kind() {
		case reflect.String:
			if len(sh) == 1 && int64(rv.Len()) == sh[0] {
				return ""
			}
			return fmt.Sprintf("a string of %d bytes for %v", rv.Len(), sh)
		case reflect.Slice:
			if int64(rv.Len()) != sh[0] {
				return fmt.Sprintf("%d elements for %v", rv.Len(), sh)
			}
			for i := 0; i < rv.Len(); i++ {
				if d := walk(rv.Index(i), sh[1:]); d != "" {
					return d
				}
			}
			return ""
		case reflect.Struct: // what the HDF5 reader has for user-defined types
			for i := 0; i < rv.NumField(); i++ {
				if f := rv.Field(i); f.Kind() == reflect.Interface {
					return walk(f.Elem(), sh)
				}
			}
		}
		return fmt.Sprintf("a %s for %v", rv.Kind(), sh)
	}
	return walk(reflect.ValueOf(v), shape)
}
