// Package tree relates the model's trees of named values to the library's Go structs
// by reflection, and renders trees the way the documentation says boxes are rendered.
package tree

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"

	mp4 "github.com/abema/go-mp4"

	"verif/spec"
)

var ignored = map[reflect.Type]bool{
	reflect.TypeOf(mp4.Box{}):                   true,
	reflect.TypeOf(mp4.AnyTypeBox{}):            true,
	reflect.TypeOf(mp4.BaseCustomFieldObject{}): true,
}

// Ignore makes the comparison skip embedded fields of the type of v.
func Ignore(v any) { ignored[reflect.TypeOf(v)] = true }

// Compare reports the first difference between the model's tree and the decoded value.
func Compare(n *spec.Node, v reflect.Value) error { return compare(n, v, true) }

// ComparePresent compares only the fields that are in the payload: the others may hold anything.
func ComparePresent(n *spec.Node, v reflect.Value) error { return compare(n, v, false) }

func compare(n *spec.Node, v reflect.Value, strict bool) error {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return fmt.Errorf("%s: nil", n.Name)
		}
		v = v.Elem()
	}
	switch n.Kind {
	case spec.KStruct, spec.KPtr:
		if v.Kind() != reflect.Struct {
			return fmt.Errorf("%s: not a struct but %s", n.Name, v.Type())
		}
		seen := map[string]bool{}
		for _, k := range n.Kids {
			f := v.FieldByName(k.Name)
			if !f.IsValid() {
				return fmt.Errorf("%s has no field %s", v.Type(), k.Name)
			}
			seen[k.Name] = true
			if err := compare(k, f, strict); err != nil {
				return fmt.Errorf("%s.%w", n.Name, err)
			}
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if seen[f.Name] || f.PkgPath != "" || ignored[f.Type] {
				continue
			}
			fv := v.Field(i)
			if strict && !zeroish(fv) {
				return fmt.Errorf("%s.%s: excluded field is not zero: %v", n.Name, f.Name, fv.Interface())
			}
		}
		return nil
	case spec.KUint:
		if !isUint(v) {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		if v.Uint() != n.U {
			return fmt.Errorf("%s: %d, the bytes say %d", n.Name, v.Uint(), n.U)
		}
	case spec.KInt:
		if !isInt(v) {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		if v.Int() != n.I {
			return fmt.Errorf("%s: %d, the bytes say %d", n.Name, v.Int(), n.I)
		}
	case spec.KBool:
		if v.Kind() != reflect.Bool {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		if v.Bool() != n.B {
			return fmt.Errorf("%s: %v, the bytes say %v", n.Name, v.Bool(), n.B)
		}
	case spec.KString:
		if v.Kind() != reflect.String {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		if v.String() != n.S {
			return fmt.Errorf("%s: %q, the bytes say %q", n.Name, v.String(), n.S)
		}
	case spec.KBytes:
		b, err := getBytes(v)
		if err != nil {
			return fmt.Errorf("%s: %w", n.Name, err)
		}
		if !bytes.Equal(b, n.Raw) {
			return fmt.Errorf("%s: %x, the bytes say %x", n.Name, b, n.Raw)
		}
	case spec.KList:
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		if v.Len() != len(n.Kids) {
			return fmt.Errorf("%s: %d elements, the bytes say %d", n.Name, v.Len(), len(n.Kids))
		}
		for i, k := range n.Kids {
			if err := compare(k, v.Index(i), strict); err != nil {
				return fmt.Errorf("%s[%d]%w", n.Name, i, err)
			}
		}
	}
	return nil
}

func zeroish(v reflect.Value) bool {
	if ignored[v.Type()] {
		return true
	}
	switch v.Kind() {
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && !zeroish(v.Field(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func isUint(v reflect.Value) bool {
	return v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr
}
func isInt(v reflect.Value) bool { return v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 }

func getBytes(v reflect.Value) ([]byte, error) {
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		return nil, fmt.Errorf("kind %s", v.Kind())
	}
	out := make([]byte, v.Len())
	for i := range out {
		e := v.Index(i)
		if e.Kind() != reflect.Uint8 {
			return nil, fmt.Errorf("element kind %s", e.Kind())
		}
		out[i] = byte(e.Uint())
	}
	return out, nil
}

// Fill stores the tree's values in the struct v (addressable).
func Fill(n *spec.Node, v reflect.Value) error {
	for v.Kind() == reflect.Ptr && n.Kind != spec.KPtr {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	switch n.Kind {
	case spec.KPtr:
		if v.Kind() == reflect.Ptr {
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		fallthrough
	case spec.KStruct:
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		for _, k := range n.Kids {
			f := v.FieldByName(k.Name)
			if !f.IsValid() {
				return fmt.Errorf("%s has no field %s", v.Type(), k.Name)
			}
			if err := Fill(k, f); err != nil {
				return err
			}
		}
	case spec.KUint:
		if !isUint(v) {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		v.SetUint(n.U)
	case spec.KInt:
		if !isInt(v) {
			return fmt.Errorf("%s: kind %s", n.Name, v.Kind())
		}
		v.SetInt(n.I)
	case spec.KBool:
		v.SetBool(n.B)
	case spec.KString:
		v.SetString(n.S)
	case spec.KBytes, spec.KList:
		ln := len(n.Kids)
		if n.Kind == spec.KBytes {
			ln = len(n.Raw)
		}
		if v.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(v.Type(), ln, ln))
		} else if v.Len() != ln {
			return fmt.Errorf("%s: array of %d, model has %d", n.Name, v.Len(), ln)
		}
		for i := 0; i < ln; i++ {
			if n.Kind == spec.KBytes {
				v.Index(i).SetUint(uint64(n.Raw[i]))
			} else if err := Fill(n.Kids[i], v.Index(i)); err != nil {
				return err
			}
		}
	}
	return nil
}

// Build makes a box value of type t from the tree.
func Build(n *spec.Node, t mp4.BoxType, ctx mp4.Context) (b mp4.IBox, err error) {
	b, err = t.New(ctx)
	if err != nil {
		return nil, err
	}
	defer func() { // the library gave a value of another shape
		if e := recover(); e != nil {
			err = fmt.Errorf("a new %q is a %T, which cannot hold the fields of the box: %v", t.String(), b, e)
		}
	}()
	return b, Fill(n, reflect.ValueOf(b).Elem())
}

// GoType is the name of the struct behind a box value.
func GoType(b mp4.IImmutableBox) string { return reflect.TypeOf(b).Elem().Name() }

type render struct {
	sb     strings.Builder
	indent string
}

// Render renders a box's tree; indent "" is the one-line form.
func Render(n *spec.Node, indent string) string {
	r := &render{indent: indent}
	r.strct(n, 0, true)
	return r.sb.String()
}

func (r *render) in(depth int) {
	for i := 0; i < depth; i++ {
		r.sb.WriteString(r.indent)
	}
}

func (r *render) strct(n *spec.Node, depth int, ext bool) {
	if !ext {
		r.sb.WriteByte('{')
		if r.indent != "" {
			r.sb.WriteByte('\n')
		}
		depth++
	}
	for _, k := range n.Kids {
		if k.O.Const || k.O.Hidden || k.O.Derived {
			continue
		}
		if k.O.Ext {
			r.strct(k, depth, true)
			continue
		}
		if r.indent != "" {
			r.in(depth + 1)
		} else if s := r.sb.String(); s != "" && s[len(s)-1] != '{' {
			r.sb.WriteByte(' ')
		}
		r.sb.WriteString(k.Name)
		r.sb.WriteByte('=')
		r.value(k, depth)
		if r.indent != "" {
			r.sb.WriteByte('\n')
		}
	}
	if !ext {
		if r.indent != "" {
			r.in(depth)
		}
		r.sb.WriteByte('}')
	}
}

func (r *render) value(n *spec.Node, depth int) {
	if n.O.Custom != nil {
		if s, ok := n.O.Custom(n); ok {
			r.sb.WriteString(s)
			return
		}
	}
	w := r.sb.WriteString
	switch n.Kind {
	case spec.KUint:
		if n.O.Hex || n.U8 && !n.O.Dec {
			w("0x" + strconv.FormatUint(n.U, 16))
		} else {
			w(strconv.FormatUint(n.U, 10))
		}
	case spec.KInt:
		if n.O.Hex {
			if n.I < 0 {
				w("-0x" + strconv.FormatUint(uint64(-n.I), 16))
			} else {
				w("0x" + strconv.FormatUint(uint64(n.I), 16))
			}
		} else {
			w(strconv.FormatInt(n.I, 10))
		}
	case spec.KBool:
		w(strconv.FormatBool(n.B))
	case spec.KString:
		w(`"` + spec.Escape(n.S) + `"`)
	case spec.KBytes:
		switch {
		case n.O.Str:
			w(`"` + spec.Escape(string(n.Raw)) + `"`)
		case n.O.ISO:
			w(`"`)
			for _, b := range n.Raw {
				w(spec.Escape(string(rune(b + 0x60))))
			}
			w(`"`)
		case n.O.UUID:
			w(spec.UUIDString(n.Raw))
		default:
			w("[")
			for i, b := range n.Raw {
				if i > 0 {
					w(", ")
				}
				if n.O.Dec {
					w(strconv.Itoa(int(b)))
				} else {
					w("0x" + strconv.FormatUint(uint64(b), 16))
				}
			}
			w("]")
		}
	case spec.KList:
		w("[")
		for i, k := range n.Kids {
			if i > 0 {
				w(", ")
			}
			if k.Kind == spec.KStruct && !k.O.Ext {
				r.strct(k, depth+1, n.O.Ext)
			} else {
				r.value(k, depth+1)
			}
		}
		w("]")
	case spec.KStruct, spec.KPtr:
		r.strct(n, depth, n.O.Ext)
	}
}

// Equal compares two values, taking nil and empty slices as equal.
func Equal(a, b reflect.Value) (string, bool) {
	if a.IsValid() != b.IsValid() {
		return "", false
	}
	if !a.IsValid() {
		return "", true
	}
	if a.Type() != b.Type() {
		return "type", false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return "nil", a.IsNil() == b.IsNil()
		}
		return Equal(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s, ok := Equal(a.Field(i), b.Field(i)); !ok {
				return a.Type().Field(i).Name + "." + s, false
			}
		}
		return "", true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return "length", false
		}
		for i := 0; i < a.Len(); i++ {
			if s, ok := Equal(a.Index(i), b.Index(i)); !ok {
				return fmt.Sprintf("[%d]%s", i, s), false
			}
		}
		return "", true
	case reflect.Bool:
		return "", a.Bool() == b.Bool()
	case reflect.String:
		return "", a.String() == b.String()
	}
	if isInt(a) {
		return "", a.Int() == b.Int()
	}
	if isUint(a) {
		return "", a.Uint() == b.Uint()
	}
	return "kind", false
}

// Clone makes a deep copy that shares no storage.
func Clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	cloneInto(out, v)
	return out
}

func cloneInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			cloneInto(dst.Elem(), src.Elem())
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				cloneInto(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				cloneInto(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.String:
		dst.SetString(strings.Clone(src.String()))
	default:
		dst.Set(src)
	}
}

// Dump writes a value canonically: nil and empty slices look alike.
func Dump(v any) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v))
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpTo(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type.Kind() == reflect.Func {
				continue
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte(':')
			dumpTo(sb, v.Field(i))
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b, _ := getBytes(v)
			fmt.Fprintf(sb, "%x", b)
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpTo(sb, v.Index(i))
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	default:
		switch {
		case isInt(v):
			sb.WriteString(strconv.FormatInt(v.Int(), 10))
		case isUint(v):
			sb.WriteString(strconv.FormatUint(v.Uint(), 10))
		default:
			sb.WriteString(v.Kind().String())
		}
	}
}

// Garbage sets fields that the version, flags and context exclude to arbitrary values; it
// reports how many it set.
func Garbage(n *spec.Node, v reflect.Value, r *rand.Rand) int {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return 0
		}
		v = v.Elem()
	}
	set := 0
	switch {
	case (n.Kind == spec.KStruct || n.Kind == spec.KPtr) && v.Kind() == reflect.Struct:
		seen := map[string]bool{}
		for _, k := range n.Kids {
			seen[k.Name] = true
			if f := v.FieldByName(k.Name); f.IsValid() {
				set += Garbage(k, f, r)
			}
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if seen[f.Name] || f.PkgPath != "" || f.Anonymous || ignored[f.Type] || f.Tag.Get("mp4") == "" {
				continue
			}
			set += garbage(v.Field(i), r)
		}
	case n.Kind == spec.KList && v.Kind() == reflect.Slice && v.Len() == len(n.Kids):
		for i, k := range n.Kids {
			set += Garbage(k, v.Index(i), r)
		}
	}
	return set
}

func garbage(v reflect.Value, r *rand.Rand) int {
	switch {
	case isUint(v):
		v.SetUint(r.Uint64() >> uint(64-v.Type().Bits()))
	case isInt(v):
		v.SetInt(int64(r.Uint64()) >> uint(64-v.Type().Bits()))
	case v.Kind() == reflect.Bool:
		v.SetBool(true)
	case v.Kind() == reflect.String:
		v.SetString("excluded")
	case v.Kind() == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			garbage(v.Index(i), r)
		}
	case v.Kind() == reflect.Slice:
		l := 1 + r.IntN(4)
		v.Set(reflect.MakeSlice(v.Type(), l, l))
		for i := 0; i < l; i++ {
			garbage(v.Index(i), r)
		}
	default:
		return 0
	}
	return 1
}
