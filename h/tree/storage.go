package tree

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"unsafe"
)

// Span is a piece of memory that a value refers to.
type Span struct {
	Lo, Hi uintptr
	Of     string // where the value refers to it
	Text   bool   // of a string: nobody can write to it
	Owner  int
	ref    any // keeps it alive
}

// Spans lists the memory that v refers to, including the spare capacity of slices.
func Spans(v any, of string, owner int) []Span {
	var out []Span
	spans(reflect.ValueOf(v), of, owner, &out)
	return out
}

// BytesSpan is the memory of b.
func BytesSpan(b []byte, of string, owner int) Span {
	p := reflect.ValueOf(b).Pointer()
	return Span{Lo: p, Hi: p + uintptr(cap(b)), Of: of, Owner: owner, ref: b}
}

func spans(v reflect.Value, of string, owner int, out *[]Span) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			spans(v.Elem(), of, owner, out)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if n := v.Type().Elem().Size(); n > 0 {
			*out = append(*out, Span{Lo: v.Pointer(), Hi: v.Pointer() + n, Of: of, Owner: owner})
		}
		spans(v.Elem(), of, owner, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spans(v.Field(i), of+"."+v.Type().Field(i).Name, owner, out)
		}
	case reflect.Slice:
		if n := uintptr(v.Cap()) * v.Type().Elem().Size(); n > 0 {
			*out = append(*out, Span{Lo: v.Pointer(), Hi: v.Pointer() + n, Of: of, Owner: owner})
		}
		if k := v.Type().Elem().Kind(); k < reflect.Array {
			return
		}
		for i := 0; i < v.Len(); i++ {
			spans(v.Index(i), fmt.Sprintf("%s[%d]", of, i), owner, out)
		}
	case reflect.Array:
		if k := v.Type().Elem().Kind(); k < reflect.Array {
			return
		}
		for i := 0; i < v.Len(); i++ {
			spans(v.Index(i), fmt.Sprintf("%s[%d]", of, i), owner, out)
		}
	case reflect.String:
		if s := v.String(); len(s) > 0 {
			p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
			*out = append(*out, Span{Lo: p, Hi: p + uintptr(len(s)), Of: of, Text: true, Owner: owner})
		}
	}
}

// Shared finds two references to the same memory; strings may share theirs with each other.
func Shared(sp []Span) (a, b Span, found bool) {
	l := append([]Span(nil), sp...)
	sort.Slice(l, func(i, j int) bool {
		return l[i].Lo < l[j].Lo || l[i].Lo == l[j].Lo && !l[i].Text && l[j].Text
	})
	var mem, text Span // those that reach furthest
	for _, s := range l {
		if s.Lo < mem.Hi {
			return mem, s, true
		}
		if !s.Text && s.Lo < text.Hi {
			return text, s, true
		}
		if s.Text {
			if s.Hi > text.Hi {
				text = s
			}
		} else if s.Hi > mem.Hi {
			mem = s
		}
	}
	return a, b, false
}

// Pad gives every slice of the value spare capacity, filled with random data, and returns a
// function that tells whether the spare data are as they were.
func Pad(v reflect.Value, r *rand.Rand) func() string {
	var checks []func() string
	pad(v, "", r, &checks)
	return func() string {
		for _, c := range checks {
			if s := c(); s != "" {
				return s
			}
		}
		return ""
	}
}

func pad(v reflect.Value, of string, r *rand.Rand, checks *[]func() string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			pad(v.Elem(), of, r, checks)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				pad(v.Field(i), of+"."+v.Type().Field(i).Name, r, checks)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			pad(v.Index(i), of, r, checks)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			pad(v.Index(i), fmt.Sprintf("%s[%d]", of, i), r, checks)
		}
		n := v.Len()
		l := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(l, v)
		for i := n; i < n+3; i++ {
			garbage(l.Index(i), r)
			if l.Index(i).Kind() == reflect.Struct {
				for k := 0; k < l.Index(i).NumField(); k++ {
					if f := l.Index(i).Field(k); f.CanSet() {
						garbage(f, r)
					}
				}
			}
		}
		spare := l.Slice(n, n+3)
		before := Dump(spare.Interface())
		v.Set(l.Slice(0, n))
		*checks = append(*checks, func() string {
			if after := Dump(spare.Interface()); after != before {
				return fmt.Sprintf("beyond the end of %s: %s, was %s", of, after, before)
			}
			return ""
		})
	}
}

// Scribble overwrites everything a value refers to, including spare capacity.
func Scribble(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			Scribble(v.Elem(), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				Scribble(v.Field(i), r)
			}
		}
	case reflect.Slice:
		if v.Cap() > v.Len() {
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			Scribble(v.Index(i), r)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Scribble(v.Index(i), r)
		}
	default:
		garbage(v, r)
	}
}
