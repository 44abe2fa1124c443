package vlib

import (
	"fmt"
	"reflect"
)

// Cmp collects differences between what a model expects and what was observed.
type Cmp struct {
	Diffs []string
	N     int
}

// Eq compares got to want; nil and empty slices are the same.
func (c *Cmp) Eq(name string, got, want interface{}) {
	c.N++
	if !same(reflect.ValueOf(got), reflect.ValueOf(want)) {
		c.Diffs = append(c.Diffs, fmt.Sprintf("%s: got %v, want %v", name, short(got), short(want)))
	}
}

func short(v interface{}) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func norm(v reflect.Value) (int64, bool) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint()), true
	case reflect.Bool:
		if v.Bool() {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

func same(a, b reflect.Value) bool {
	if x, ok := norm(a); ok {
		y, ok2 := norm(b)
		return ok2 && x == y
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if b.Kind() != reflect.Slice && b.Kind() != reflect.Array {
			return false
		}
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func (c *Cmp) Ok() bool { return len(c.Diffs) == 0 }

// Bucket rounds down to a power of two.
func Bucket(n int) int {
	b := 0
	for k := 1; k <= n; k *= 2 {
		b = k
	}
	return b
}

// Cut shortens a text.
func Cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
