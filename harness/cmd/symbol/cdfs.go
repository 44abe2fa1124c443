package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/state"
)

// table is one CDF array of the decoder state: its rows, and a shape.
type table struct {
	name   string
	rows   [][]int // the very rows, not copies
	shape  string
	ragged bool
}

func rowsOf(v reflect.Value, out *[][]int) string {
	if v.Kind() == reflect.Slice && v.Len() == 0 {
		return "[]"
	}
	if v.Index(0).Kind() == reflect.Int {
		row := make([]int, 0)
		if v.Kind() == reflect.Slice {
			row = v.Slice(0, v.Len()).Interface().([]int)
		} else {
			row = v.Slice(0, v.Len()).Interface().([]int)
		}
		*out = append(*out, row)
		return fmt.Sprintf("[%d]", v.Len())
	}
	s := ""
	for i := 0; i < v.Len(); i++ {
		s += rowsOf(v.Index(i), out)
	}
	return fmt.Sprintf("[%d](%s)", v.Len(), compress(s))
}

// dims gives the dimensions of a rectangular array, nothing for others.
func dims(v reflect.Value) string {
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		return "."
	}
	in := "-"
	for i := 0; i < v.Len(); i++ {
		d := dims(v.Index(i))
		if d == "" || i > 0 && d != in {
			return ""
		}
		in = d
	}
	return fmt.Sprint(v.Len(), in)
}

func compress(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64()&0xffffff)
}

// tables lists the CDF arrays with a name prefix ("", "Tile", "Saved") of a
// decoder state, in the order of the names without it.
func tables(v reflect.Value, prefix string, names []string) []table {
	var out []table
	for _, n := range names {
		f := v.FieldByName(prefix + n)
		if !f.IsValid() {
			continue
		}
		t := table{name: n}
		t.shape = rowsOf(f, &t.rows)
		t.ragged = dims(f) == ""
		out = append(out, t)
	}
	return out
}

func names() []string {
	t := reflect.TypeOf(state.MemoryArea{})
	var out []string
	for i := 0; i < t.NumField(); i++ {
		if strings.HasSuffix(t.Field(i).Name, "Cdf") {
			out = append(out, t.Field(i).Name)
		}
	}
	return out
}

func clone(ts []table) map[string][][]int {
	m := map[string][][]int{}
	for _, t := range ts {
		rows := make([][]int, len(t.rows))
		for i, r := range t.rows {
			rows[i] = append([]int{}, r...)
		}
		m[t.name] = rows
	}
	return m
}

func diff(a map[string][][]int, b []table) []string {
	var d []string
	for _, t := range b {
		if !reflect.DeepEqual(a[t.name], t.rows) && !(len(a[t.name]) == 0 && len(t.rows) == 0) {
			for i := range t.rows {
				if i >= len(a[t.name]) || !reflect.DeepEqual(a[t.name][i], t.rows[i]) {
					want := "missing"
					if i < len(a[t.name]) {
						want = fmt.Sprint(a[t.name][i])
					}
					d = append(d, fmt.Sprintf("%s row %d: got %v, want %s", t.name, i, t.rows[i], want))
					break
				}
			}
			if len(t.rows) < len(a[t.name]) {
				d = append(d, fmt.Sprintf("%s has %d rows, want %d", t.name, len(t.rows), len(a[t.name])))
			}
		}
	}
	return d
}

func digest(t table) string {
	h := fnv.New64a()
	fmt.Fprint(h, t.shape)
	for _, r := range t.rows {
		fmt.Fprint(h, r)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}
