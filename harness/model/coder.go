package model

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// Coder draws symbols and encodes them: what a decoder must read back.
type Coder struct {
	E       *Encoder
	R       *vlib.RNG
	NoAdapt bool
	Uniform int // percent of symbols drawn uniformly instead of by their probability
	Symbols int
	Lits    int
}

// Trace, if set, sees every symbol that is encoded (for debugging).
var Trace func(cdf []int, s int)

// Put encodes symbol s and adapts the CDF.
func (k *Coder) Put(cdf []int, s int) {
	k.E.Put(cdf, s)
	if !k.NoAdapt {
		Adapt(cdf, s)
	}
	k.Symbols++
}

// Draw picks a symbol.
func (k *Coder) Draw(cdf []int) int {
	n := len(cdf) - 1
	if k.R.P(k.Uniform) {
		return k.R.N(n)
	}
	x := k.R.N(32768)
	for s := 0; s < n-1; s++ {
		if x < cdf[s] {
			return s
		}
	}
	return n - 1
}

// Sym draws and encodes a symbol.
func (k *Coder) Sym(cdf []int) int {
	s := k.Draw(cdf)
	k.Put(cdf, s)
	return s
}

// Bool encodes a symbol that is 1 with the given percentage.
func (k *Coder) Bool(cdf []int, pc int) bool {
	s := b2i(k.R.P(pc))
	k.Put(cdf, s)
	return s == 1
}

// PutLit encodes an n-bit literal.
func (k *Coder) PutLit(n, v int) {
	for i := n - 1; i >= 0; i-- {
		k.E.Put([]int{16384, 32768, 0}, v>>uint(i)&1)
	}
	k.Lits += n
}

// Lit draws and encodes a literal.
func (k *Coder) Lit(n int) int {
	v := k.R.Bits(n)
	k.PutLit(n, v)
	return v
}

// PutNS encodes v < n with the shorter codes first.
func (k *Coder) PutNS(n, v int) {
	w := uint(0)
	for 1<<w <= n {
		w++
	}
	m := 1<<w - n
	if v < m {
		k.PutLit(int(w)-1, v)
		return
	}
	k.PutLit(int(w)-1, (v+m)>>1)
	k.PutLit(1, (v+m)&1)
}

// eachCdf calls f for every CDF (innermost array) below v.
func eachCdf(v reflect.Value, f func(cdf []int)) {
	if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Int {
		if v.Len() > 0 {
			f(v.Interface().([]int))
		}
		return
	}
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		return
	}
	for i := 0; i < v.Len(); i++ {
		eachCdf(v.Index(i), f)
	}
}

// Cdfs lists the names of all CDF arrays of a decoder.
func Cdfs() []string {
	var o []string
	t := reflect.TypeOf(state.MemoryArea{})
	for i := 0; i < t.NumField(); i++ {
		if n := t.Field(i).Name; strings.HasSuffix(n, "Cdf") {
			o = append(o, n)
		}
	}
	return o
}

func cdfField(s *state.State, prefix, name string) reflect.Value {
	return reflect.ValueOf(s).Elem().FieldByName(prefix + name)
}

// RandomCdfs overwrites all CDFs with arbitrary valid ones.
func RandomCdfs(s *state.State, r *vlib.RNG) {
	for _, name := range Cdfs() {
		eachCdf(cdfField(s, "", name), func(c []int) {
			n := len(c) - 1
			w := make([]int, n)
			sum := 0
			for i := range w {
				w[i] = r.Pick(1, 3, 10, 40)
				sum += w[i]
			}
			acc := 0
			for i := 0; i < n-1; i++ {
				acc += w[i]
				c[i] = acc * 32768 / sum
			}
			c[n-1] = 32768
			c[n] = r.Pick(0, 0, 14, 15, 30, 31, 32)
		})
	}
}

// CopyCdfs copies the CDFs of a state; the copies share no storage.
func CopyCdfs(to, from *state.State) {
	for _, name := range Cdfs() {
		cdfField(to, "", name).Set(deep(cdfField(from, "", name)))
	}
}

func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deep(v.Index(i)))
		}
		return c
	case reflect.Array:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deep(v.Index(i)))
		}
		return c
	}
	return v
}

// DiffCdfs names the first CDF of got (with prefix) that differs from want's.
func DiffCdfs(got *state.State, prefix string, want *state.State) string {
	for _, name := range Cdfs() {
		g := cdfField(got, prefix, name)
		if !g.IsValid() {
			return prefix + name + " does not exist"
		}
		var a, b [][]int
		eachCdf(g, func(c []int) { a = append(a, c) })
		eachCdf(cdfField(want, "", name), func(c []int) { b = append(b, c) })
		if len(a) != len(b) {
			return prefix + name + " has another size"
		}
		for i := range a {
			for j := range a[i] {
				if len(a[i]) != len(b[i]) || a[i][j] != b[i][j] {
					return fmt.Sprint(prefix, name, " number ", i, ": ", a[i], " want ", b[i])
				}
			}
		}
	}
	return ""
}

// NoCounters clears the symbol counters, the last entries of all CDFs.
func NoCounters(s *state.State) {
	for _, name := range Cdfs() {
		eachCdf(cdfField(s, "", name), func(c []int) { c[len(c)-1] = 0 })
	}
}
