package model

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

// The constant tables of the specification the models need, kept apart from
// those of the decoder: harness/golden/tables.json.
var tables struct {
	once sync.Once

	Dc, Ac   [3][256]int
	Qm       [15][2][3344]int
	Upscale  [64][8]int
	NonCoeff map[string]json.RawMessage
	Coeff    [4]map[string]json.RawMessage

	states [4]state.State
}

func loadTables() {
	tables.once.Do(func() {
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		data, err := os.ReadFile(filepath.Join(dir, "harness", "golden", "tables.json"))
		if err == nil {
			err = json.Unmarshal(data, &tables)
		}
		if err != nil {
			fmt.Println("tables:", err)
			os.Exit(3)
		}
		for c := range tables.states {
			s := reflect.ValueOf(&tables.states[c]).Elem()
			for _, set := range []map[string]json.RawMessage{tables.NonCoeff, tables.Coeff[c]} {
				for name, value := range set {
					f := s.FieldByName(name)
					if !f.IsValid() {
						vlib.Unfit("no " + name + " in the state")
					}
					if err := json.Unmarshal(value, f.Addr().Interface()); err != nil {
						vlib.Unfit(name + ": " + err.Error())
					}
				}
			}
		}
	})
}

func coeffClass(q int) int {
	return b2i(q > 20) + b2i(q > 60) + b2i(q > 120)
}

// InitCdfs gives the state the default CDFs of a base quantiser index.
func InitCdfs(s *state.State, q int) {
	loadTables()
	c := coeffClass(q)
	from, to := reflect.ValueOf(&tables.states[c]).Elem(), reflect.ValueOf(s).Elem()
	for _, set := range []map[string]json.RawMessage{tables.NonCoeff, tables.Coeff[c]} {
		for name := range set {
			to.FieldByName(name).Set(deepCopy(from.FieldByName(name)))
		}
	}
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		copyAll(n, v)
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		copyAll(n, v)
		return n
	}
	return v
}

func copyAll(to, from reflect.Value) {
	if k := from.Type().Elem().Kind(); k != reflect.Slice && k != reflect.Array {
		reflect.Copy(to, from)
		return
	}
	for i := 0; i < from.Len(); i++ {
		to.Index(i).Set(deepCopy(from.Index(i)))
	}
}

// UpscaleFilter is the table of upscaling filters.
func UpscaleFilter() [64][8]int {
	loadTables()
	return tables.Upscale
}

// DcQ and AcQ are the quantiser steps of a depth index and clipped index.
func DcQ(d, q int) int { loadTables(); return tables.Dc[d][iclip(0, 255, q)] }
func AcQ(d, q int) int { loadTables(); return tables.Ac[d][iclip(0, 255, q)] }

// QmAt is a weight of the quantiser matrix.
func QmAt(level, plane, i int) int { loadTables(); return tables.Qm[level][b2i(plane > 0)][i] }

// WriteTables writes the tables file from values of the decoder.
func WriteTables(path string, dc, ac, qm, upscale interface{}, init func(s *state.State, q int)) {
	out := map[string]interface{}{"Dc": dc, "Ac": ac, "Qm": qm, "Upscale": upscale}
	coeff := [4]map[string]interface{}{}
	non := map[string]interface{}{}
	isCoeff := map[string]bool{"TxbSkipCdf": true, "EobPt16Cdf": true, "EobPt32Cdf": true, "EobPt64Cdf": true, "EobPt128Cdf": true, "EobPt256Cdf": true,
		"EobPt512Cdf": true, "EobPt1024Cdf": true, "EobExtraCdf": true, "DcSignCdf": true, "CoeffBaseEobCdf": true, "CoeffBaseCdf": true, "CoeffBrCdf": true}
	for c, q := range []int{20, 60, 120, 121} {
		s := &state.State{}
		init(s, q)
		coeff[c] = map[string]interface{}{}
		v := reflect.ValueOf(s).Elem()
		area := reflect.TypeOf(state.MemoryArea{})
		for i := 0; i < area.NumField(); i++ {
			name := area.Field(i).Name
			f := v.FieldByName(name)
			if !f.IsValid() || !strings.HasSuffix(name, "Cdf") || f.Kind() != reflect.Slice && f.Kind() != reflect.Array {
				continue
			}
			if isCoeff[name] {
				coeff[c][name] = f.Interface()
			} else {
				non[name] = f.Interface()
			}
		}
	}
	out["NonCoeff"], out["Coeff"] = non, coeff
	data, _ := json.Marshal(out)
	os.WriteFile(path, append(data, '\n'), 0o644)
}
