package vlib

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
)

// Golden compares the rows of constant tables with pinned digests. The pinned
// file is harness/golden/<name>.json; with VERIF_GOLDEN set it is rewritten.
func (r *Run) Golden(name string, tables map[string]interface{}) {
	path := filepath.Join(r.Verif, "harness", "golden", name+".json")
	got := map[string]string{}
	rows := 0
	var walk func(key string, x reflect.Value)
	walk = func(key string, x reflect.Value) {
		k := x.Kind()
		if (k == reflect.Slice || k == reflect.Array) && x.Len() > 0 {
			e := x.Index(0).Kind()
			if e == reflect.Slice || e == reflect.Array {
				for i := 0; i < x.Len(); i++ {
					walk(fmt.Sprintf("%s[%d]", key, i), x.Index(i))
				}
				return
			}
		}
		rows++
		var b []byte
		if k == reflect.Slice || k == reflect.Array {
			for i := 0; i < x.Len(); i++ {
				n, _ := norm(x.Index(i))
				b = append(b, fmt.Sprintf("%d,", n)...)
			}
		} else {
			n, _ := norm(x)
			b = append(b, fmt.Sprintf("%d", n)...)
		}
		got[key] = fmt.Sprintf("%016x", HashBytes(b))
		r.Eval(Hash(key+got[key]), true)
	}
	for k, t := range tables {
		walk(k, reflect.ValueOf(t))
	}
	r.EventN("constant table rows compared", int64(rows))
	if os.Getenv("VERIF_GOLDEN") != "" {
		out, _ := json.MarshalIndent(got, "", " ")
		os.WriteFile(path, append(out, '\n'), 0o644)
		return
	}
	want := map[string]string{}
	data, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(data, &want)
	}
	if err != nil {
		fmt.Println("golden:", err)
		os.Exit(3)
	}
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	list := []string{}
	for k := range keys {
		list = append(list, k)
	}
	sort.Strings(list)
	for _, k := range list {
		if got[k] != want[k] {
			r.Violation("constant table "+k+" differs from the pinned one", map[string]interface{}{"row": k})
		}
	}
}
