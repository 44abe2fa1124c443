// Tile monitors: what decoding a tile of an intra frame leaves behind is
// compared with what a generator of the tile put into it.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"

	"go.uber.org/zap"

	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	logger.Initialize()
	logger.Logger = zap.NewNop()
	run := v.Start(os.Args[1])
	p, ok := props[run.Prop]
	if !ok {
		fmt.Println("unknown property", run.Prop)
		os.Exit(2)
	}
	run.Rule = p.rule
	if name := os.Getenv("VERIF_TRACE"); name != "" {
		w, _ := os.Create(name)
		model.Trace = func(cdf []int, s int) {
			where := ""
			for i := 2; i < 5; i++ {
				_, file, line, _ := runtime.Caller(i)
				where += fmt.Sprintf(" %s:%d", filepath.Base(file), line)
			}
			fmt.Fprintln(w, cdf, s, "|", where)
		}
	}
	run.Par("tile", run.Scale(p.quick, p.thorough), func(i int, r *v.RNG) {
		f := newFrame(r, p.bias)
		f.code(r)
		run.Eval(v.HashBytes(append([]byte(f.where), f.data...)), f.m.Ev["blocks"] > 1 || len(f.data) > 16)
		run.Events(f.m.Ev)
		run.EventN("symbols", int64(f.m.K.Symbols))
		run.EventN("literal bits", int64(f.m.K.Lits))
		repro := map[string]interface{}{"case": i, "frame": f.where, "bytes": len(f.data)}
		if e := v.Catch(f.decode); e != nil {
			run.Violation(fmt.Sprintf("%s: decoding the tile panics: %v\n%s", f.where, e.Value, v.Cut(e.Stack, 1200)), repro)
			return
		}
		for _, cmp := range append(p.compare, compareSync) {
			if d := cmp(f); d != "" {
				run.Violation(f.where+": "+d, repro)
				return
			}
		}
		if run.WantSample() {
			run.Sample(map[string]interface{}{"frame": f.where, "bytes": len(f.data), "blocks": f.m.Ev["blocks"]})
		}
	})
	run.Finish()
}
