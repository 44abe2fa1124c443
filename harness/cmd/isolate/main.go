// Isolation monitor (D01), built with the race detector: decoders working at
// the same time, or one after another, do not influence each other.
package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/symbol"
	"github.com/m4tthewde/gov1/internal/tilegroup"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
	"go.uber.org/zap"
)

type uhT = uncompressedheader.UncompressedHeader

// job is what one decoder is given.
type job struct {
	stream *m.Stream
	seed   uint64
	tiles  int
}

type outcome struct {
	obus  interface{}
	hdr   uhT
	seq   interface{}
	trace []uint64
	cdfs  map[string]uint64
	pos   int
	panic string
}

// rows visits every CDF of the state.
func rows(st *state.State, f func(name string, row []int)) {
	var walk func(name string, x reflect.Value)
	walk = func(name string, x reflect.Value) {
		if x.Kind() != reflect.Slice && x.Kind() != reflect.Array {
			return
		}
		if x.Kind() == reflect.Slice && x.Type().Elem().Kind() == reflect.Int {
			f(name, x.Interface().([]int))
			return
		}
		for i := 0; i < x.Len(); i++ {
			walk(name, x.Index(i))
		}
	}
	s := reflect.ValueOf(st).Elem()
	for i := 0; i < s.NumField(); i++ {
		if strings.HasSuffix(s.Type().Field(i).Name, "Cdf") {
			walk(s.Type().Field(i).Name, s.Field(i))
		}
	}
}

func hashRows(st *state.State) map[string]uint64 {
	o := map[string]uint64{}
	rows(st, func(n string, row []int) {
		h := fnv.New64a()
		fmt.Fprint(h, o[n], row)
		o[n] = h.Sum64()
	})
	return o
}

// decode runs the whole job on decoder state of its own; yield points make
// the interleavings diverse.
func decode(j job, yield func()) (o outcome) {
	data := append([]byte{}, j.stream.Bytes...)
	b := bitstream.NewBitStream(data)
	p := parser.NewParser(&b)
	j.stream.Refs.Install(parser.ZzState(&p))
	pan := v.Catch(func() {
		yield()
		o.obus = parser.ZzBitstream(&p)
		yield()
		o.hdr, o.seq, o.pos = p.UncompressedHeader, p.SequenceHeader, b.Position
		st := parser.ZzState(&p)
		r := v.NewRNG(j.seed, 77)
		if len(st.YModeCdf) == 0 {
			uncompressedheader.ZzInitNonCoeffCdfs(st)
			uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: r.N(256)})
		}
		tg := &tilegroup.TileGroup{}
		for t := 0; t < j.tiles; t++ {
			tb := bitstream.NewBitStream(r.Bytes(64))
			tilegroup.ZzInitSymbol(tg, 64, &tb, st)
			var tile [][]int
			s := reflect.ValueOf(st).Elem()
			_ = s
			rows(st, func(n string, row []int) {
				if strings.HasPrefix(n, "Tile") && len(row) > 2 {
					tile = append(tile, row)
				}
			})
			for k := 0; k < 60 && st.SymbolMaxBits >= 16 && len(tile) > 0; k++ {
				o.trace = append(o.trace, uint64(symbol.ReadSymbol(tile[r.N(len(tile))], st, &tb, uhT{})))
				if k%16 == 0 {
					yield()
				}
			}
			uh := uhT{}
			st.TileNum = 0
			tilegroup.ZzExitSymbol(tg, &tb, st, uh)
			tilegroup.ZzFrameEndUpdateCdf(tg, st)
			yield()
			uncompressedheader.SaveCdfs(r.N(8), st)
			yield()
			if t%3 == 2 {
				uncompressedheader.ZzInitNonCoeffCdfs(st)
				uncompressedheader.ZzInitCoeffCdfs(st, uhT{BaseQIdx: r.N(256)})
			}
		}
		o.cdfs = hashRows(st)
	})
	if pan != nil {
		o.panic = fmt.Sprintf("panic %v at %s", pan.Value, pan.Stack)
	}
	return o
}

func compare(a, b outcome) (d []string) {
	if a.panic != b.panic {
		return []string{"alone: " + a.panic + ", in company: " + b.panic}
	}
	if a.pos != b.pos {
		d = append(d, fmt.Sprintf("end position %d alone, %d in company", a.pos, b.pos))
	}
	if !reflect.DeepEqual(a.obus, b.obus) {
		d = append(d, "units decoded differ")
	}
	if !reflect.DeepEqual(a.hdr, b.hdr) || !reflect.DeepEqual(a.seq, b.seq) {
		d = append(d, "headers in force differ")
	}
	if !reflect.DeepEqual(a.trace, b.trace) {
		d = append(d, "symbols decoded differ")
	}
	for n, h := range a.cdfs {
		if b.cdfs[n] != h {
			d = append(d, n+" differs at the end")
		}
	}
	return d
}

func violate(run *v.Run, d []string, repro interface{}) {
	if len(d) > 6 {
		d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	run.Violation(strings.Join(d, "; "), repro)
}

func main() {
	run := v.Start(os.Args[1])
	logger.Initialize()
	logger.Logger = zap.NewNop()
	run.Rule = "a case is one decoder's work (a generated stream through the parser, then tiles of symbols with adaptation, saves and reinitialisation) done alone first, then again after other decoders ran, then again on a goroutine among seven others; distinct by stream and seed"
	n := run.Scale(14, 150)
	var mu sync.Mutex
	orders := map[uint64]bool{}
	for round := 0; round < n && run.Violations() == 0; round++ {
		r := run.RNG("round", round)
		jobs := make([]job, 8)
		for k := range jobs {
			jobs[k] = job{m.GenStream(r, m.StreamOpt{MaxObus: 8, MaxDim: 128, OtherPc: 15, CopyPc: 15}), r.U64(), r.In(2, 4)}
			if r.P(25) && k > 0 {
				jobs[k] = jobs[k-1] // twins: the same input at the same time
			}
		}
		alone := make([]outcome, len(jobs))
		for k, j := range jobs {
			alone[k] = decode(j, func() {})
			run.Eval(v.HashBytes(append([]byte{byte(j.seed), byte(j.seed >> 8), byte(j.seed >> 16)}, j.stream.Bytes...)), len(alone[k].trace) > 0)
			run.EventN("symbols decoded", int64(len(alone[k].trace)))
			run.EventN("CDF arrays compared", int64(3*len(alone[k].cdfs)))
			if alone[k].panic != "" {
				run.Violation("decoder on its own: "+alone[k].panic, map[string]interface{}{"round": round, "job": k, "bytes": v.Hex(j.stream.Bytes)})
			}
		}
		for k := len(jobs) - 1; k >= 0; k-- {
			if d := compare(alone[k], decode(jobs[k], func() {})); len(d) > 0 {
				violate(run, append([]string{"a later decoder differs from the first with the same input"}, d...), map[string]interface{}{"round": round, "job": k, "bytes": v.Hex(jobs[k].stream.Bytes)})
			}
			run.Event("decoder after others")
		}
		together := make([]outcome, len(jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		var order []byte
		for k := range jobs {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				y := v.NewRNG(jobs[k].seed, uint64(round))
				together[k] = decode(jobs[k], func() {
					// The order log must not order the decoders for the race
					// detector more than it has to, so only some yields take it.
					if y.P(12) {
						mu.Lock()
						order = append(order, byte(k))
						mu.Unlock()
					}
					for i := y.N(3); i > 0; i-- {
						runtime.Gosched()
					}
				})
			}(k)
		}
		close(start)
		wg.Wait()
		orders[v.HashBytes(order)] = true
		for k := range jobs {
			if d := compare(alone[k], together[k]); len(d) > 0 {
				violate(run, append([]string{"a decoder among others differs from one on its own"}, d...), map[string]interface{}{"round": round, "job": k, "bytes": v.Hex(jobs[k].stream.Bytes)})
			}
			run.Event("decoder among seven others")
		}
		if run.WantSample() {
			run.Sample(map[string]interface{}{"round": round, "order of decoders at logged yields": fmt.Sprint(order)})
		}
	}
	run.EventN("distinct interleavings logged", int64(len(orders)))
	run.Finish()
}
