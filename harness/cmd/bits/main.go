// Bitstream monitors: descriptor values and positions (B01), reads past the
// end (B02), OBU headers (H01).
package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/header"
	"github.com/m4tthewde/gov1/internal/state"
	m "github.com/m4tthewde/gov1/internal/zzverif/model"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	run := v.Start(os.Args[1])
	switch run.Prop {
	case "B01":
		descriptors(run)
	case "B02":
		truncation(run)
	case "H01":
		headers(run)
	}
	run.Finish()
}

func violate(run *v.Run, d []string, repro map[string]interface{}) {
	if len(d) > 6 {
		d = append(d[:6:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	run.Violation(strings.Join(d, "; "), repro)
}

// cursor is the reference: a list of bits and a position, values as big
// integers, descriptors as the specification defines them.
type cursor struct {
	bits []byte
	pos  int
}

func bitsOf(data []byte) []byte {
	out := make([]byte, 0, 8*len(data))
	for _, x := range data {
		for k := 7; k >= 0; k-- {
			out = append(out, x>>uint(k)&1)
		}
	}
	return out
}

type ended struct{}

func (c *cursor) f(n int) *big.Int {
	x := new(big.Int)
	for i := 0; i < n; i++ {
		if c.pos >= len(c.bits) {
			panic(ended{})
		}
		x.Lsh(x, 1)
		if c.bits[c.pos] == 1 {
			x.SetBit(x, 0, 1)
		}
		c.pos++
	}
	return x
}

func (c *cursor) i(n int) int { return int(c.f(n).Int64()) }

// op is one descriptor call.
type op struct {
	kind string
	n    int
}

func (o op) String() string { return fmt.Sprintf("%s(%d)", o.kind, o.n) }

// ref runs a descriptor on the reference; ok is false when the bits run out.
func (o op) ref(c *cursor) (val int, bytes int, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(ended); !is {
				panic(e)
			}
			ok = false
		}
	}()
	switch o.kind {
	case "f":
		return c.i(o.n), 0, true
	case "su":
		x := c.i(o.n)
		if x >= 1<<uint(o.n-1) {
			x -= 1 << uint(o.n)
		}
		return x, 0, true
	case "ns":
		w := 0
		for 1<<uint(w) <= o.n {
			w++
		}
		k := 1<<uint(w) - o.n
		x := c.i(w - 1)
		if x < k {
			return x, 0, true
		}
		return 2*x - k + c.i(1), 0, true
	case "le":
		x := new(big.Int)
		for i := 0; i < o.n; i++ {
			x.Add(x, new(big.Int).Lsh(c.f(8), uint(8*i)))
		}
		return int(x.Int64()), 0, true
	case "leb128":
		x := new(big.Int)
		for i := 0; i < 8; i++ {
			more := c.i(1)
			x.Add(x, new(big.Int).Lsh(c.f(7), uint(7*i)))
			bytes++
			if more == 0 {
				break
			}
		}
		return int(x.Int64()), bytes, true
	case "uvlc":
		z := 0
		for c.i(1) == 0 {
			z++
		}
		if z >= 32 {
			return 1<<32 - 1, 0, true
		}
		return c.i(z) + 1<<uint(z) - 1, 0, true
	}
	panic(o.kind)
}

func (o op) run(b *bitstream.BitStream) int {
	switch o.kind {
	case "f":
		return b.F(o.n)
	case "su":
		return b.Su(o.n)
	case "ns":
		return b.Ns(o.n)
	case "le":
		return b.Le(o.n)
	case "leb128":
		return b.Leb128()
	case "uvlc":
		return b.Uvlc()
	}
	panic(o.kind)
}

func genOp(r *v.RNG) op {
	switch r.N(6) {
	case 0:
		return op{"f", r.Pick(0, 1, r.N(9), r.N(33), r.N(63))}
	case 1:
		return op{"su", r.In(1, 32)}
	case 2:
		return op{"ns", r.Pick(r.In(1, 70), r.In(1, 1<<12), 1<<uint(r.N(20)), 1<<uint(r.In(1, 20))-1, 1<<uint(r.N(20))+1)}
	case 3:
		return op{"le", r.N(8)}
	case 4:
		return op{"leb128", 0}
	}
	return op{"uvlc", 0}
}

// data with long runs, so that uvlc prefixes and leb128 continuations occur
func genData(r *v.RNG, n int) []byte {
	d := r.Bytes(n)
	switch r.N(4) {
	case 0:
		for i := range d {
			d[i] |= 128
		}
	case 1:
		for i := range d {
			if r.P(70) {
				d[i] = 0
			}
		}
	case 2:
		for i := range d {
			d[i] &= byte(r.U64())
		}
	}
	return d
}

func descriptors(run *v.Run) {
	run.Rule = "a case is a history of descriptor reads on one stream: values encoded from the definitions at a random bit offset between random bits, or arbitrary bits decoded against a reference; non-trivial when at least one bit was read, distinct by bytes and operations"
	run.Par("encode", run.Scale(60000, 1500000), func(i int, r *v.RNG) {
		w := &v.Writer{Quiet: true}
		off := r.N(17)
		pre := r.Bytes(3)
		for k := 0; k < off; k++ {
			w.F("", 1, int(pre[k/8]>>uint(k%8))&1)
		}
		type want struct {
			o     op
			val   int
			end   int
			bytes int
		}
		var ws []want
		for n := r.In(1, 8); n > 0; n-- {
			o := genOp(r)
			x := want{o: o}
			switch o.kind {
			case "f":
				x.val = r.Bits(o.n)
				w.F("", o.n, x.val)
			case "su":
				x.val = r.Bits(o.n) - 1<<uint(o.n-1)
				w.Su("", o.n, x.val)
			case "ns":
				x.val = r.Pick(r.N(o.n), 0, o.n-1, o.n/2)
				w.Ns("", o.n, x.val)
			case "le":
				x.val = r.Bits(8 * o.n)
				w.Le("", o.n, x.val)
			case "leb128":
				x.val = r.Bits(r.N(57))
				x.bytes = r.In(v.LebLen(x.val), 8)
				w.LebN("", x.bytes, x.val)
			case "uvlc":
				x.val = r.Bits(r.N(33))
				if x.val == 1<<32-1 {
					w.F("", 32+r.N(4), 0)
					w.F("", 1, 1)
				} else {
					w.Uvlc("", x.val)
				}
			}
			x.end = w.Len()
			ws = append(ws, x)
		}
		bits := w.Len()
		data := w.Bytes(func() int { return r.N(2) })
		if r.Bool() {
			data = append(data, r.Bytes(r.N(4))...)
		}
		keep := string(data)
		b := bitstream.NewBitStream(data)
		b.Position = off
		c := &v.Cmp{}
		done := []string{}
		for _, x := range ws {
			got := 0
			if p := v.Catch(func() { got = x.o.run(&b) }); p != nil {
				c.Eq(x.o.String()+" panic", p.Value, "none")
				break
			}
			done = append(done, fmt.Sprintf("%v=%d", x.o, x.val))
			c.Eq(x.o.String(), got, x.val)
			c.Eq(x.o.String()+" position", b.Position, x.end)
			if x.o.kind == "leb128" {
				c.Eq("leb128 byte count", b.Leb128Bytes, x.bytes)
			}
			run.Event("read " + x.o.kind)
			if !c.Ok() {
				break
			}
		}
		if string(data) != keep {
			c.Diffs = append(c.Diffs, "input modified")
		}
		run.Eval(v.HashBytes(append([]byte(strings.Join(done, ",")), data...)), bits > off)
		repro := map[string]interface{}{"bytes": v.Hex(data), "offset": off, "reads": done, "case": i}
		if !c.Ok() {
			violate(run, c.Diffs, repro)
		} else if run.WantSample() {
			run.Sample(repro)
		}
	})
	run.Par("decode", run.Scale(60000, 1500000), func(i int, r *v.RNG) {
		data := genData(r, r.In(1, 40))
		off := r.N(8 * len(data))
		ref := &cursor{bitsOf(data), off}
		b := bitstream.NewBitStream(data)
		b.Position = off
		c := &v.Cmp{}
		done := []string{}
		for n := 0; n < 12; n++ {
			o := genOp(r)
			val, bytes, ok := o.ref(ref)
			if !ok {
				break
			}
			got := 0
			if p := v.Catch(func() { got = o.run(&b) }); p != nil {
				c.Eq(o.String()+" panic", p.Value, "none")
				break
			}
			done = append(done, fmt.Sprintf("%v=%d", o, val))
			c.Eq(o.String(), got, val)
			c.Eq(o.String()+" position", b.Position, ref.pos)
			if o.kind == "leb128" {
				c.Eq("leb128 byte count", b.Leb128Bytes, bytes)
				run.Event(fmt.Sprintf("leb128 of %d bytes", bytes))
			}
			if o.kind == "uvlc" && val == 1<<32-1 {
				run.Event("uvlc with 32 leading zeros or more")
			}
			if !c.Ok() {
				break
			}
		}
		run.Eval(v.HashBytes(append([]byte(strings.Join(done, ",")), data...)), ref.pos > off)
		if !c.Ok() {
			violate(run, c.Diffs, map[string]interface{}{"bytes": v.Hex(data), "offset": off, "reads": done, "case": i})
		}
	})
	// every value of every ns(n) and su(n) small enough to enumerate, at every
	// offset within a byte
	run.Par("exhaustive ns su", 8, func(off int, r *v.RNG) {
		var n int64
		check := func(o op, val int, enc func(w *v.Writer)) {
			w := &v.Writer{Quiet: true}
			w.F("", off, r.N(256))
			enc(w)
			data := w.Bytes(func() int { return r.N(2) })
			if len(data) == 0 {
				data = []byte{0}
			}
			b := bitstream.NewBitStream(data)
			b.Position = off
			got := -1 << 40
			p := v.Catch(func() { got = o.run(&b) })
			n++
			run.Eval(v.HashBytes([]byte(fmt.Sprint(o, val, off))), w.Len() > off)
			if p != nil || got != val || b.Position != w.Len() {
				run.Violation(fmt.Sprintf("%v at bit %d: got %d, want %d; position %d, want %d; panic %v", o, off, got, val, b.Position, w.Len(), p), map[string]interface{}{"bytes": v.Hex(data)})
			}
		}
		for k := 1; k <= 130; k++ {
			for x := 0; x < k; x++ {
				check(op{"ns", k}, x, func(w *v.Writer) { w.Ns("", k, x) })
			}
		}
		for k := 1; k <= 8; k++ {
			for x := -(1 << uint(k-1)); x < 1<<uint(k-1); x++ {
				check(op{"su", k}, x, func(w *v.Writer) { w.Su("", k, x) })
			}
		}
		run.EventN("enumerated ns and su codes", n)
	})
	// trailing_bits and byte_alignment: exactly the bits asked for
	run.Par("position", run.Scale(4000, 40000), func(i int, r *v.RNG) {
		data := r.Bytes(24)
		b := bitstream.NewBitStream(data)
		b.Position = r.N(80)
		at := b.Position
		k := r.In(1, 100)
		c := &v.Cmp{}
		if p := v.Catch(func() { b.TrailingBits(k) }); p != nil {
			c.Eq("panic", p.Value, "none")
		}
		c.Eq("trailing bits position", b.Position, at+k)
		b.Position = at
		if p := v.Catch(func() { b.ByteAlignment() }); p != nil {
			c.Eq("panic", p.Value, "none")
		}
		c.Eq("aligned position", b.Position, (at+7)/8*8)
		for _, pos := range []int{0, 1, at, 8*len(data) - 8, 8*len(data) - 1, 8 * len(data)} {
			b.Position = pos
			c.Eq(fmt.Sprintf("more data at %d of %d", pos, 8*len(data)), b.MoreDataInBistream(), pos < 8*len(data))
		}
		run.Event("alignment and trailing bits")
		run.Eval(v.HashBytes(append([]byte{byte(at), byte(k)}, data...)), true)
		if !c.Ok() {
			violate(run, c.Diffs, map[string]interface{}{"at": at, "trailing": k})
		}
	})
}

func truncation(run *v.Run) {
	run.Rule = "a case is a read or a header parse on a stream that ends before the last bit it needs, or on arbitrary bytes; non-trivial when the reference says bits are missing, distinct by bytes, position and operation"
	run.Par("reads", run.Scale(60000, 1200000), func(i int, r *v.RNG) {
		data := genData(r, r.In(0, 9))
		spare := append(append([]byte{}, data...), r.Bytes(16)...)
		// capacity beyond the length: bytes that are not part of the stream
		view := spare[:len(data):len(spare)]
		off := 0
		if len(data) > 0 {
			off = r.N(8*len(data) + 1)
		}
		ref := &cursor{bitsOf(data), off}
		b := bitstream.NewBitStream(view)
		b.Position = off
		for {
			o := genOp(r)
			if o.kind == "f" && o.n == 0 || o.kind == "le" && o.n == 0 {
				o.n = 1
			}
			val, _, ok := o.ref(ref)
			got := 0
			p := v.Catch(func() { got = o.run(&b) })
			if ok {
				if p != nil || got != val {
					run.Violation(fmt.Sprintf("%v with all its bits present: got %d, want %d, panic %v", o, got, val, p), map[string]interface{}{"bytes": v.Hex(data), "offset": off})
					return
				}
				continue
			}
			run.Event("past the end: " + o.kind)
			run.Eval(v.HashBytes(append([]byte(fmt.Sprint(o, off, ref.pos)), data...)), true)
			if p == nil {
				run.Violation(fmt.Sprintf("%v needs bits past the end of the stream and returned %d", o, got), map[string]interface{}{"bytes": v.Hex(data), "offset": off})
			}
			return
		}
	})
	run.Par("truncated sequence headers", run.Scale(8000, 100000), func(i int, r *v.RNG) {
		w := &v.Writer{Quiet: true}
		o := m.DefSeq()
		o.Timing, o.Reduced = 50, 15
		m.GenSeq(w, r, o)
		full := w.Bytes(nil)
		n := (w.Len() - 1) / 8 // bytes that miss at least the last bit
		if r.Bool() {
			n = r.N(n + 1)
		}
		spare := append(append([]byte{}, full...), r.Bytes(8)...)
		b := bitstream.NewBitStream(spare[:n:len(spare)])
		_, p := m.ParseSeq(&b, &state.State{})
		run.Eval(v.HashBytes(append([]byte{1, byte(n)}, full...)), true)
		run.Event("truncated sequence header")
		if p == nil {
			run.Violation(fmt.Sprintf("sequence header of %d bits decoded from %d bytes", w.Len(), n), map[string]interface{}{"bytes": v.Hex(full), "kept": n})
		}
	})
	run.Par("truncated frame headers", run.Scale(4000, 40000), func(i int, r *v.RNG) {
		so := m.DefSeq()
		so.MaxDim, so.Grain, so.Reduced = 64, 40, 8
		sq := m.GenSeq(&v.Writer{Quiet: true}, r, so)
		ext := m.Ext{Temporal: r.N(8), Spatial: r.N(4)}
		w := &v.Writer{Quiet: true}
		_, refs := m.GenFrame(w, r, sq, ext, m.DefFrame())
		full := w.Bytes(nil)
		n := (w.Len() - 1) / 8
		if r.Bool() {
			n = r.N(n + 1)
		}
		spare := append(append([]byte{}, full...), r.Bytes(8)...)
		st := &state.State{}
		refs.Install(st)
		b := bitstream.NewBitStream(spare[:n:len(spare)])
		_, p := m.ParseFrame(&b, st, sq.Header(), ext)
		run.Eval(v.HashBytes(append([]byte{2, byte(n)}, full...)), true)
		run.Event("truncated frame header")
		if p == nil {
			run.Violation(fmt.Sprintf("frame header of %d bits decoded from %d bytes", w.Len(), n), map[string]interface{}{"bytes": v.Hex(full), "kept": n})
		}
	})
	run.Par("arbitrary bytes", run.Scale(30000, 400000), func(i int, r *v.RNG) {
		data := genData(r, r.N(60))
		keep := string(data)
		b := bitstream.NewBitStream(data)
		_, p := m.ParseSeq(&b, &state.State{})
		run.Eval(v.HashBytes(append([]byte{3}, data...)), true)
		if p != nil {
			run.Event("arbitrary bytes refused")
		} else {
			run.Event("arbitrary bytes accepted")
		}
		if p == nil && b.Position > 8*len(data) {
			run.Violation(fmt.Sprintf("sequence header ends at bit %d of %d", b.Position, 8*len(data)), map[string]interface{}{"bytes": v.Hex(data)})
		}
		if string(data) != keep {
			run.Violation("input modified", map[string]interface{}{"bytes": v.Hex([]byte(keep))})
		}
	})
	run.Sample(map[string]interface{}{"note": "counts per kind of missing bits in observed_events"})
}

func headers(run *v.Run) {
	run.Rule = "every OBU header byte with every extension byte (65536), at each of 8 bit offsets; all are non-trivial, distinct by bytes and offset"
	run.Exhaust = true
	run.Par("headers", 8*256, func(i int, r *v.RNG) {
		off, h := i%8, i/8
		seen := map[string]int64{}
		for e := 0; e < 256; e++ {
			w := &v.Writer{Quiet: true}
			w.F("", off, r.N(256))
			w.F("", 8, h)
			w.F("", 8, e)
			data := w.Bytes(func() int { return r.N(2) })
			b := bitstream.NewBitStream(data)
			b.Position = off
			var got header.Header
			p := v.Catch(func() { got = header.NewHeader(&b) })
			c := &v.Cmp{}
			if p != nil {
				c.Eq("panic", p.Value, "none")
			}
			ext := h >> 2 & 1
			c.Eq("forbidden bit", got.ForbiddenBit, h>>7)
			c.Eq("type", got.Type, h>>3&15)
			c.Eq("extension flag", got.ExtensionFlag, ext)
			c.Eq("has size", got.HasSizeField, h>>1&1)
			c.Eq("reserved bit", got.ReservedBit, h&1)
			if ext == 1 {
				c.Eq("temporal id", got.ExtensionHeader.TemporalID, e>>5)
				c.Eq("spatial id", got.ExtensionHeader.SpatialID, e>>3&3)
				c.Eq("extension reserved bits", got.ExtensionHeader.Reserved3Bits, e&7)
			} else {
				c.Eq("temporal id", got.ExtensionHeader.TemporalID, 0)
				c.Eq("spatial id", got.ExtensionHeader.SpatialID, 0)
			}
			c.Eq("bits consumed", b.Position-off, 8+8*ext)
			seen[fmt.Sprintf("type %d extension %d", h>>3&15, ext)]++
			run.Eval(v.HashBytes([]byte{byte(h), byte(e), byte(off)}), true)
			if !c.Ok() {
				violate(run, c.Diffs, map[string]interface{}{"header": h, "extension": e, "offset": off})
				return
			}
		}
		run.Events(seen)
	})
	run.Sample(map[string]interface{}{"header": "0x36", "extension": "0xa8", "meaning": "type 6, extension, size field; temporal 5, spatial 1"})
}
