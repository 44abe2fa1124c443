package vlib

import "fmt"

// Writer builds a bitstream from the definitions of the descriptors, written
// independently of the reader under test. It holds one bit per element.
type Writer struct {
	Bit   []byte
	Trace []string
	Quiet bool
}

func (w *Writer) Len() int { return len(w.Bit) }

func (w *Writer) note(kind, name string, v interface{}) {
	if !w.Quiet && name != "" {
		w.Trace = append(w.Trace, fmt.Sprintf("%s:%s=%v", name, kind, v))
	}
}

func (w *Writer) put(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if i >= 64 {
			w.Bit = append(w.Bit, 0)
		} else {
			w.Bit = append(w.Bit, byte(v>>uint(i))&1)
		}
	}
}

// F appends an n-bit unsigned value, most significant bit first.
func (w *Writer) F(name string, n int, v int) int {
	w.put(n, uint64(v))
	w.note(fmt.Sprintf("f%d", n), name, v)
	return v
}

// B appends a flag.
func (w *Writer) B(name string, v bool) bool {
	x := 0
	if v {
		x = 1
	}
	w.F(name, 1, x)
	return v
}

// Su appends an n-bit two's complement value.
func (w *Writer) Su(name string, n int, v int) int {
	w.put(n, uint64(v)&(uint64(1)<<uint(n)-1))
	w.note(fmt.Sprintf("su%d", n), name, v)
	return v
}

// Ns appends v, 0 <= v < n, in the non-symmetric code.
func (w *Writer) Ns(name string, n int, v int) int {
	bits := 0 // floor(log2(n)) + 1
	for (n >> uint(bits)) != 0 {
		bits++
	}
	short := (1 << uint(bits)) - n // that many values have bits-1 bits
	if v < short {
		w.put(bits-1, uint64(v))
	} else {
		w.put(bits, uint64(v+short))
	}
	w.note(fmt.Sprintf("ns%d", n), name, v)
	return v
}

// Le appends an n-byte little-endian value.
func (w *Writer) Le(name string, n int, v int) int {
	for i := 0; i < n; i++ {
		w.put(8, uint64(v>>uint(8*i))&255)
	}
	w.note(fmt.Sprintf("le%d", n), name, v)
	return v
}

// LebN appends v in exactly n leb128 bytes (n large enough for v).
func (w *Writer) LebN(name string, n int, v int) int {
	for i := 0; i < n; i++ {
		b := uint64(v>>uint(7*i)) & 127
		if i < n-1 {
			b |= 128
		}
		w.put(8, b)
	}
	w.note(fmt.Sprintf("leb128/%d", n), name, v)
	return v
}

// LebLen is the length of the shortest leb128 code of v.
func LebLen(v int) int {
	n := 1
	for v >= 128 {
		v >>= 7
		n++
	}
	return n
}

func (w *Writer) Leb(name string, v int) int { return w.LebN(name, LebLen(v), v) }

// Uvlc appends v < 2^32 - 1 in the variable length unsigned code.
func (w *Writer) Uvlc(name string, v int) int {
	x := uint64(v) + 1
	n := 0
	for x>>uint(n+1) != 0 {
		n++
	}
	w.put(n, 0)
	w.put(n+1, x)
	w.note("uvlc", name, v)
	return v
}

// Raw appends bytes.
func (w *Writer) Raw(b []byte) {
	for _, x := range b {
		w.put(8, uint64(x))
	}
}

// Append appends the bits of another writer.
func (w *Writer) Append(o *Writer) {
	w.Bit = append(w.Bit, o.Bit...)
	if !w.Quiet {
		w.Trace = append(w.Trace, o.Trace...)
	}
}

// AlignZero pads with zero bits to a byte boundary.
func (w *Writer) AlignZero() {
	for len(w.Bit)&7 != 0 {
		w.Bit = append(w.Bit, 0)
	}
}

// Bytes packs the bits; the rest of the last byte is filled from fill.
func (w *Writer) Bytes(fill func() int) []byte {
	bits := w.Bit
	n := (len(bits) + 7) / 8
	out := make([]byte, n)
	for i := 0; i < n*8; i++ {
		v := byte(0)
		if i < len(bits) {
			v = bits[i]
		} else if fill != nil {
			v = byte(fill() & 1)
		}
		out[i>>3] |= v << uint(7-i&7)
	}
	return out
}
