package model

import "math/big"

// Encoder is the inverse of the symbol decoding process. It keeps the interval
// [low, low+rng) of the complemented bit string exactly, as an integer of Bits
// bits: the bytes in front that only a carry can still change, and the rest.
type Encoder struct {
	front []byte
	rest  uint64
	bits  uint // of rest
	rng   int
	Bits  int
}

func NewEncoder() *Encoder {
	return &Encoder{bits: 15, rng: 1 << 15, Bits: 15}
}

func (e *Encoder) add(x int) {
	e.rest += uint64(x)
	if e.rest>>e.bits == 0 {
		return
	}
	e.rest -= 1 << e.bits
	for i := len(e.front) - 1; ; i-- {
		e.front[i]++
		if e.front[i] != 0 {
			return
		}
	}
}

func (e *Encoder) shift() {
	e.rest <<= 1
	e.bits++
	e.Bits++
	if e.bits >= 40 {
		e.front = append(e.front, byte(e.rest>>(e.bits-8)))
		e.bits -= 8
		e.rest &= 1<<e.bits - 1
	}
}

func (e *Encoder) low() *big.Int {
	x := new(big.Int).SetBytes(e.front)
	return x.Or(x.Lsh(x, e.bits), new(big.Int).SetUint64(e.rest))
}

// bound is the lower end of symbol s in a range r; cdf has n+1 entries.
func bound(r int, cdf []int, s int) int {
	n := len(cdf) - 1
	if s == n-1 {
		return 0
	}
	f := 32768 - cdf[s]
	return (r>>8)*(f>>6)/2 + 4*(n-1-s)
}

// Put encodes symbol s of the n-symbol cdf.
func (e *Encoder) Put(cdf []int, s int) {
	if Trace != nil {
		Trace(cdf, s)
	}
	hi := e.rng
	if s > 0 {
		hi = bound(e.rng, cdf, s-1)
	}
	lo := bound(e.rng, cdf, s)
	e.add(lo)
	e.rng = hi - lo
	for e.rng < 1<<15 {
		e.rng <<= 1
		e.shift()
	}
}

// Range is the current range.
func (e *Encoder) Range() int { return e.rng }

// Finish gives the shortest tile data of at least min bytes whose decoding
// yields the symbols: bits past the data read as zero, and conforming data is
// at most 14 bits short.
func (e *Encoder) Finish(min int, fill func() int) []byte {
	low := e.low()
	hi := new(big.Int).Add(low, big.NewInt(int64(e.rng)))
	for n := min; ; n++ {
		k := 8 * n // bits written
		if k < e.Bits-14 {
			continue
		}
		if k >= e.Bits {
			k = e.Bits
		}
		sh := uint(e.Bits - k)
		ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), sh), big.NewInt(1))
		// smallest y >= low of the form prefix . 111..1
		y := new(big.Int).Set(low)
		pre := new(big.Int).Rsh(y, sh)
		y = new(big.Int).Or(new(big.Int).Lsh(pre, sh), ones)
		if y.Cmp(hi) >= 0 {
			continue
		}
		// another prefix in the interval, when there is one
		for step := fill() * 7; step > 0; step-- {
			p2 := new(big.Int).Add(pre, big.NewInt(1))
			y2 := new(big.Int).Or(new(big.Int).Lsh(p2, sh), ones)
			if y2.Cmp(hi) >= 0 {
				break
			}
			pre = p2
		}
		out := make([]byte, n)
		for i := 0; i < 8*n; i++ {
			b := 0
			if i < k {
				b = 1 - int(pre.Bit(k-1-i))
			} else {
				b = fill() & 1
			}
			out[i>>3] |= byte(b) << uint(7-i&7)
		}
		return out
	}
}

// Close gives conforming tile data: after the bits the symbols settle come a one
// and zeros, to the end of the byte or of any more bytes.
func (e *Encoder) Close(more int) []byte {
	// one complemented prefix . 0 111.. lies in the interval, whose length is
	// 2^15 or more
	low := e.low()
	pre := new(big.Int).Rsh(low, 15)
	y := new(big.Int).Or(new(big.Int).Lsh(pre, 15), big.NewInt(1<<14-1))
	if y.Cmp(low) < 0 {
		pre.Add(pre, big.NewInt(1))
	}
	k := e.Bits - 15
	out := make([]byte, k/8+1+more)
	for i := 0; i <= k; i++ {
		b := 1
		if i < k {
			b = 1 - int(pre.Bit(k-1-i))
		}
		out[i>>3] |= byte(b) << uint(7-i&7)
	}
	return out
}

// Adapt is the CDF update of the symbol decoding process, by its definition:
// every entry moves towards the indicator of the symbol at a rate that grows
// with the number of symbols seen and the size of the alphabet.
func Adapt(cdf []int, s int) {
	n := len(cdf) - 1
	rate := uint(3)
	if cdf[n] > 15 {
		rate++
	}
	if cdf[n] > 31 {
		rate++
	}
	switch {
	case n >= 4:
		rate += 2
	case n >= 2:
		rate++
	}
	for i := 0; i < n-1; i++ {
		if i >= s {
			cdf[i] += (32768 - cdf[i]) >> rate
		} else {
			cdf[i] -= cdf[i] >> rate
		}
	}
	if cdf[n] < 32 {
		cdf[n]++
	}
}
