package model

import "math"

// Inverse transforms, written as recursive networks on naturally ordered
// vectors: a size N DCT is a size N/2 DCT of the even inputs and an odd network
// of N/2 rotations and additions. Intermediate values are rounded to integers
// after every rotation and clamped to r bits after every addition.

// TX size in AV1 order: width and height logarithms.
var TxW = []int{2, 3, 4, 5, 6, 2, 3, 3, 4, 4, 5, 5, 6, 2, 4, 3, 5, 4, 6}
var TxH = []int{2, 3, 4, 5, 6, 3, 2, 4, 3, 5, 4, 6, 5, 4, 2, 5, 3, 6, 4}

// 1-D kinds
const (
	kDCT = iota
	kADST
	kFlip
	kID
)

// TxKinds gives the column and row kind of each transform type.
var TxKinds = [16][2]int{
	{kDCT, kDCT}, {kADST, kDCT}, {kDCT, kADST}, {kADST, kADST},
	{kFlip, kDCT}, {kDCT, kFlip}, {kFlip, kFlip}, {kADST, kFlip}, {kFlip, kADST},
	{kID, kID}, {kDCT, kID}, {kID, kDCT}, {kADST, kID}, {kID, kADST}, {kFlip, kID}, {kID, kFlip},
}

type Itx struct {
	bits int
	Over bool // a value left r bits: such a stream does not conform
}

func cosq(a int) int { return int(math.Round(4096 * math.Cos(float64(a)*math.Pi/128))) }
func sinq(a int) int { return int(math.Round(4096 * math.Sin(float64(a)*math.Pi/128))) }

func (x *Itx) see(v int) int {
	if v >= 1<<uint(x.bits-1) || v < -1<<uint(x.bits-1) {
		x.Over = true
	}
	return v
}

func (x *Itx) rnd(v int) int { return x.see((v + 2048) >> 12) }

func (x *Itx) clip(v int) int {
	m := 1 << uint(x.bits-1)
	if v >= m {
		return m - 1
	}
	if v < -m {
		return -m
	}
	return v
}

// rot rotates (a, b) by the angle.
func (x *Itx) rot(a, b, angle int) (int, int) {
	c, s := cosq(angle), sinq(angle)
	return x.rnd(a*c - b*s), x.rnd(a*s + b*c)
}

func rev(n, v int) int {
	o := 0
	for i := 0; i < n; i++ {
		o = o<<1 | v>>uint(i)&1
	}
	return o
}

// DCT is the inverse DCT of 2^n values in natural order.
func (x *Itx) DCT(n int, in []int) []int {
	if n == 1 {
		b, a := x.rot(in[0], in[1], 32)
		return []int{a, b}
	}
	N := 1 << uint(n)
	even := make([]int, N/2)
	for i := range even {
		even[i] = in[2*i]
	}
	e := x.DCT(n-1, even)
	o := x.odd(n, in)
	out := make([]int, N)
	for i := range e {
		out[i] = x.clip(e[i] + o[N/2-1-i])
		out[N-1-i] = x.clip(e[i] - o[N/2-1-i])
	}
	return out
}

func (x *Itx) odd(n int, in []int) []int {
	M := 1 << uint(n-1)
	v := make([]int, M)
	// input rotations: frequencies k and N-k
	for i := 0; i < M/2; i++ {
		k := rev(n, M+i)
		v[i], v[M-1-i] = x.rot(in[k], in[2*M-k], 64-(k<<uint(6-n)))
	}
	if M == 2 {
		return v
	}
	for s := 1; s < M/2; s *= 2 {
		x.fold(v, 2*s)
		if s == M/4 {
			break
		}
		x.turn(v, 2*s)
	}
	// last rotation by a quarter turn of the middle half
	for i := M / 4; i < M/2; i++ {
		j := M - 1 - i
		v[i], v[j] = x.rot(v[j], v[i], 32)
	}
	return v
}

// fold adds and subtracts mirrored elements of groups of g, every second group upside down.
func (x *Itx) fold(v []int, g int) {
	for k := 0; k*g < len(v); k++ {
		for j := 0; j < g/2; j++ {
			a, b := k*g+j, k*g+g-1-j
			if k%2 == 1 {
				a, b = b, a
			}
			v[a], v[b] = x.clip(v[a]+v[b]), x.clip(v[a]-v[b])
		}
	}
}

// turn rotates the middle of every 2s with its mirror image.
func (x *Itx) turn(v []int, s int) {
	K := len(v) / (4 * s)
	lg := 0
	for 1<<uint(lg) < K {
		lg++
	}
	for k := 0; k < K; k++ {
		angle := 64 - 16/K - 64*rev(lg, k)/K
		for j := 0; j < s; j++ {
			p := s/2 + 2*s*k + j
			q := len(v) - 1 - p
			a := angle
			if j >= s/2 {
				a += 64
			}
			y, z := x.rot(v[q], v[p], a)
			v[q], v[p] = z, y
		}
	}
}

// ADST4, ADST8 and ADST16 in the form of a table of products.
func (x *Itx) ADST4(in []int) []int {
	s := func(k int) int { // sin(k pi/9) scaled by 4096*2*sqrt(2)/3
		return int(math.Round(4096 * 2 * math.Sqrt2 / 3 * math.Sin(float64(k)*math.Pi/9)))
	}
	a, b, c, d := in[0], in[1], in[2], in[3]
	return []int{
		x.rnd(s(1)*a + s(3)*b + s(4)*c + s(2)*d),
		x.rnd(s(2)*a + s(3)*b - s(1)*c - s(4)*d),
		x.rnd(s(3)*a - s(3)*c + s(3)*d),
		x.rnd((s(1)+s(2))*a - s(3)*b + (s(4)-s(1))*c + (s(2)-s(4))*d),
	}
}

// mul computes a*cos + b*sin and a*sin - b*cos of k pi/64.
func (x *Itx) mul(a, b, angle int) (int, int) {
	c, s := cosq(angle), sinq(angle)
	return x.rnd(a*c + b*s), x.rnd(a*s - b*c)
}

func (x *Itx) add(v []int, i, j int) { v[i], v[j] = x.clip(v[i]+v[j]), x.clip(v[i]-v[j]) }

func (x *Itx) ADST8(in []int) []int {
	v := make([]int, 8)
	for i := 0; i < 4; i++ {
		v[2*i], v[2*i+1] = x.mul(in[7-2*i], in[2*i], 4+16*i)
	}
	for i := 0; i < 4; i++ {
		x.add(v, i, i+4)
	}
	v[4], v[5] = x.mul(v[4], v[5], 16)
	v[7], v[6] = x.neg(v[7], v[6], 16)
	for _, k := range []int{0, 1, 4, 5} {
		x.add(v, k, k+2)
	}
	v[2], v[3] = x.mul(v[2], v[3], 32)
	v[6], v[7] = x.mul(v[6], v[7], 32)
	return []int{v[0], -v[4], v[6], -v[2], v[3], -v[7], v[5], -v[1]}
}

// neg computes a*cos - b*sin for the second and a*sin + b*cos for the first result.
func (x *Itx) neg(a, b, angle int) (int, int) {
	c, s := cosq(angle), sinq(angle)
	return x.rnd(a*s + b*c), x.rnd(a*c - b*s)
}

func (x *Itx) ADST16(in []int) []int {
	v := make([]int, 16)
	for i := 0; i < 8; i++ {
		v[2*i], v[2*i+1] = x.mul(in[15-2*i], in[2*i], 2+8*i)
	}
	for i := 0; i < 8; i++ {
		x.add(v, i, i+8)
	}
	v[8], v[9] = x.mul(v[8], v[9], 8)
	v[10], v[11] = x.mul(v[10], v[11], 40)
	v[13], v[12] = x.neg(v[13], v[12], 8)
	v[15], v[14] = x.neg(v[15], v[14], 40)
	for _, k := range []int{0, 1, 2, 3, 8, 9, 10, 11} {
		x.add(v, k, k+4)
	}
	for _, k := range []int{4, 12} {
		v[k], v[k+1] = x.mul(v[k], v[k+1], 16)
		v[k+3], v[k+2] = x.neg(v[k+3], v[k+2], 16)
	}
	for _, k := range []int{0, 1, 4, 5, 8, 9, 12, 13} {
		x.add(v, k, k+2)
	}
	for _, k := range []int{2, 6, 10, 14} {
		v[k], v[k+1] = x.mul(v[k], v[k+1], 32)
	}
	return []int{v[0], -v[8], v[12], -v[4], v[6], -v[14], v[10], -v[2], v[3], -v[11], v[15], -v[7], v[5], -v[13], v[9], -v[1]}
}

func (x *Itx) Identity(n int, in []int) []int {
	o := make([]int, len(in))
	for i, v := range in {
		switch n {
		case 2:
			o[i] = x.rnd(v * 5793)
		case 3:
			o[i] = x.see(v * 2)
		case 4:
			o[i] = x.rnd(v * 11586)
		case 5:
			o[i] = x.see(v * 4)
		}
	}
	return o
}

// WHT is the lossless transform: (a,b,c,d) from the rotation free Walsh-Hadamard lifting.
func (x *Itx) WHT(in []int, shift uint) []int {
	a, c, d, b := in[0]>>shift, in[1]>>shift, in[2]>>shift, in[3]>>shift
	s, t := a+c, d-b
	e := (s - t) >> 1
	b, c = e-b, e-c
	return []int{x.see(s - b), x.see(b), x.see(c), x.see(t + c)}
}

func (x *Itx) one(kind, n int, in []int) []int {
	switch {
	case kind == kDCT:
		return x.DCT(n, in)
	case kind == kID:
		return x.Identity(n, in)
	case n == 2:
		return x.ADST4(in)
	case n == 3:
		return x.ADST8(in)
	}
	return x.ADST16(in)
}

// TxTypesOf lists the transform types a size allows.
func TxTypesOf(size int) []int {
	m := TxW[size]
	if TxH[size] > m {
		m = TxH[size]
	}
	switch m {
	case 6:
		return []int{0}
	case 5:
		return []int{0, 9}
	}
	o := make([]int, 16)
	for i := range o {
		o[i] = i
	}
	return o
}

// Inverse computes the residual of a block of dequantised coefficients (at most
// 32x32 of them), not yet flipped. conform is false if an intermediate value
// does not fit, which no conforming stream produces.
func Inverse(size, typ int, lossless bool, depth int, coef func(i, j int) int) (res [][]int, conform bool) {
	lw, lh := TxW[size], TxH[size]
	w, h := 1<<uint(lw), 1<<uint(lh)
	conform = true
	tmp := make([][]int, h)
	area := lw + lh
	// the two rounding shifts together remove the gain of the transform
	rowShift := map[int]int{4: 0, 5: 0, 6: 1, 7: 1, 8: 2, 9: 1, 10: 2, 11: 1, 12: 2}[area]
	if lw-lh == 2 || lh-lw == 2 {
		rowShift = map[int]int{6: 1, 8: 2, 10: 2}[area]
	}
	if lossless {
		rowShift = 0
	}
	colBits := depth + 6
	if colBits < 16 {
		colBits = 16
	}
	for i := range tmp {
		row := make([]int, w)
		for j := range row {
			if i < 32 && j < 32 {
				row[j] = coef(i, j)
			}
		}
		if lw-lh == 1 || lh-lw == 1 {
			for j := range row {
				row[j] = (row[j]*2896 + 2048) >> 12
			}
		}
		x := &Itx{bits: depth + 8}
		if lossless {
			row = x.WHT(row, 2)
		} else {
			row = x.one(TxKinds[typ][1], lw, row)
		}
		conform = conform && !x.Over
		c := &Itx{bits: colBits}
		for j := range row {
			if rowShift > 0 {
				row[j] = (row[j] + 1<<uint(rowShift-1)) >> uint(rowShift)
			}
			row[j] = c.clip(row[j])
		}
		tmp[i] = row
	}
	res = make([][]int, h)
	for i := range res {
		res[i] = make([]int, w)
	}
	for j := 0; j < w; j++ {
		col := make([]int, h)
		for i := range col {
			col[i] = tmp[i][j]
		}
		x := &Itx{bits: colBits}
		if lossless {
			x.bits = depth + 8
			col = x.WHT(col, 0)
		} else {
			col = x.one(TxKinds[typ][0], lh, col)
		}
		conform = conform && !x.Over
		for i := range col {
			if lossless {
				res[i][j] = col[i]
			} else {
				res[i][j] = (col[i] + 8) >> 4
			}
		}
	}
	return
}

// Real is the exact inverse transform, up to the rounding of the integer one.
func Real(kind, n int, in []int) []float64 {
	N := 1 << uint(n)
	out := make([]float64, N)
	for i := range out {
		for k, c := range in {
			f, ii, kk := float64(c), float64(i), float64(k)
			switch {
			case kind == kID:
				if k == i {
					out[i] = f * math.Sqrt(float64(N)/2)
				}
				continue
			case kind == kDCT:
				b := math.Cos((2*ii + 1) * kk * math.Pi / float64(2*N))
				if k == 0 {
					b = math.Sqrt2 / 2
				}
				out[i] += f * b
			case n == 2:
				out[i] += f * 2 * math.Sqrt2 / 3 * math.Sin((ii+1)*(2*kk+1)*math.Pi/9)
			default:
				out[i] += f * math.Sin((2*ii+1)*(2*kk+1)*math.Pi/float64(4*N))
			}
		}
	}
	return out
}
