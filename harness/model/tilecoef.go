package model

import (
	"fmt"
)

// Quantised coefficients, dequantisation, and the prediction and reconstruction
// of transform blocks.

// planeDims is the size of the part of a block in a plane.
func (t *Tile) planeDims(w, h, plane int) (int, int) {
	sx, sy := t.sub(plane)
	return imax(4, w>>sx), imax(4, h>>sy)
}

func (t *Tile) chromaTx(b *Blk) int {
	if b.Lossless {
		return 0
	}
	w, h := t.planeDims(b.W, b.H, 1)
	if w >= 64 || h >= 64 {
		w, h = imin(w, 32), imin(h, 32)
	}
	return txOf(w, h)
}

func (t *Tile) planes(b *Blk) int {
	if b.Chroma {
		return 3
	}
	return 1
}

// residual predicts, codes and reconstructs the transform blocks of a block, in
// chunks of at most 64x64.
func (t *Tile) residual(b *Blk) {
	cw, ch := imin(b.W, 64), imin(b.H, 64)
	for y := 0; y < b.H; y += ch {
		for x := 0; x < b.W; x += cw {
			for p := 0; p < t.planes(b); p++ {
				sx, sy := t.sub(p)
				size := b.Tx
				if p > 0 {
					size = t.chromaTx(b)
				}
				w, h := t.planeDims(cw, ch, p)
				if b.Inter && p == 0 && !b.Lossless {
					t.txTree(b, b.C*4+x, b.R*4+y, w, h)
					continue
				}
				tw, th := 1<<uint(TxW[size]), 1<<uint(TxH[size])
				for i := 0; i < h; i += th {
					for j := 0; j < w; j += tw {
						t.transformBlock(b, p, (b.C>>sx*4)+x>>sx+j, (b.R>>sy*4)+y>>sy+i, size)
					}
				}
			}
		}
	}
}

func (t *Tile) transformBlock(b *Blk, p, x, y, size int) {
	sx, sy := t.sub(p)
	w, h := 1<<uint(TxW[size]), 1<<uint(TxH[size])
	if x >= 4*t.Cols>>sx || y >= 4*t.Rows>>sy {
		t.Ev["transform blocks outside the frame"]++
		return
	}
	if !b.Inter {
		t.predict(b, p, x, y, w, h)
	}
	if !b.Skip {
		t.coeffs(b, p, x, y, size)
	}
	for i := 0; i < h/4; i++ {
		for j := 0; j < w/4; j++ {
			t.LfTx[p][y/4+i][x/4+j] = size
			t.done[p][y/4+i][x/4+j] = true
		}
	}
}

// decoded tells whether the 4x4 block of a plane was decoded and may be used.
func (t *Tile) decoded(p, y4, x4 int) bool {
	sx, sy := t.sub(p)
	if y4 < 0 || x4 < 0 || !t.inside(y4<<sy, x4<<sx) {
		return false
	}
	return t.done[p][y4][x4]
}

func (t *Tile) smooth(b *Blk, p int) bool {
	sx, sy := t.sub(p)
	is := func(n *Blk) bool {
		if n == nil {
			return false
		}
		mode := n.YMode
		if p > 0 {
			if n.Ref[0] > 0 {
				return false
			}
			mode = n.UVMode
		}
		return mode >= Smooth && mode <= SmoothH
	}
	up := t.at(b.R&^int(sy)-1, b.C|int(sx))
	left := t.at(b.R|int(sy), b.C&^int(sx)-1)
	return is(up) || is(left)
}

func (t *Tile) predict(b *Blk, p, x, y, w, h int) {
	sx, sy := t.sub(p)
	bx, by := b.C>>sx*4, b.R>>sy*4
	pal, colors, m := b.Pal[0], b.Pal[0], b.colorY
	if p > 0 {
		pal, colors, m = b.Pal[1], b.Pal[1], b.colorUV
	}
	if p == 2 {
		colors = b.PalV
	}
	if len(pal) > 0 {
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				t.Cur[p][y+i][x+j] = colors[m[y-by+i][x-bx+j]]
			}
		}
		t.Ev["palette predictions"]++
	} else {
		q := IntraReq{Plane: p, X: x, Y: y, W: w, H: h, Depth: t.Depth, MaxX: 4*t.Cols>>sx - 1, MaxY: 4*t.Rows>>sy - 1,
			Mode: b.YMode, Delta: b.AngleY, Filter: b.Filter, EdgeFilter: t.EdgeFilter, Smooth: t.smooth(b, p),
			Left: t.inside(b.R, b.C-1) || x > bx, Above: t.inside(b.R-1, b.C) || y > by}
		if p > 0 {
			q.Mode, q.Delta, q.Filter = b.UVMode, b.AngleUV, -1
			if q.Mode == CFL {
				q.Mode = DC
			}
			q.Left, q.Above = b.LeftC || x > bx, b.UpC || y > by
		}
		q.AboveRight = t.decoded(p, y/4-1, (x+w)/4)
		q.BelowLeft = t.decoded(p, (y+h)/4, x/4-1)
		for i, row := range q.Predict(t.Cur[p]) {
			copy(t.Cur[p][y+i][x:], row)
		}
		t.Ev["intra predictions"]++
		if q.Above && q.AboveRight {
			t.Ev["with samples above right"]++
		}
		if q.Left && q.BelowLeft {
			t.Ev["with samples below left"]++
		}
		if p > 0 && b.UVMode == CFL {
			t.predictCfl(b, p, x, y, w, h)
		}
	}
	if p == 0 {
		b.lumaW, b.lumaH = x+w, y+h
	}
}

// predictCfl adds the scaled luma, without its mean, to the DC prediction.
func (t *Tile) predictCfl(b *Blk, p, x, y, w, h int) {
	sx, sy := t.sub(p)
	l := grid(h, w, 0)
	sum := 0
	for i := range l {
		for j := range l[i] {
			ly := imin((y+i)<<sy, b.lumaH-1-int(sy))
			lx := imin((x+j)<<sx, b.lumaW-1-int(sx))
			n := 0
			for dy := 0; dy <= int(sy); dy++ {
				for dx := 0; dx <= int(sx); dx++ {
					l[i][j] += t.Cur[0][ly+dy][lx+dx]
					n++
				}
			}
			l[i][j] = l[i][j] * 8 / n
			sum += l[i][j]
		}
	}
	avg := (sum + w*h/2) / (w * h)
	for i := range l {
		for j := range l[i] {
			t.Cur[p][y+i][x+j] = iclip(0, 1<<uint(t.Depth)-1, t.Cur[p][y+i][x+j]+signed2(b.Alpha[p-1]*(l[i][j]-avg), 6))
		}
	}
	t.Ev["chroma from luma predictions"]++
}

// transform type sets: the types each index stands for
var (
	intraSet1 = []int{9, 0, 10, 11, 3, 1, 2}
	intraSet2 = []int{9, 0, 3, 1, 2}
	interSet1 = []int{9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 4, 5, 3, 6, 7, 8}
	interSet2 = []int{9, 10, 11, 0, 1, 2, 4, 5, 3, 6, 7, 8}
	interSet3 = []int{9, 0}
)

// txSet gives the transform types a block may use and their number in the
// sequence of sets (0: only DCT).
func (t *Tile) txSet(b *Blk, size int) (types []int, num int) {
	lo, hi := imin(TxW[size], TxH[size]), imax(TxW[size], TxH[size])
	if hi > 5 {
		return []int{0}, 0
	}
	if b.Inter {
		switch {
		case t.ReducedTx || hi == 5:
			return interSet3, 3
		case lo == 4:
			return interSet2, 2
		}
		return interSet1, 1
	}
	switch {
	case hi == 5:
		return []int{0}, 0
	case t.ReducedTx || lo == 4:
		return intraSet2, 2
	}
	return intraSet1, 1
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// qIndex of a segment, with or without the superblock's delta.
func (t *Tile) qIndex(seg int, delta bool) int {
	q := t.BaseQ
	if delta && t.DeltaQ {
		q = t.QIdx
	}
	if t.Seg && t.SegOn[seg][0] == 1 {
		q = iclip(0, 255, q+t.SegData[seg][0])
	}
	return q
}

// lumaTxType codes the transform type of a luma block.
func (t *Tile) lumaTxType(b *Blk, x, y, size int) {
	typ := 0
	types, num := t.txSet(b, size)
	if num > 0 && t.qIndex(b.Seg, false) > 0 {
		sq := imin(TxW[size], TxH[size]) - 2
		var cdf []int
		if b.Inter {
			switch num {
			case 1:
				cdf = t.S.InterTxTypeSet1Cdf[sq]
			case 2:
				cdf = t.S.InterTxTypeSet2Cdf
			default:
				cdf = t.S.InterTxTypeSet3Cdf[sq]
			}
		} else {
			dir := b.YMode
			if b.Filter >= 0 {
				dir = []int{DC, VPred, HPred, D157, DC}[b.Filter]
			}
			if num == 1 {
				cdf = t.S.IntraTxTypeSet1Cdf[sq][dir]
			} else {
				cdf = t.S.IntraTxTypeSet2Cdf[sq][dir]
			}
		}
		typ = types[t.K.Sym(cdf)]
		t.Ev["transform types read"]++
	}
	t.setTxType(x, y, size, typ)
}

func (t *Tile) setTxType(x, y, size, typ int) {
	for i := 0; i < 1<<uint(TxH[size]-2); i++ {
		for j := 0; j < 1<<uint(TxW[size]-2); j++ {
			t.TxTypes[y/4+i][x/4+j] = typ
		}
	}
}

// txType is the type a transform block has.
func (t *Tile) txType(b *Blk, p, x, y, size int) int {
	if b.Lossless || TxW[size] > 5 || TxH[size] > 5 {
		return 0
	}
	if p == 0 {
		return t.TxTypes[y/4][x/4]
	}
	typ := map[int]int{VPred: 1, HPred: 2, D135: 3, D113: 1, D157: 2, D203: 2, D67: 1, Smooth: 3, SmoothV: 1, SmoothH: 2, Paeth: 3}[b.UVMode]
	if b.Inter {
		typ = t.TxTypes[imax(b.R, y/4<<uint(t.SY))][imax(b.C, x/4<<uint(t.SX))]
	}
	if types, _ := t.txSet(b, size); !has(types, typ) {
		return 0
	}
	return typ
}

// txClass: 0 for two-dimensional types, 1 for horizontal and 2 for vertical ones.
func txClass(typ int) int {
	switch typ {
	case 10, 12, 14:
		return 2
	case 11, 13, 15:
		return 1
	}
	return 0
}

// scanOrder lists the positions of a w x h block in coding order, as row*w+col.
func scanOrder(w, h, class int) []int {
	var o []int
	switch class {
	case 2:
		for i := 0; i < w*h; i++ {
			o = append(o, i)
		}
		return o
	case 1:
		for c := 0; c < w; c++ {
			for r := 0; r < h; r++ {
				o = append(o, r*w+c)
			}
		}
		return o
	}
	for d := 0; d < w+h-1; d++ {
		down := d%2 == 1
		if w != h {
			down = w < h
		}
		var diag []int
		for r := 0; r < h; r++ {
			if c := d - r; c >= 0 && c < w {
				diag = append(diag, r*w+c)
			}
		}
		if !down {
			for i, j := 0, len(diag)-1; i < j; i, j = i+1, j-1 {
				diag[i], diag[j] = diag[j], diag[i]
			}
		}
		o = append(o, diag...)
	}
	return o
}

// allZeroCtx is the context of the flag that a block has no coefficients.
func (t *Tile) allZeroCtx(b *Blk, p, x, y, size int) int {
	sx, sy := t.sub(p)
	w, h := 1<<uint(TxW[size]), 1<<uint(TxH[size])
	pw, ph := t.planeDims(b.W, b.H, p)
	var up, left, upDc, leftDc int
	for i := 0; i < w/4 && x/4+i < t.Cols>>sx; i++ {
		a := t.levelA[p][x/4+i]
		if p == 0 {
			up = imax(up, a)
		} else {
			up |= a
		}
		upDc |= t.dcA[p][x/4+i]
	}
	for i := 0; i < h/4 && y/4+i < t.Rows>>sy; i++ {
		a := t.levelL[p][y/4+i]
		if p == 0 {
			left = imax(left, a)
		} else {
			left |= a
		}
		leftDc |= t.dcL[p][y/4+i]
	}
	if p > 0 {
		ctx := 7 + b2i(up|upDc != 0) + b2i(left|leftDc != 0)
		if pw*ph > w*h {
			ctx += 3
		}
		return ctx
	}
	if pw == w && ph == h {
		return 0
	}
	// none, a few or many coefficients on either side
	amount := func(v int) int { return b2i(v > 0) + b2i(v > 3) }
	lo, hi := amount(up), amount(left)
	if lo > hi {
		lo, hi = hi, lo
	}
	return map[[2]int]int{{0, 0}: 1, {0, 1}: 2, {0, 2}: 3, {1, 1}: 4, {1, 2}: 5, {2, 2}: 6}[[2]int{lo, hi}]
}

// coeffs codes the coefficients of a transform block and reconstructs it.
func (t *Tile) coeffs(b *Blk, p, x, y, size int) {
	sx, sy := t.sub(p)
	w, h := 1<<uint(TxW[size]), 1<<uint(TxH[size])
	tw, th := imin(w, 32), imin(h, 32)
	chroma := b2i(p > 0)
	ctxSize := (imin(TxW[size], TxH[size]) + imax(TxW[size], TxH[size]) - 4 + 1) >> 1
	cul, dcCat := 0, 0
	zero := t.K.Bool(t.S.TxbSkipCdf[ctxSize][t.allZeroCtx(b, p, x, y, size)], t.PZero)
	if zero {
		if p == 0 {
			t.setTxType(x, y, size, 0)
		}
		t.Ev["blocks without coefficients"]++
	} else {
		if p == 0 {
			t.lumaTxType(b, x, y, size)
		}
		typ := t.txType(b, p, x, y, size)
		class := txClass(typ)
		scan := scanOrder(tw, th, class)
		q, eob := t.levels(b, p, size, typ, scan)
		t.Ev[fmt.Sprintf("coefficient blocks %dx%d", w, h)]++
		t.Ev[fmt.Sprintf("transform type %d", typ)]++
		t.codeEob(eob, tw*th, class, ctxSize, chroma)
		mag := make([]int, tw*th)
		at := func(r, c, limit int) int {
			if r >= th || c >= tw {
				return 0
			}
			return imin(mag[r*tw+c], limit)
		}
		for c := eob - 1; c >= 0; c-- {
			pos := scan[c]
			row, col := pos/tw, pos%tw
			level := iabs(q[pos])
			if c == eob-1 {
				ctx := 3
				switch {
				case c == 0:
					ctx = 0
				case 8*c <= tw*th:
					ctx = 1
				case 4*c <= tw*th:
					ctx = 2
				}
				t.K.Put(t.S.CoeffBaseEobCdf[ctxSize][chroma][ctx], imin(level, 3)-1)
			} else {
				near := at(row, col+1, 3) + at(row+1, col, 3)
				ctx := 0
				switch class {
				case 0:
					near += at(row+1, col+1, 3) + at(row, col+2, 3) + at(row+2, col, 3)
					ctx = imin((near+1)/2, 4)
					switch {
					case pos == 0:
						ctx = 0
					case w < h && row < 2:
						ctx += 11
					case w > h && col < 2:
						ctx += 16
					case w == h && row+col < 2:
						ctx++
					case row+col < 4:
						ctx += 6
					default:
						ctx += 21
					}
				case 1:
					near += at(row, col+2, 3) + at(row, col+3, 3) + at(row, col+4, 3)
					ctx = imin((near+1)/2, 4) + 26 + 5*imin(col, 2)
				case 2:
					near += at(row+2, col, 3) + at(row+3, col, 3) + at(row+4, col, 3)
					ctx = imin((near+1)/2, 4) + 26 + 5*imin(row, 2)
				}
				t.K.Put(t.S.CoeffBaseCdf[ctxSize][chroma][ctx], imin(level, 3))
			}
			if level > 2 {
				near := at(row, col+1, 15) + at(row+1, col, 15)
				first := row < 2 && col < 2
				switch class {
				case 0:
					near += at(row+1, col+1, 15)
				case 1:
					near += at(row, col+2, 15)
					first = col == 0
				case 2:
					near += at(row+2, col, 15)
					first = row == 0
				}
				ctx := imin((near+1)/2, 6)
				if pos > 0 {
					ctx += 7
					if !first {
						ctx += 7
					}
				}
				rest := imin(level, 15) - 3
				for k := 0; k < 4; k++ {
					s := imin(rest, 3)
					t.K.Put(t.S.CoeffBrCdf[imin(ctxSize, 3)][chroma][ctx], s)
					rest -= s
					if s < 3 {
						break
					}
				}
			}
			mag[pos] = level
		}
		for c := 0; c < eob; c++ {
			pos := scan[c]
			level := iabs(q[pos])
			if level == 0 {
				continue
			}
			neg := b2i(q[pos] < 0)
			if c == 0 {
				bal := 0
				count := func(v int) { bal += []int{0, -1, 1}[v] }
				for i := 0; i < w/4 && x/4+i < t.Cols>>sx; i++ {
					count(t.dcA[p][x/4+i])
				}
				for i := 0; i < h/4 && y/4+i < t.Rows>>sy; i++ {
					count(t.dcL[p][y/4+i])
				}
				ctx := 0
				if bal < 0 {
					ctx = 1
				} else if bal > 0 {
					ctx = 2
				}
				t.K.Put(t.S.DcSignCdf[chroma][ctx], neg)
				dcCat = 2 - neg
			} else {
				t.K.PutLit(1, neg)
			}
			if level > 14 {
				g := level - 14
				n := log2(g)
				t.K.PutLit(n, 0)
				t.K.PutLit(n+1, g)
				t.Ev["golomb codes"]++
			}
			cul += level & 0xfffff
		}
		cul = imin(cul, 63)
		t.Ev["coefficients"] += int64(eob)
		t.reconstruct(b, p, x, y, size, typ, q)
	}
	for i := 0; i < w/4; i++ {
		t.levelA[p][x/4+i], t.dcA[p][x/4+i] = cul, dcCat
	}
	for i := 0; i < h/4; i++ {
		t.levelL[p][y/4+i], t.dcL[p][y/4+i] = cul, dcCat
	}
}

// codeEob codes the number of coefficients.
func (t *Tile) codeEob(eob, area, class, ctxSize, chroma int) {
	one := b2i(class != 0)
	cdf := map[int][]int{
		16: t.S.EobPt16Cdf[chroma][one], 32: t.S.EobPt32Cdf[chroma][one], 64: t.S.EobPt64Cdf[chroma][one],
		128: t.S.EobPt128Cdf[chroma][one], 256: t.S.EobPt256Cdf[chroma][one], 512: t.S.EobPt512Cdf[chroma], 1024: t.S.EobPt1024Cdf[chroma],
	}[area]
	// classes 1, 2, 3-4, 5-8, 9-16, ...
	k := 0
	if eob > 1 {
		k = log2(eob-1) + 1
	}
	t.K.Put(cdf, k)
	if k < 2 {
		return
	}
	rest := eob - 1 - 1<<uint(k-1)
	top := rest >> uint(k-2)
	t.K.Put(t.S.EobExtraCdf[ctxSize][chroma][k-2], top)
	t.K.PutLit(k-2, rest&(1<<uint(k-2)-1))
}

// levels draws coefficients whose inverse transform fits.
func (t *Tile) levels(b *Blk, p, size, typ int, scan []int) ([]int, int) {
	r := t.X
	n := len(scan)
	eob := 1
	switch r.N(6) {
	case 0, 1:
		eob = r.In(1, imin(n, 6))
	case 2:
		eob = r.In(1, n)
	case 3:
		eob = imin(n, 1+1<<uint(r.N(log2(n)+1))-r.N(2))
	case 4:
		eob = r.In(1, imin(n, 40))
	}
	if t.MaxCoefs > 0 {
		eob = imin(eob, t.MaxCoefs)
	}
	q := make([]int, n)
	dense := r.Pick(10, 50, 90)
	amp := r.Pick(1, 1, 2, 2, 3, 4, 5)
	if r.P(15) {
		amp = r.In(1, imax(1, 9+t.Depth-log2(1+t.quant(b, p, 1))))
	}
	if r.P(1) {
		amp = 20
	}
	for c := 0; c < eob; c++ {
		if c < eob-1 && !r.P(dense) {
			continue
		}
		x := r.Bits(amp)
		if r.P(3) {
			x = r.In(11, 18)
		}
		if x == 0 && c == eob-1 {
			x = 1
		}
		if x > 1<<20-2+14 {
			x = 1<<20 - 2 + 14
		}
		if r.Bool() {
			x = -x
		}
		q[scan[c]] = x
	}
	for {
		if res, ok := t.inverse(b, p, size, typ, q); ok && !(t.Strict && t.beyond(b, res)) {
			return q, eob
		}
		t.Ev["coefficients halved to fit"]++
		for i := range q {
			q[i] /= 2
		}
		if q[scan[eob-1]] == 0 {
			q[scan[eob-1]] = 1
		}
	}
}

// quant is the quantiser step of the DC (0) or AC (1) coefficients.
func (t *Tile) quant(b *Blk, p, ac int) int {
	d := (t.Depth - 8) / 2
	q := t.qIndex(b.Seg, true)
	if ac == 0 {
		return DcQ(d, q+[]int{t.YDc, t.UDc, t.VDc}[p])
	}
	return AcQ(d, q+[]int{0, t.UAc, t.VAc}[p])
}

var qmSizes = [][2]int{{4, 4}, {8, 8}, {16, 16}, {32, 32}, {4, 8}, {8, 4}, {8, 16}, {16, 8}, {16, 32}, {32, 16}, {4, 16}, {16, 4}, {8, 32}, {32, 8}}

// qmOffset is the offset of the matrix of a size among those of a level.
func qmOffset(size int) int {
	w, h := imin(32, 1<<uint(TxW[size])), imin(32, 1<<uint(TxH[size]))
	off := 0
	for _, s := range qmSizes {
		if s == [2]int{w, h} {
			return off
		}
		off += s[0] * s[1]
	}
	panic("model: no matrix")
}

// inverse dequantises and transforms; ok is false if a value overflows.
func (t *Tile) inverse(b *Blk, p, size, typ int, q []int) ([][]int, bool) {
	w, h := 1<<uint(TxW[size]), 1<<uint(TxH[size])
	tw := imin(w, 32)
	denom := 1
	switch {
	case w*h >= 2048:
		denom = 4
	case w*h >= 512 && w > 8 && h > 8:
		denom = 2
	}
	lim := 1 << uint(7+t.Depth)
	lv := t.QmLevel[p]
	if b.Lossless {
		lv = 15
	}
	dc, ac := t.quant(b, p, 0), t.quant(b, p, 1)
	f := func(i, j int) int {
		if i*tw+j >= len(q) || j >= tw {
			return 0
		}
		x := q[i*tw+j]
		if x == 0 {
			return 0
		}
		step := ac
		if i+j == 0 {
			step = dc
		}
		if t.Qm && typ < 9 && lv < 15 {
			step = (step*QmAt(lv, p, qmOffset(size)+i*tw+j) + 16) >> 5
		}
		m := iabs(x) & 0xfffff * step & 0xffffff / denom
		if x < 0 {
			m = -m
		}
		return iclip(-lim, lim-1, m)
	}
	return Inverse(size, typ, b.Lossless, t.Depth, f)
}

// beyond tells whether a residual is more than a decoder has to provide for: samples
// with it added that may take more than 16 bits, or when lossless one that no
// difference of samples leads to.
func (t *Tile) beyond(b *Blk, res [][]int) bool {
	lim := 1<<15 - 1<<uint(t.Depth)
	if b.Lossless {
		lim = 1 << uint(t.Depth)
	}
	for _, row := range res {
		for _, x := range row {
			if iabs(x) >= lim {
				return true
			}
		}
	}
	return false
}

func (t *Tile) reconstruct(b *Blk, p, x, y, size, typ int, q []int) {
	res, _ := t.inverse(b, p, size, typ, q)
	h, w := len(res), len(res[0])
	flipV, flipH := TxKinds[typ][0] == 2 && !b.Lossless, TxKinds[typ][1] == 2 && !b.Lossless
	for i := range res {
		for j := range res[i] {
			ri, rj := i, j
			if flipV {
				ri = h - 1 - i
			}
			if flipH {
				rj = w - 1 - j
			}
			t.Cur[p][y+i][x+j] = iclip(0, 1<<uint(t.Depth)-1, t.Cur[p][y+i][x+j]+res[ri][rj])
		}
	}
}
