package model

// Inter prediction (section 7.11.3 of the AV1 specification).

// Motion modes and compound types.
const (
	SimpleMotion = 0
	Obmc         = 1
	LocalWarp    = 2

	CompWedge    = 0
	CompDiffWtd  = 1
	CompAverage  = 2
	CompIntra    = 3
	CompDistance = 4
)

// Inter modes.
const (
	NearestMv = 14 + iota
	NearMv
	GlobalMv
	NewMv
	NearestNearestMv
	NearNearMv
	NearestNewMv
	NewNearestMv
	NearNewMv
	NewNearMv
	GlobalGlobalMv
	NewNewMv
)

// RefPic is a reference frame.
type RefPic struct {
	Pic  [3][][]int
	W, H int // upscaled width and height
	Hint int
}

func rnd(x, n int) int { return round2(x, uint(n)) }

func rnds(x, n int) int { return signed2(x, uint(n)) }

func (t *Tile) clip(x int) int { return iclip(0, 1<<uint(t.Depth)-1, x) }

// rounding returns the shifts after the horizontal and the vertical filter and
// the one left for after the blending.
func (t *Tile) rounding(compound bool) (r0, r1, post int) {
	r0, r1 = 3, 11
	if t.Depth == 12 {
		r0, r1 = 5, 9
	}
	if compound {
		r1 = 7
	}
	return r0, r1, 14 - r0 - r1
}

// source is where a block is predicted from.
type source struct {
	plane        [][]int
	lastX, lastY int
	scaleW       int
	scaleH       int
}

// refSource returns the reference frame ref; 0 is the current frame (intra block copy).
func (t *Tile) refSource(ref, p int) source {
	sx, sy := t.sub(p)
	if ref == 0 {
		return source{t.Cur[p], (t.Cols*4+int(sx))>>sx - 1, (t.Rows*4+int(sy))>>sy - 1, t.FrameW, t.FrameH}
	}
	f := t.Refs[ref]
	return source{f.Pic[p], (f.W+int(sx))>>sx - 1, (f.H+int(sy))>>sy - 1, f.W, f.H}
}

func at2(g [][]int, y, x, lastY, lastX int) int { return g[iclip(0, lastY, y)][iclip(0, lastX, x)] }

// scaleOf is the scale of a reference frame of a given size.
func scaleOf(ref, size int) int { return (ref<<14 + size/2) / size }

// startOf is the position in a scaled reference, in 1024ths of a sample.
func startOf(pos, mv int, sub uint, scale int) int {
	orig := pos<<4 + (2*mv)>>sub + 8
	return rnds(orig*scale-8<<14, 8) + 32
}

// kernel picks the interpolation filter in one direction.
func kernel(kind, size int) *[16][8]int {
	if size <= 4 {
		switch kind {
		case 0, 2:
			kind = 4
		case 1:
			kind = 5
		}
	}
	return &subpelFilters[kind]
}

// translate predicts w x h samples at (x, y) by moving them.
func (t *Tile) translate(p, x, y, w, h int, src source, mv [2]int, filt [2]int, r0, r1 int) [][]int {
	sx, sy := t.sub(p)
	xs, ys := scaleOf(src.scaleW, t.FrameW), scaleOf(src.scaleH, t.FrameH)
	x0, y0 := startOf(x, mv[1], sx, xs), startOf(y, mv[0], sy, ys)
	dx, dy := rnds(xs, 4), rnds(ys, 4)
	kx, ky := kernel(filt[1], w), kernel(filt[0], h)
	rows := map[int][]int{}
	row := func(r int) []int {
		if o, ok := rows[r]; ok {
			return o
		}
		o := make([]int, w)
		for c := range o {
			px := x0 + dx*c
			sum := 0
			for k := 0; k < 8; k++ {
				if f := kx[px>>6&15][k]; f != 0 {
					sum += f * at2(src.plane, r, px>>10+k-3, src.lastY, src.lastX)
				}
			}
			o[c] = rnd(sum, r0)
		}
		rows[r] = o
		return o
	}
	out := grid(h, w, 0)
	for r := range out {
		py := y0 + dy*r
		f := ky[py>>6&15]
		for k := 0; k < 8; k++ {
			line := row(py>>10 + k - 3)
			for c := range out[r] {
				out[r][c] += f[k] * line[c]
			}
		}
		for c := range out[r] {
			out[r][c] = rnd(out[r][c], r1)
		}
	}
	return out
}

// Shear splits a warp in a horizontal and a vertical shear.
func Shear(p [6]int) (ok bool, alpha, beta, gamma, delta int) {
	clamp := func(x int) int { return iclip(-32768, 32767, x) }
	shift, f := divisor(p[2])
	reduce := func(x int) int { return rnds(x, 6) * 64 }
	alpha = reduce(clamp(p[2] - 1<<16))
	beta = reduce(clamp(p[3]))
	gamma = reduce(clamp(rnds(p[4]<<16*f, shift)))
	delta = reduce(clamp(p[5] - rnds(p[3]*p[4]*f, shift) - 1<<16))
	ok = 4*iabs(alpha)+7*iabs(beta) < 1<<16 && 4*iabs(gamma)+4*iabs(delta) < 1<<16
	return
}

// divisor approximates 1/d by f >> shift.
func divisor(d int) (shift, f int) {
	a := iabs(d)
	n := log2(a)
	e := a - 1<<uint(n)
	if n > 8 {
		e = rnd(e, n-8)
	} else {
		e <<= uint(8 - n)
	}
	// a table in the specification: 2^14 / (1 + e/256), rounded
	f = (1<<22 + (256+e)/2) / (256 + e)
	if d < 0 {
		f = -f
	}
	return n + 14, f
}

// warp predicts w x h samples at (x, y) with an affine model.
func (t *Tile) warp(p, x, y, w, h int, src source, m [6]int, r0, r1 int) [][]int {
	sx, sy := t.sub(p)
	_, alpha, beta, gamma, delta := Shear(m)
	out := grid(h, w, 0)
	for by := 0; by < h; by += 8 {
		for bx := 0; bx < w; bx += 8 {
			cx, cy := (x+bx+4)<<sx, (y+by+4)<<sy
			dx := (m[2]*cx + m[3]*cy + m[0]) >> sx
			dy := (m[4]*cx + m[5]*cy + m[1]) >> sy
			ix, iy, fx, fy := dx>>16, dy>>16, dx&65535, dy&65535
			var mid [15][8]int
			for i := range mid {
				for j := range mid[i] {
					f := warpFilters[rnd(fx+alpha*(j-4)+beta*(i-7), 10)+64]
					sum := 0
					for k := range f {
						sum += f[k] * at2(src.plane, iy+i-7, ix+j-4+k-3, src.lastY, src.lastX)
					}
					mid[i][j] = rnd(sum, r0)
				}
			}
			for i := 0; i < 8; i++ {
				for j := 0; j < 8; j++ {
					f := warpFilters[rnd(fy+gamma*(j-4)+delta*(i-4), 10)+64]
					sum := 0
					for k := range f {
						sum += f[k] * mid[i+k][j]
					}
					out[by+i][bx+j] = rnd(sum, r1)
				}
			}
		}
	}
	return out
}

// localWarp fits an affine model to the motion of the block's neighbours.
func (b *Blk) localWarp() (ok bool, m [6]int) {
	var a00, a01, a11, bx0, bx1, by0, by1 int
	midY, midX := b.R*4+b.H/2-1, b.C*4+b.W/2-1
	prod := func(a, b int) int { return a*b>>2 + a + b }
	for _, s := range b.Samples {
		sy, sx := s[0]-midY*8, s[1]-midX*8
		dy, dx := s[2]-midY*8-b.Mv[0][0], s[3]-midX*8-b.Mv[0][1]
		if iabs(sx-dx) >= 256 || iabs(sy-dy) >= 256 {
			continue
		}
		a00 += prod(sx, sx) + 8
		a01 += prod(sx, sy) + 4
		a11 += prod(sy, sy) + 8
		bx0 += prod(sx, dx) + 8
		bx1 += prod(sy, dx) + 4
		by0 += prod(sx, dy) + 4
		by1 += prod(sy, dy) + 8
	}
	det := a00*a11 - a01*a01
	if det == 0 {
		return false, m
	}
	shift, f := divisor(det)
	shift -= 16
	if shift < 0 {
		f <<= uint(-shift)
		shift = 0
	}
	const lim = 1<<13 - 1
	off := func(v int) int { return iclip(-lim, lim, rnds(v*f, shift)) }
	diag := func(v int) int { return iclip(1<<16-lim, 1<<16+lim, rnds(v*f, shift)) }
	m[2] = diag(a11*bx0 - a01*bx1)
	m[3] = off(a00*bx1 - a01*bx0)
	m[4] = off(a11*by0 - a01*by1)
	m[5] = diag(a00*by1 - a01*by0)
	trans := func(v int) int { return iclip(-1<<23, 1<<23-1, v) }
	m[0] = trans(b.Mv[0][1]<<13 - (midX*(m[2]-1<<16) + midY*m[3]))
	m[1] = trans(b.Mv[0][0]<<13 - (midX*m[4] + midY*(m[5]-1<<16)))
	ok, _, _, _, _ = Shear(m)
	return ok, m
}

// WarpParams is the local warp of the block, if there is one.
func (b *Blk) WarpParams() []int {
	if b.Motion != LocalWarp || !b.warpOk {
		return nil
	}
	return b.warp[:]
}

func (t *Tile) Scaled(ref int) bool {
	f := t.Refs[ref]
	return scaleOf(f.W, t.FrameW) != 1<<14 || scaleOf(f.H, t.FrameH) != 1<<14
}

func isGlobal(mode int) bool { return mode == GlobalMv || mode == GlobalGlobalMv }

// predictInter predicts w x h samples of a plane at (x, y), with the motion of
// the block n (the block b itself, or one that shares its chroma).
func (t *Tile) predictInter(b *Blk, p, x, y, w, h int, n *Blk) {
	compound := n.Ref[1] > 0
	r0, r1, post := t.rounding(compound)
	if p == 0 && b.Motion == LocalWarp {
		b.warpOk, b.warp = b.localWarp()
		t.Ev["local warps"]++
		if !b.warpOk {
			t.Ev["local warps that are not valid"]++
		}
	}
	var pred [2][][]int
	for i := 0; i < 1+b2i(compound); i++ {
		ref := n.Ref[i]
		src := t.refSource(ref, p)
		kind, m := 0, [6]int{}
		if w >= 8 && h >= 8 && !t.ForceInt {
			if b.Motion == LocalWarp && b.warpOk {
				kind, m = 1, b.warp
			} else if isGlobal(b.YMode) && t.GmType[ref] > 1 && !t.Scaled(ref) {
				if ok, _, _, _, _ := Shear(t.Gm[ref]); ok {
					kind, m = 2, t.Gm[ref]
				}
			}
		}
		if kind > 0 {
			t.Ev["warped predictions"]++
			pred[i] = t.warp(p, x, y, w, h, src, m, r0, r1)
		} else {
			t.Ev["translated predictions"]++
			if ref > 0 && t.Scaled(ref) {
				t.Ev["scaled predictions"]++
			}
			pred[i] = t.translate(p, x, y, w, h, src, n.Mv[i], n.Filt, r0, r1)
		}
	}
	switch {
	case b.Compound == CompWedge && p == 0:
		b.mask = WedgeMask(b.Size, b.WedgeSign, b.WedgeIdx)
	case b.Compound == CompIntra:
		b.mask = iiMask(b.IIMode, w, h)
	case b.Compound == CompDiffWtd && p == 0:
		b.mask = grid(h, w, 0)
		for i := range b.mask {
			for j := range b.mask[i] {
				d := rnd(iabs(pred[0][i][j]-pred[1][i][j]), t.Depth-8+post)
				k := imin(64, 38+d/16)
				if b.MaskType == 1 {
					k = 64 - k
				}
				b.mask[i][j] = k
			}
		}
	}
	ii := b.Inter && b.Ref[1] == 0
	var w0, w1 int
	if b.Compound == CompDistance {
		w0, w1 = t.distWeights(n)
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			o := &t.Cur[p][y+i][x+j]
			switch {
			case !compound && !ii:
				*o = t.clip(pred[0][i][j])
			case b.Compound == CompAverage:
				*o = t.clip(rnd(pred[0][i][j]+pred[1][i][j], 1+post))
			case b.Compound == CompDistance:
				*o = t.clip(rnd(w0*pred[0][i][j]+w1*pred[1][i][j], 4+post))
			default:
				k := t.maskAt(b, p, i, j)
				if ii {
					*o = rnd(k**o+(64-k)*t.clip(rnd(pred[0][i][j], post)), 6)
				} else {
					*o = t.clip(rnd(k*pred[0][i][j]+(64-k)*pred[1][i][j], 6+post))
				}
			}
		}
	}
	if compound || ii {
		t.Ev[[]string{"wedge", "difference", "average", "smooth inter-intra", "distance"}[b.Compound]+" blends"]++
	}
	if b.Motion == Obmc {
		t.obmc(b, p, w, h)
	}
}

// maskAt is the weight of the first prediction at a sample of the block.
func (t *Tile) maskAt(b *Blk, p, i, j int) int {
	sx, sy := t.sub(p)
	if b.Compound == CompIntra {
		sx, sy = 0, 0 // made for the plane
	}
	sum := 0
	for y := i << sy; y < (i+1)<<sy; y++ {
		for x := j << sx; x < (j+1)<<sx; x++ {
			sum += b.mask[y][x]
		}
	}
	return rnd(sum, int(sx+sy))
}

func iiMask(mode, w, h int) [][]int {
	step := 128 / imax(w, h)
	m := grid(h, w, 32)
	for i := range m {
		for j := range m[i] {
			switch mode {
			case 1:
				m[i][j] = iiWeights[i*step]
			case 2:
				m[i][j] = iiWeights[j*step]
			case 3:
				m[i][j] = iiWeights[imin(i, j)*step]
			}
		}
	}
	return m
}

// distWeights weighs two predictions by the distance of their frames.
func (t *Tile) distWeights(n *Blk) (int, int) {
	var d [2]int
	for i := range d {
		d[i] = imin(31, iabs(t.RelDist(t.Refs[n.Ref[i]].Hint, t.Hint)))
	}
	near := d[1] <= d[0] // the second reference is no further than the first
	a, b := d[1], d[0]
	k := 3
	if a != 0 && b != 0 {
		for k = 0; k < 3; k++ {
			c := [3][2]int{{2, 3}, {2, 5}, {2, 7}}[k]
			if near && a*c[1] > b*c[0] || !near && a*c[0] < b*c[1] {
				break
			}
		}
	}
	o := [4][2]int{{9, 7}, {11, 5}, {12, 4}, {13, 3}}[k]
	if near {
		return o[1], o[0]
	}
	return o[0], o[1]
}

// RelDist is the signed distance of two order hints.
func (t *Tile) RelDist(a, b int) int {
	if t.HintBits == 0 {
		return 0
	}
	n := 1 << uint(t.HintBits)
	d := (a - b) & (n - 1)
	if d >= n/2 {
		d -= n
	}
	return d
}

// obmc blends in the predictions with the motion of the blocks above and to the left.
func (t *Tile) obmc(b *Blk, p, w, h int) {
	sx, sy := t.sub(p)
	r0, r1, _ := t.rounding(false)
	overlap := func(n *Blk, r, c, pw, ph int, side bool) {
		px, py := c*4>>sx, r*4>>sy
		pred := t.translate(p, px, py, pw, ph, t.refSource(n.Ref[0], p), n.Mv[0], n.Filt, r0, r1)
		mask := obmcMasks[ph]
		if side {
			mask = obmcMasks[pw]
		}
		for i := range pred {
			for j := range pred[i] {
				k := mask[iclip(0, len(mask)-1, i)]
				if side {
					k = mask[j]
				}
				o := &t.Cur[p][py+i][px+j]
				*o = rnd(k**o+(64-k)*t.clip(pred[i][j]), 6)
			}
		}
		t.Ev["overlapped predictions"]++
	}
	if t.inside(b.R-1, b.C) && (w >= 8 && h >= 8 || w >= 16 || h >= 16) {
		left := imin(4, log2(b.w4()))
		for c := b.C; left > 0 && c < imin(t.Cols, b.C+b.w4()); {
			n := t.Grid[b.R-1][c|1]
			step := iclip(2, 16, n.w4())
			if n.Ref[0] > 0 {
				left--
				overlap(n, b.R, c, imin(w, step*4>>sx), imin(h/2, 32>>sy), false)
			}
			c += step
		}
	}
	if t.inside(b.R, b.C-1) {
		left := imin(4, log2(b.h4()))
		for r := b.R; left > 0 && r < imin(t.Rows, b.R+b.h4()); {
			n := t.Grid[r|1][b.C-1]
			step := iclip(2, 16, n.h4())
			if n.Ref[0] > 0 {
				left--
				overlap(n, r, b.C, imin(w/2, 32>>sx), imin(h, step*4>>sy), true)
			}
			r += step
		}
	}
}

// Wedges: the direction of the edge and its place in eighths of the block.
const (
	wHorz = iota
	wVert
	w27
	w63
	w117
	w153
)

func wedgeCode(w, h, index int) (dir, x, y int) {
	first := [][3]int{{w27, 4, 4}, {w63, 4, 4}, {w117, 4, 4}, {w153, 4, 4}}
	last := [][3]int{{w27, 4, 2}, {w27, 4, 6}, {w153, 4, 2}, {w153, 4, 6}, {w63, 2, 4}, {w63, 6, 4}, {w117, 2, 4}, {w117, 6, 4}}
	var mid [][3]int
	switch {
	case h > w:
		mid = [][3]int{{wHorz, 4, 2}, {wHorz, 4, 4}, {wHorz, 4, 6}, {wVert, 4, 4}}
	case h < w:
		mid = [][3]int{{wVert, 2, 4}, {wVert, 4, 4}, {wVert, 6, 4}, {wHorz, 4, 4}}
	default:
		mid = [][3]int{{wHorz, 4, 2}, {wHorz, 4, 6}, {wVert, 2, 4}, {wVert, 6, 4}}
	}
	var all [][3]int
	all = append(append(append(all, first...), mid...), last...)
	c := all[index]
	return c[0], c[1], c[2]
}

// WedgeMask is the mask of a wedge of a block.
func WedgeMask(size, sign, index int) [][]int {
	w, h := BlockDims[size][0], BlockDims[size][1]
	dir, xo, yo := wedgeCode(w, h, index)
	x0, y0 := 32-xo*w>>3, 32-yo*h>>3
	sum := 0
	for i := 0; i < w; i++ {
		sum += masterMask(dir, y0, x0+i)
	}
	for i := 1; i < h; i++ {
		sum += masterMask(dir, y0+i, x0)
	}
	avg := (sum + (w+h-1)/2) / (w + h - 1)
	invert := avg < 32 != (sign == 1)
	m := grid(h, w, 0)
	for i := range m {
		for j := range m[i] {
			m[i][j] = masterMask(dir, y0+i, x0+j)
			if invert {
				m[i][j] = 64 - m[i][j]
			}
		}
	}
	return m
}

// masterMask is the weight at a place of the 64x64 mask of a direction.
func masterMask(dir, y, x int) int {
	ramp := func(first int, v []int, i int) int {
		if i < first {
			return 0
		}
		if i >= first+len(v) {
			return 64
		}
		return v[i-first]
	}
	switch dir {
	case wHorz:
		return ramp(29, []int{2, 7, 21, 43, 57, 62}, y)
	case wVert:
		return ramp(29, []int{2, 7, 21, 43, 57, 62}, x)
	case w63:
		i := x - 16 + y/2
		if y&1 == 0 {
			return ramp(28, []int{1, 4, 11, 27, 46, 58, 62, 63}, iclip(0, 63, i))
		}
		return ramp(28, []int{1, 2, 6, 18, 37, 53, 60, 63}, iclip(0, 63, i+1))
	case w27:
		return masterMask(w63, x, y)
	case w117:
		return 64 - masterMask(w63, y, 63-x)
	}
	return 64 - masterMask(w63, x, 63-y)
}

// InterPrediction predicts all planes of an inter block.
func (t *Tile) InterPrediction(b *Blk) {
	for p := 0; p < t.planes(b); p++ {
		sx, sy := t.sub(p)
		w, h := t.planeDims(b.W, b.H, p)
		x, y := b.C>>sx*4, b.R>>sy*4
		if b.Inter && b.Ref[1] == 0 {
			q := IntraReq{Plane: p, X: x, Y: y, W: w, H: h, Depth: t.Depth, MaxX: 4*t.Cols>>sx - 1, MaxY: 4*t.Rows>>sy - 1,
				Mode: []int{DC, VPred, HPred, Smooth}[b.IIMode], Filter: -1, Left: t.inside(b.R, b.C-1), Above: t.inside(b.R-1, b.C)}
			if p > 0 {
				q.Left, q.Above = b.LeftC, b.UpC
			}
			for i, row := range q.Predict(t.Cur[p]) {
				copy(t.Cur[p][y+i][x:], row)
			}
		}
		// blocks that share their chroma with others are predicted piece by piece
		pw, ph := b.W>>sx, b.H>>sy
		whole := pw == w && ph == h
		for i := 0; i < h; i += ph {
			for j := 0; j < w; j += pw {
				if t.Grid[b.R&^int(sy)+i/ph][b.C&^int(sx)+j/pw].Ref[0] == 0 {
					whole = true
				}
			}
		}
		if whole {
			t.predictInter(b, p, x, y, w, h, b)
			continue
		}
		for i := 0; i < h; i += ph {
			for j := 0; j < w; j += pw {
				t.predictInter(b, p, x+j, y+i, pw, ph, t.Grid[b.R&^int(sy)+i/ph][b.C&^int(sx)+j/pw])
			}
		}
		t.Ev["chroma predicted with several motions"]++
	}
}
