package model

import "sort"

// palettes codes the palettes of a block.
func (t *Tile) palettes(b *Blk) {
	sizeCtx := log2(b.W/4) + log2(b.H/4) - 2
	top := 1<<uint(t.Depth) - 1
	if b.YMode == DC {
		ctx := 0
		for _, n := range []*Blk{t.at(b.R-1, b.C), t.at(b.R, b.C-1)} {
			if n != nil && len(n.Pal[0]) > 0 {
				ctx++
			}
		}
		if t.K.Bool(t.S.PaletteYModeCdf[sizeCtx][ctx], t.PPalette) {
			n := t.K.Sym(t.S.PaletteYSizeCdf[sizeCtx]) + 2
			b.Pal[0] = t.colors(b, 0, n, 1)
			t.Ev["y palettes"]++
		}
	}
	if !b.Chroma || b.UVMode != DC {
		return
	}
	if !t.K.Bool(t.S.PaletteUVModeCdf[b2i(len(b.Pal[0]) > 0)], t.PPalette) {
		return
	}
	n := t.K.Sym(t.S.PaletteUVSizeCdf[sizeCtx]) + 2
	b.Pal[1] = t.colors(b, 1, n, 0)
	t.Ev["uv palettes"]++
	b.PalV = make([]int, n)
	if t.X.Bool() { // differences
		t.K.PutLit(1, 1)
		extra := t.K.Lit(2)
		bits := t.Depth - 4 + extra
		b.PalV[0] = t.K.Lit(t.Depth)
		for i := 1; i < n; i++ {
			d := t.K.Lit(bits)
			if d != 0 && t.K.Lit(1) == 1 {
				d = -d
			}
			b.PalV[i] = iclip(0, top, wrap(b.PalV[i-1]+d, top+1))
		}
		t.Ev["v palettes of differences"]++
		return
	}
	t.K.PutLit(1, 0)
	for i := range b.PalV {
		b.PalV[i] = t.K.Lit(t.Depth)
	}
}

func wrap(x, m int) int {
	if x < 0 {
		return x + m
	}
	if x >= m {
		return x - m
	}
	return x
}

// colors codes n rising colours; each is at least step above the one before.
func (t *Tile) colors(b *Blk, plane, n, step int) []int {
	var o []int
	for _, c := range t.paletteCache(b, plane) {
		if len(o) == n {
			break
		}
		if t.K.Lit(1) == 1 {
			o = append(o, c)
			t.Ev["colours from the cache"]++
		}
	}
	end := 1 << uint(t.Depth)
	if len(o) < n {
		first := t.X.N(end)
		if t.X.P(30) {
			first = t.X.Pick(0, end-1, end-2, 1)
		}
		t.K.PutLit(t.Depth, first)
		o = append(o, first)
		if len(o) < n {
			bits := t.Depth - 3 + t.K.Lit(2)
			for len(o) < n {
				d := t.X.Bits(bits)
				if t.X.P(60) {
					d = t.X.Bits(imin(bits, 3))
				}
				t.K.PutLit(bits, d)
				c := imin(end-1, o[len(o)-1]+d+step)
				o = append(o, c)
				room := end - c - step
				need := 0
				for 1<<uint(need) < room {
					need++
				}
				bits = imin(bits, need)
			}
		}
	}
	sort.Ints(o)
	return o
}

// paletteCache lists the different colours of the neighbours; the row above a
// 64 row boundary does not count.
func (t *Tile) paletteCache(b *Blk, plane int) []int {
	set := map[int]bool{}
	add := func(n *Blk) {
		if n != nil {
			for _, c := range n.Pal[plane] {
				set[c] = true
			}
		}
	}
	if b.R%16 != 0 {
		add(t.at(b.R-1, b.C))
	}
	add(t.at(b.R, b.C-1))
	var o []int
	for c := range set {
		o = append(o, c)
	}
	sort.Ints(o)
	return o
}

// colorMaps codes the colour indices of a block along its diagonals.
func (t *Tile) colorMaps(b *Blk) {
	h, w := imin(b.H, 4*(t.Rows-b.R)), imin(b.W, 4*(t.Cols-b.C))
	if n := len(b.Pal[0]); n > 0 {
		b.colorY = t.colorMap(b.H, b.W, h, w, n, [][][]int{t.S.PaletteSize2YColorCdf, t.S.PaletteSize3YColorCdf, t.S.PaletteSize4YColorCdf,
			t.S.PaletteSize5YColorCdf, t.S.PaletteSize6YColorCdf, t.S.PaletteSize7YColorCdf, t.S.PaletteSize8YColorCdf}[n-2])
	}
	if n := len(b.Pal[1]); n > 0 {
		sx, sy := t.sub(1)
		bw, bh, w, h := b.W>>sx, b.H>>sy, w>>sx, h>>sy
		if bw < 4 {
			bw, w = bw+2, w+2
		}
		if bh < 4 {
			bh, h = bh+2, h+2
		}
		b.colorUV = t.colorMap(bh, bw, h, w, n, [][][]int{t.S.PaletteSize2UVColorCdf, t.S.PaletteSize3UVColorCdf, t.S.PaletteSize4UVColorCdf,
			t.S.PaletteSize5UVColorCdf, t.S.PaletteSize6UVColorCdf, t.S.PaletteSize7UVColorCdf, t.S.PaletteSize8UVColorCdf}[n-2])
	}
}

// colorMap codes h x w indices of n colours and repeats the last row and column
// up to bh x bw.
func (t *Tile) colorMap(bh, bw, h, w, n int, cdfs [][]int) [][]int {
	m := grid(bh, bw, 0)
	m[0][0] = t.X.N(n)
	t.K.PutNS(n, m[0][0])
	for d := 1; d < h+w-1; d++ {
		for x := imin(d, w-1); x >= 0 && d-x < h; x-- {
			y := d - x
			score := make([]int, n)
			if x > 0 {
				score[m[y][x-1]] += 2
			}
			if y > 0 {
				score[m[y-1][x]] += 2
			}
			if x > 0 && y > 0 {
				score[m[y-1][x-1]]++
			}
			order := make([]int, n)
			for i := range order {
				order[i] = i
			}
			sort.SliceStable(order, func(i, j int) bool { return score[order[i]] > score[order[j]] })
			// contexts by the scores of the best colours
			s := append([]int{}, score...)
			sort.Sort(sort.Reverse(sort.IntSlice(s)))
			k := t.K.Sym(cdfs[colorCtx(s)])
			m[y][x] = order[k]
			t.Ev["colour indices"]++
		}
	}
	for y := range m {
		for x := range m[y] {
			m[y][x] = m[imin(y, h-1)][imin(x, w-1)]
		}
	}
	return m
}

// colorCtx is the context of the scores, largest first: one neighbour only; all
// alike; left and above against the diagonal; the diagonal with one of them; all
// different.
func colorCtx(s []int) int {
	third := 0
	if len(s) > 2 {
		third = s[2]
	}
	switch s[0] + 2*s[1] + 2*third {
	case 2:
		return 0
	case 5:
		return 4
	case 6:
		return 3
	case 7:
		return 2
	case 8:
		return 1
	}
	panic("model: impossible colour scores")
}
