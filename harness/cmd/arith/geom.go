package main

import (
	"fmt"

	"github.com/m4tthewde/gov1/internal/shared"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

type dim struct{ w, h int }

// The block sizes in code point order.
var blocks = []dim{{4, 4}, {4, 8}, {8, 4}, {8, 8}, {8, 16}, {16, 8}, {16, 16}, {16, 32}, {32, 16}, {32, 32}, {32, 64}, {64, 32}, {64, 64},
	{64, 128}, {128, 64}, {128, 128}, {4, 16}, {16, 4}, {8, 32}, {32, 8}, {16, 64}, {64, 16}}

func find(d dim) int {
	for i, b := range blocks {
		if b == d {
			return i
		}
	}
	return -1
}

func ilog(x int) int {
	n := 0
	for 1<<uint(n) < x {
		n++
	}
	return n
}

// parts are the sub-blocks of partition p of a square block: the first is what
// the partition table names.
func part(p, n int) (d dim, legal bool) {
	switch p {
	case 0: // none
		return dim{n, n}, true
	case 1, 4, 5: // horizontal; two halves above or below split again
		return dim{n, n / 2}, n >= 8 && (p == 1 || n >= 8)
	case 2, 6, 7:
		return dim{n / 2, n}, n >= 8
	case 3:
		return dim{n / 2, n / 2}, n >= 8
	case 8:
		return dim{n, n / 4}, n >= 16 && n <= 64
	}
	return dim{n / 4, n}, n >= 16 && n <= 64
}

func geometry(run *v.Run) {
	run.Rule = "exhaustive: every entry of the block geometry tables (sizes, logarithms, partition results, chroma sizes) against the block dimensions themselves; distinct by table and index"
	run.Exhaust = true
	m := &monitor{run: run, ev: map[string]int64{}}
	inv := shared.BLOCK_INVALID
	m.hold("the invalid size is no block size", inv < 0 || inv >= len(blocks), fmt.Sprint(inv))
	m.eq("number of block sizes", shared.BLOCK_SIZES, len(blocks))
	codes := []int{shared.BLOCK_4X4, shared.BLOCK_4X8, shared.BLOCK_8X4, shared.BLOCK_8X8, shared.BLOCK_8X16, shared.BLOCK_16X8, shared.BLOCK_16X16, shared.BLOCK_16X32,
		shared.BLOCK_32X16, shared.BLOCK_32X32, shared.BLOCK_32X64, shared.BLOCK_64X32, shared.BLOCK_64X64, shared.BLOCK_64X128, shared.BLOCK_128X64,
		shared.BLOCK_128X128, shared.BLOCK_4X16, shared.BLOCK_16X4, shared.BLOCK_8X32, shared.BLOCK_32X8, shared.BLOCK_16X64, shared.BLOCK_64X16}
	for i, b := range blocks {
		m.eq("code point", codes[i], i, b.w, b.h)
		m.eq("width", shared.BLOCK_WIDTH[i], b.w, i)
		m.eq("height", shared.BLOCK_HEIGHT[i], b.h, i)
		m.eq("width in units", shared.NUM_4X4_BLOCKS_WIDE[i], b.w/4, i)
		m.eq("height in units", shared.NUM_4X4_BLOCKS_HIGH[i], b.h/4, i)
		m.eq("width logarithm", shared.MI_WIDTH_LOG2[i], ilog(b.w/4), i)
		m.eq("height logarithm", shared.MI_HEIGHT_LOG2[i], ilog(b.h/4), i)
		for p := 0; p < 10; p++ {
			want := inv
			if b.w == b.h {
				if d, ok := part(p, b.w); ok {
					want = find(d)
				}
				if b.w == 8 && p > 3 && p < 8 {
					continue // three-way splits of 8x8 are never coded
				}
			}
			m.eq("partition result", shared.Partition_Subsize[p][i], want, p, i)
		}
		for sx := 0; sx < 2; sx++ {
			for sy := 0; sy <= sx; sy++ {
				d := dim{b.w >> uint(sx), b.h >> uint(sy)}
				want := inv
				if d.h <= 4*d.w && !(sx == 1 && sy == 0 && b.h > b.w) {
					if d.w < 4 {
						d.w = 4
					}
					if d.h < 4 {
						d.h = 4
					}
					want = find(d)
				}
				m.eq("chroma size", shared.Subsampled_Size[i][sx][sy], want, i, sx, sy)
			}
		}
	}
	m.done(nil)
}
