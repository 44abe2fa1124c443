package model

// upscalePosition gives the sample a column is interpolated around and the 1/64 phase.
// Positions count in 2^-14 samples: column x of the output lies x*step further
// than the first, whose centre is aligned with the input's, the rounding error of
// the step is shared between both ends.
func upscalePosition(x, in, out int) (int, int) {
	step := (in<<14 + out/2) / out
	err := out*step - in<<14
	first := (-((out-in)<<13)+out/2)/out + 128 - err/2
	// only the fraction of the first position is kept, and it starts left of the frame
	first = first & (1<<14 - 1)
	pos := first - 1<<14 + x*step
	px := pos >> 14
	return px, (pos - px<<14) >> 8
}

// Upscale widens a plane of w by h samples to up samples with the filters f; mi
// is the width the frame is stored with.
func Upscale(in [][]int, f [64][8]int, w, up, h, mi int, off bool, depth int, ev map[string]int64) [][]int {
	want := make([][]int, h)
	for y := range want {
		want[y] = make([]int, up)
		for x := range want[y] {
			if off {
				want[y][x] = in[y][x]
				continue
			}
			px, ph := upscalePosition(x, w, up)
			sum := 64
			for k := -3; k <= 4; k++ {
				c := px + k
				if c < 0 || c >= mi {
					ev["taps beyond the frame"]++
				}
				sum += f[ph][k+3] * in[y][clip(0, mi-1, c)]
			}
			s := sum >> 7
			if s < 0 || s >= 1<<uint(depth) {
				ev["samples clipped"]++
			}
			want[y][x] = clip(0, 1<<uint(depth)-1, s)
		}
	}
	return want
}
