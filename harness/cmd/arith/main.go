// Arithmetic and geometry monitors: the helper functions (M01) and the block
// geometry tables (M02).
package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

	"github.com/m4tthewde/gov1/internal/util"
	v "github.com/m4tthewde/gov1/internal/zzverif/vlib"
)

func main() {
	run := v.Start(os.Args[1])
	switch run.Prop {
	case "M01":
		helpers(run)
	case "M02":
		geometry(run)
	}
	run.Finish()
}

// monitor collects the observations of one case.
type monitor struct {
	run *v.Run
	d   []string
	ev  map[string]int64
}

func (m *monitor) eq(what string, got, want int, args ...int) {
	m.ev[what]++
	m.run.Eval(v.HashBytes([]byte(fmt.Sprint(what, args))), true)
	if got != want {
		m.d = append(m.d, fmt.Sprintf("%s%v is %d, want %d", what, args, got, want))
	}
}

func (m *monitor) hold(what string, ok bool, detail string) {
	m.ev[what]++
	m.run.Eval(v.HashBytes([]byte(what+detail)), true)
	if !ok {
		m.d = append(m.d, what+": "+detail)
	}
}

func (m *monitor) done(repro interface{}) {
	m.run.Events(m.ev)
	if len(m.d) > 6 {
		m.d = append(m.d[:6:6], fmt.Sprintf("and %d more", len(m.d)-6))
	}
	if len(m.d) > 0 {
		m.run.Violation(strings.Join(m.d, "; "), repro)
	}
}

// floorDiv is floor(a / 2^n) on big integers.
func floorShift(a *big.Int, n int) *big.Int {
	q, _ := new(big.Int).DivMod(a, new(big.Int).Lsh(big.NewInt(1), uint(n)), new(big.Int))
	return q // Euclidean division with a positive divisor rounds down
}

func round2(x, n int) int {
	if n == 0 {
		return x
	}
	b := big.NewInt(int64(x))
	b.Add(b, new(big.Int).Lsh(big.NewInt(1), uint(n-1)))
	return int(floorShift(b, n).Int64())
}

// recenter is the map coders use, the inverse of what decoders apply.
func recenter(r, x int) int {
	switch {
	case x > 2*r:
		return x
	case x >= r:
		return 2 * (x - r)
	}
	return 2*(r-x) - 1
}

// interleave orders 0..max-1 by distance from ref: ref, ref+1, ref-1, ... then
// what is left on the longer side; from an end it counts inwards.
func interleave(ref, max int) []int {
	var o []int
	if ref == 0 {
		for i := 0; i < max; i++ {
			o = append(o, i)
		}
		return o
	}
	if ref >= max-1 {
		for i := max - 1; i >= 0; i-- {
			o = append(o, i)
		}
		return o
	}
	o = append(o, ref)
	lo, hi := ref-1, ref+1
	for lo >= 0 && hi < max {
		o = append(o, hi, lo)
		hi++
		lo--
	}
	for ; hi < max; hi++ {
		o = append(o, hi)
	}
	for ; lo >= 0; lo-- {
		o = append(o, lo)
	}
	return o
}

func signedInt(r *v.RNG, bits int) int {
	x := int(r.U64() >> uint(64-r.In(1, bits)))
	if r.P(50) {
		x = -x
	}
	return x
}

func helpers(run *v.Run) {
	run.Rule = "a case is a block of calls of the arithmetic helpers, each compared with its definition computed independently (big integers, math.Log2/Cos, explicit orders); distinct by function and arguments"
	run.Par("small", 300, func(i int, r *v.RNG) {
		m := &monitor{run: run, ev: map[string]int64{}}
		// exhaustive for small numbers: block i
		x := i
		if x >= 1 {
			m.eq("FloorLog2", util.FloorLog2(x), int(math.Floor(math.Log2(float64(x)))), x)
			m.eq("CeilLog2", util.CeilLog2(x), int(math.Ceil(math.Log2(float64(x)))), x)
		} else {
			m.eq("CeilLog2", util.CeilLog2(0), 0, 0)
		}
		for blk := 1; blk < 200; blk++ {
			k, s := 0, blk
			for s < x {
				s += s
				k++
			}
			m.eq("TileLog2", util.TileLog2(blk, x), k, blk, x)
		}
		for e := 0; e <= 2*x+20; e++ {
			m.eq("InverseRecenter", recenter(x, util.InverseRecenter(x, e)), e, x, e)
		}
		for ref := 0; ref < x && x <= 40; ref++ {
			for k, want := range interleave(ref, x) {
				m.eq("NegDeinterleave", util.NegDeinterleave(k, ref, x), want, k, ref, x)
			}
		}
		for n := 0; n <= 8; n++ {
			for _, y := range []int{x, -x} {
				m.eq("Round2", util.Round2(y, n), round2(y, n), y, n)
				w := round2(x, n)
				if y < 0 {
					w = -w
				}
				m.eq("Round2Signed", util.Round2Signed(y, n), w, y, n)
			}
		}
		if x < 256 {
			for n := 8; n <= 8; n++ {
				w := 0
				for k, c := range fmt.Sprintf("%08b", x) {
					if c == '1' {
						w |= 1 << uint(k)
					}
				}
				m.eq("Brev", util.Brev(n, x), w, n, x)
			}
			for n := 1; n < 8; n++ {
				if x < 1<<uint(n) {
					m.eq("Brev twice", util.Brev(n, util.Brev(n, x)), x, n, x)
					m.eq("Brev", util.Brev(n, x), util.Brev(8, x)>>uint(8-n), n, x)
				}
			}
		}
		for _, a := range []int{x, -x, x + 256, x + 512, x - 1024} {
			m.eq("Cos128", util.Cos128(a), int(math.RoundToEven(4096*math.Cos(float64(a)*math.Pi/128))), a)
			m.eq("Sin128", util.Sin128(a), int(math.RoundToEven(4096*math.Sin(float64(a)*math.Pi/128))), a)
		}
		for y := -300; y <= 300; y += 7 {
			mn, mx := x, y
			if y < x {
				mn, mx = y, x
			}
			m.eq("Min", util.Min(x, y), mn, x, y)
			m.eq("Max", util.Max(x, y), mx, x, y)
			m.eq("Min", util.Min(y, x), mn, y, x)
			m.eq("Max", util.Max(y, x), mx, y, x)
		}
		m.done(map[string]interface{}{"x": x})
	})
	run.Par("random", run.Scale(1500, 30000), func(i int, r *v.RNG) {
		m := &monitor{run: run, ev: map[string]int64{}}
		for k := 0; k < 20; k++ {
			x, n := signedInt(r, 56), r.N(48)
			m.eq("Round2", util.Round2(x, n), round2(x, n), x, n)
			ax := x
			if x < 0 {
				ax = -x
			}
			w := round2(ax, n)
			if x < 0 {
				w = -w
			}
			m.eq("Round2Signed", util.Round2Signed(x, n), w, x, n)
			m.eq("Abs", util.Abs(x), ax, x)

			three := []int{signedInt(r, 40), signedInt(r, 40), signedInt(r, 40)}
			if three[0] > three[1] {
				three[0], three[1] = three[1], three[0]
			}
			if r.P(20) {
				three[2] = three[r.N(2)] + r.In(-1, 1)
			}
			s := append([]int{}, three...)
			sort.Ints(s)
			m.eq("Clip3", util.Clip3(three[0], three[1], three[2]), s[1], three...)
			bd := []int{8, 10, 12}[r.N(3)]
			p := signedInt(r, 16)
			s = []int{0, 1<<uint(bd) - 1, p}
			sort.Ints(s)
			m.eq("Clip1", util.Clip1(p, bd), s[1], p, bd)

			pos := int(r.U64()>>uint(64-r.In(1, 44))) + 1
			b := big.NewInt(int64(pos))
			m.eq("FloorLog2", util.FloorLog2(pos), b.BitLen()-1, pos)
			m.eq("CeilLog2", util.CeilLog2(pos), new(big.Int).Sub(b, big.NewInt(1)).BitLen(), pos)
			near := 1<<uint(r.N(44)) + r.In(-1, 1)
			if near > 0 {
				b := big.NewInt(int64(near))
				m.eq("FloorLog2", util.FloorLog2(near), b.BitLen()-1, near)
				m.eq("CeilLog2", util.CeilLog2(near), new(big.Int).Sub(b, big.NewInt(1)).BitLen(), near)
			}
			blk, target := r.In(1, 5000), r.N(1<<uint(r.In(1, 30)))
			k, t := 0, blk
			for t < target {
				t += t
				k++
			}
			m.eq("TileLog2", util.TileLog2(blk, target), k, blk, target)

			ref := r.N(1 << uint(r.In(1, 20)))
			e := r.N(1 << uint(r.In(1, 22)))
			m.eq("InverseRecenter", recenter(ref, util.InverseRecenter(ref, e)), e, ref, e)

			unit, size := 1<<uint(r.In(2, 10)), r.In(1, 1<<uint(r.In(1, 17)))
			// units are as long as the nominal size, the last up to one and a half
			c := util.CountUnitsInFrame(unit, size)
			rest := size - (c-1)*unit
			m.hold("CountUnitsInFrame", c == 1 && 2*rest < 3*unit || c > 1 && 2*rest >= unit && 2*rest < 3*unit, fmt.Sprintf("unit %d size %d gives %d", unit, size, c))
			a2, b2 := r.N(130), r.N(130)
			m.eq("LsProduct", util.LsProduct(a2, b2), int(math.Floor(float64(a2)*float64(b2)/4))+a2+b2, a2, b2)
			m.eq("LsProduct", util.LsProduct(-a2, b2), int(math.Floor(float64(-a2)*float64(b2)/4))-a2+b2, -a2, b2)

			// sorting a stretch leaves the rest alone
			arr := make([]int, r.In(1, 24))
			for j := range arr {
				arr[j] = r.In(-20, 20)
			}
			i1 := r.N(len(arr))
			i2 := i1 + r.N(len(arr)-i1)
			want := append([]int{}, arr...)
			sort.Ints(want[i1 : i2+1])
			in := append([]int{}, arr...)
			out := util.Sort(arr, i1, i2)
			m.hold("Sort", fmt.Sprint(out) == fmt.Sprint(want), fmt.Sprint(in, i1, i2, out))
			mv1, mv2 := [2]int{r.In(-2, 2), r.In(-2, 2)}, [2]int{r.In(-2, 2), r.In(-2, 2)}
			m.hold("Equals", util.Equals(mv1, mv2) == (mv1 == mv2), fmt.Sprint(mv1, mv2))
		}
		m.done(map[string]interface{}{"case": i})
	})
	m := &monitor{run: run, ev: map[string]int64{}}
	// one modes code a new motion vector: NEWMV and every compound with NEW
	isNew := map[int]bool{17: true, 20: true, 21: true, 22: true, 23: true, 25: true}
	for mode := 0; mode <= 25; mode++ {
		m.hold("HasNewmv", util.HasNewmv(mode) == isNew[mode], fmt.Sprint(mode))
	}
	for x := -3; x < 4; x++ {
		m.hold("Bool", util.Bool(x) == (x != 0), fmt.Sprint(x))
	}
	m.eq("Int", util.Int(true), 1, 1)
	m.eq("Int", util.Int(false), 0, 0)
	obmc := map[int][]int{2: {45, 64}, 4: {39, 50, 59, 64}, 8: {36, 42, 48, 53, 57, 61, 64, 64},
		16: {34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64},
		32: {33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 48, 50, 51, 52, 53, 55, 56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64, 64}}
	for n := range obmc {
		got := util.GetObmcMask(n)
		m.eq("overlap mask length", len(got), n, n)
		for k := range got {
			m.eq("overlap mask", got[k], obmc[n][k], n, k)
			m.hold("overlap mask is monotonic up to 64", got[k] > 32 && got[k] <= 64 && (k == 0 || got[k] >= got[k-1]) && got[n-1] == 64, fmt.Sprint(n, k, got))
		}
	}
	m.done(nil)
}
