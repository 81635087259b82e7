package dsp

import (
	"fmt"
	"math"
	"testing"
)

func TestDVC03_Peaks(t *testing.T) {
	r := dvRand()
	peaks := make([]Peak[float32, int], 0, 10)
	for round := 0; round < 20000; round++ {
		n := r.Intn(24)
		count := []int{1, 2, 4}[r.Intn(3)]
		limit := 1 + r.Intn(12)
		spectrum := Block[float32](dvInts(r, n, limit))
		for i := range spectrum {
			spectrum[i] *= float32(count)
		}
		threshold := float32(r.Intn(2*limit+1) - limit)
		size := max(n, 1)
		m := NewFrequencyMapping(size*[]int{64, 96, 200}[r.Intn(3)], size, 7000000+r.Intn(1000))
		peaks = FindPeaks(peaks, spectrum, count, threshold, m)
		what := fmt.Sprintf("spectrum %v, %d spectra, threshold %v: peaks %+v", spectrum, count, threshold, peaks)
		k := 0
		for i := 0; i < n; i++ {
			if !(spectrum[i]/float32(count) > threshold) {
				continue
			}
			from, best := i, i
			for i+1 < n && spectrum[i+1]/float32(count) > threshold {
				i++
				if spectrum[i] > spectrum[best] {
					best = i
				}
			}
			if k >= len(peaks) {
				t.Fatalf("%s: the run %d to %d is missing", what, from, i)
			}
			p := peaks[k]
			k++
			if p.From != from || p.To != i || p.SignalBin != best || p.SignalValue != spectrum[best]/float32(count) {
				t.Fatalf("%s: expected the run %d to %d with the maximum in bin %d", what, from, i, best)
			}
			if p.FromFrequency != m.BinToFrequency(from, BinFrom) || p.ToFrequency != m.BinToFrequency(i, BinTo) {
				t.Fatalf("%s: expected the frequencies %d to %d", what, m.BinToFrequency(from, BinFrom), m.BinToFrequency(i, BinTo))
			}
			correction := 0.0
			if best > 0 && best < n-1 {
				y1, y2, y3 := float64(spectrum[best-1]), float64(spectrum[best]), float64(spectrum[best+1])
				if d := 2 * (2*y2 - y1 - y3); d != 0 && math.Abs((y3-y1)/d) <= 0.5 {
					correction = (y3 - y1) / d
				}
			}
			want := m.BinToFrequency(best, BinLocation(correction))
			if d := p.SignalFrequency - want; d < -1 || d > 1 {
				t.Fatalf("%s: expected the signal of the run %d to %d at %d", what, from, i, want)
			}
			for b := -1; b <= n; b++ {
				if p.ContainsBin(b) != (from <= b && b <= i) {
					t.Fatalf("%s: the peak %d to %d contains bin %d: %v", what, from, i, b, p.ContainsBin(b))
				}
			}
			if p.Width() != i-from+1 || p.Center() < from || p.Center() > i {
				t.Fatalf("%s: the peak %d to %d has the width %d and the center %d", what, from, i, p.Width(), p.Center())
			}
		}
		if k != len(peaks) {
			t.Fatalf("%s: there are only %d runs above the threshold", what, k)
		}
	}
}
