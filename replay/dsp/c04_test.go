package dsp

import "testing"

func TestDVC04_NoiseFloor(t *testing.T) {
	r := dvRand()
	for round := 0; round < 20000; round++ {
		n := r.Intn(130)
		edge := r.Intn(40) - 5
		if r.Intn(4) == 0 {
			edge = r.Intn(300) - 100
		}
		psd := Block[float32](dvInts(r, n, 50))
		floor, variance := FindNoiseFloor(psd, edge)
		e := min(edge, (n-1)/2)
		e = max(0, e)
		w := max(1, (n-2*e)/10)
		best, bestFrom := 0.0, -1
		for from := e; from+w <= n-e; from += w {
			sum := 0.0
			for _, v := range psd[from : from+w] {
				sum += float64(v)
			}
			if bestFrom == -1 || sum/float64(w) < best {
				best, bestFrom = sum/float64(w), from
			}
		}
		if n == 0 {
			if floor != 0 || variance != 0 {
				t.Fatalf("empty spectrum: noise floor %v, variance %v", floor, variance)
			}
			continue
		}
		if !dvClose(float64(floor), best) {
			t.Fatalf("spectrum %v, edge width %d: noise floor %v, expected %v", psd, edge, floor, best)
		}
		// the variance of one of the windows with this mean
		found := false
		for from := e; from+w <= n-e; from += w {
			sum, dev := 0.0, 0.0
			for _, v := range psd[from : from+w] {
				sum += float64(v)
			}
			for _, v := range psd[from : from+w] {
				dev += (float64(v) - best) * (float64(v) - best)
			}
			if dvClose(sum/float64(w), best) && dvClose(dev/float64(w), variance) {
				found = true
			}
		}
		if !found {
			t.Fatalf("spectrum %v, edge width %d: variance %v is not that of a window with the mean %v", psd, edge, variance, floor)
		}
	}
}
