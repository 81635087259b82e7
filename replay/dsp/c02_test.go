package dsp

import "testing"

func TestDVC02_Mapping(t *testing.T) {
	r := dvRand()
	for round := 0; round < 3000; round++ {
		n := 1 + r.Intn(600)
		rate := 2 * n * (1 + r.Intn(200)) // the edges of the bins are whole numbers
		if r.Intn(3) == 0 {
			rate = 2*n + 2*r.Intn(50000)
		}
		center := r.Intn(30000000)
		m := NewFrequencyMapping(rate, n, center)
		if r.Intn(2) == 0 {
			center = r.Intn(30000000) - 1000
			m.SetCenterFrequency(center)
		}
		from := center - rate/2
		if rate%(2*n) == 0 && n%2 == 0 {
			if f := m.BinToFrequency(n/2, BinCenter); f != center {
				t.Fatalf("rate %d, block size %d, center %d: the middle bin is at %d", rate, n, center, f)
			}
		}
		for i := 0; i < 30; i++ {
			bin := r.Intn(n)
			f := m.BinToFrequency(bin, BinCenter)
			if d := f*n - from*n - bin*rate; d > n || d < -n {
				t.Fatalf("rate %d, block size %d, center %d: bin %d is at %d", rate, n, center, bin, f)
			}
			if got := m.FrequencyToBin(f); got != bin {
				t.Fatalf("rate %d, block size %d, center %d: bin %d is at %d, which maps back to bin %d", rate, n, center, bin, f, got)
			}
			if a, b := m.BinToFrequency(bin, BinTo), m.BinToFrequency(bin+1, BinFrom); a-b > 1 || b-a > 1 || a < f {
				t.Fatalf("rate %d, block size %d, center %d: bin %d ends at %d, the next one begins at %d", rate, n, center, bin, a, b)
			}
			f = from - rate/2 + r.Intn(2*rate)
			got := m.FrequencyToBin(f)
			if got < 0 || got >= n {
				t.Fatalf("rate %d, block size %d, center %d: frequency %d maps to bin %d", rate, n, center, f, got)
			}
			d := 2 * ((f-from)*n - got*rate) // twice the distance to the center of the bin, in 1/n Hz
			if (d > rate && got != n-1) || (d < -rate && got != 0) {
				t.Fatalf("rate %d, block size %d, center %d: frequency %d maps to bin %d", rate, n, center, f, got)
			}
		}
	}
}
