package dsp

import (
	"math"
	"testing"
)

func TestDVC27_Goertzel(t *testing.T) {
	r := dvRand()
	for round := 0; round < 300; round++ {
		rate := []int{8000, 12000, 44100, 48000}[r.Intn(4)]
		pitch := float64(200 + r.Intn(1500))
		ratio := []float64{0.0001, 0.001, 0.005, 0.02}[r.Intn(4)]
		f := NewGoertzel(pitch, rate, ratio)
		period := int(math.Round(float64(rate) / pitch))
		n := f.Blocksize()
		if n <= 0 || n%period != 0 || n != period*max(1, int(math.Round(ratio*float64(rate)/float64(period)))) {
			t.Fatalf("pitch %v, sample rate %d, ratio %v: block size %d, the period is %d", pitch, rate, ratio, n, period)
		}
		if want := float64(n) / float64(rate); !dvClose(f.Tick().Seconds(), want) {
			t.Fatalf("pitch %v, sample rate %d, block size %d: tick %v", pitch, rate, n, f.Tick())
		}
		bin := int(0.5 + float64(n)*pitch/float64(rate))
		coeff := 2 * math.Cos(2*math.Pi*float64(bin)/float64(n))
		low, limit := float64(n)/2, 0.0
		threshold := 0.75
		for i := 0; i < 20; i++ {
			if r.Intn(5) == 0 {
				threshold = r.Float64() * 1.5
				f.SetMagnitudeThreshold(threshold)
			}
			if f.MagnitudeThreshold() != threshold {
				t.Fatalf("threshold %v, expected %v", f.MagnitudeThreshold(), threshold)
			}
			block := make([]float32, n+r.Intn(3))
			a := r.Float64() * 4
			for j := range block {
				block[j] = float32(a*math.Sin(2*math.Pi*pitch*float64(j)/float64(rate)) + 0.1*r.Float64())
			}
			if _, _, _, err := f.Detect(block[:n-1]); err == nil {
				t.Fatalf("%d samples are accepted, the block size is %d", n-1, n)
			}
			q1, q2 := 0.0, 0.0
			for _, s := range block[:n] {
				q1, q2 = coeff*q1-q2+float64(s), q1
			}
			magnitude := math.Sqrt(q1*q1 + q2*q2 - q1*q2*coeff)
			if got := f.Magnitude(block[:n]); !dvClose(got, magnitude) {
				t.Fatalf("pitch %v, sample rate %d, amplitude %v: magnitude %v, expected %v", pitch, rate, a, got, magnitude)
			}
			if math.Abs(magnitude-low) < 1e-6 {
				break
			}
			if magnitude > low {
				limit += (magnitude - limit) / 6
			}
			limit = max(limit, low)
			normalized, state, used, err := f.Detect(block)
			if err != nil || used != n || !dvClose(normalized, magnitude/limit) || (math.Abs(magnitude/limit-threshold) > 1e-6 && state != (magnitude/limit > threshold)) {
				t.Fatalf("pitch %v, sample rate %d, block %d with amplitude %v, threshold %v: detected %v, %v, %d samples, %v; expected the normalized magnitude %v", pitch, rate, i, a, threshold, normalized, state, used, err, magnitude/limit)
			}
		}
	}
}
