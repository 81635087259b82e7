package dsp

import (
	"math"
	"math/cmplx"
	"testing"
)

func TestDVC01_Spectrum(t *testing.T) {
	r := dvRand()
	f := NewFFT[float32]()
	for round := 0; round < 400; round++ {
		n := 2 + r.Intn(40)
		if r.Intn(20) == 0 {
			n = 128
		}
		iq := dvInts(r, 2*n, 20)
		x := make([]complex128, n)
		power := make([]float64, n)
		for k := 0; k < n; k++ {
			var sum complex128
			for i := 0; i < n; i++ {
				sum += complex(float64(iq[2*i]), float64(iq[2*i+1])) * cmplx.Rect(1, -2*math.Pi*float64(i)*float64(k)/float64(n))
			}
			b := (k + n/2) % n
			x[b] = sum
			power[b] = real(sum)*real(sum) + imag(sum)*imag(sum)
		}
		total := 0.0
		for _, p := range power {
			total += p
		}
		near := func(a, b float64) bool { return math.Abs(a-b) <= 1e-4*(total+1) }
		spectrum, psd, spectrum2 := make([]float32, n), make([]float32, n), make([]float32, n)
		what := func(v complex128, blockSize int) float32 {
			if blockSize != n {
				t.Fatalf("block of %d samples: the projection gets the block size %d", n, blockSize)
			}
			return float32(real(v) + 2*imag(v))
		}
		if r.Intn(2) == 0 {
			f.IQToSpectrumAndPSD(spectrum, psd, iq, what)
			f.IQToSpectrum(spectrum2, iq, what)
		} else {
			f.IQToSpectrum(spectrum2, iq, what)
			f.IQToSpectrumAndPSD(spectrum, psd, iq, what)
		}
		for b := range x {
			want := real(x[b]) + 2*imag(x[b])
			if !near(float64(spectrum[b]), want) || !near(float64(spectrum2[b]), want) || !near(float64(psd[b]), power[b]) {
				t.Fatalf("IQ samples %v: bin %d of %d has the values %v and %v and the power %v, expected %v and %v", iq, b, n, spectrum[b], spectrum2[b], psd[b], want, power[b])
			}
		}
	}
}

func TestDVC01_Levels(t *testing.T) {
	r := dvRand()
	for round := 0; round < 1000; round++ {
		n := 1 + r.Intn(2000)
		v := complex(float64(r.Intn(200)-100), float64(r.Intn(200)-100))
		if v == 0 {
			continue
		}
		p := real(v)*real(v) + imag(v)*imag(v)
		db := 10 * math.Log10(20*p/(float64(n)*float64(n)))
		if !dvClose(float64(PSD[float32](v, n)), p) || !dvClose(float64(Magnitude[float32](v, n)), math.Sqrt(p)) || !dvClose(float64(MagnitudeIndB[float32](v, n)), db) || !dvClose(float64(PSDValueIndB(float32(p), n)), db) {
			t.Fatalf("value %v, block size %d: power %v (%v), magnitude %v (%v), level %v and %v (%v dB)", v, n, PSD[float32](v, n), p, Magnitude[float32](v, n), math.Sqrt(p), MagnitudeIndB[float32](v, n), PSDValueIndB(float32(p), n), db)
		}
	}
}
