package cw

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

// dvAudio is written from the statement of the property, on top of the filter, the debouncer and the reference decoder.
func TestDVC27_Audio(t *testing.T) {
	r := rand.New(rand.NewSource(dvSeed()))
	for round := 0; round < 150; round++ {
		rate, pitch := 8000, float64(400+100*r.Intn(6))
		out := &strings.Builder{}
		d := NewAudioDemodulator(out, pitch, rate, 0)
		filter, debouncer := dsp.NewDefaultGoertzel(pitch, rate), dsp.NewBoolDebouncer(3)
		n := filter.Blocksize()
		if d.Blocksize() != n {
			t.Fatalf("block size %d, expected %d", d.Blocksize(), n)
		}
		ref := newDVDecoder(rate, n)
		scale, maxScale, channels := 1.0, 12.0, 1
		var block dsp.FilterBlock
		what := fmt.Sprintf("pitch %v", pitch)
		for part := 0; part < 4 && !ref.unsure; part++ {
			if part > 0 || r.Intn(2) == 0 {
				scale = []float64{0, 0.5, 1, 2, 20}[r.Intn(5)]
				d.SetScale(scale)
				maxScale = []float64{1, 4, 12}[r.Intn(3)]
				d.SetMaxScale(maxScale)
				threshold := 1 + r.Intn(4)
				d.SetDebounceThreshold(threshold)
				debouncer.SetThreshold(threshold)
				magnitude := []float64{0.3, 0.75, 0.9}[r.Intn(3)]
				d.SetMagnitudeThreshold(magnitude)
				filter.SetMagnitudeThreshold(magnitude)
				channels = 1 + r.Intn(3)
				d.SetChannelCount(channels)
				if got := d.MaxScale(); got != maxScale {
					t.Fatalf("maximum scale %v, expected %v", got, maxScale)
				}
				if got := d.DebounceThreshold(); got != threshold {
					t.Fatalf("debounce threshold %v, expected %v", got, threshold)
				}
				if got := d.MagnitudeThreshold(); got != magnitude {
					t.Fatalf("magnitude threshold %v, expected %v", got, magnitude)
				}
				if r.Intn(3) == 0 {
					wpm := 10 + r.Intn(30)
					d.PresetWPM(wpm)
					ref.preset(wpm)
					if got := d.WPM(); got != wpm {
						t.Fatalf("%d WPM, expected %d", got, wpm)
					}
				}
				what += fmt.Sprintf(", scale %v (max %v), debounce %d, threshold %v, %d channels", scale, maxScale, threshold, magnitude, channels)
			}
			tone := false
			amplitude := []float64{0.02, 0.3, 1, 3}[r.Intn(4)]
			phase := 0
			for i := 0; i < 10+r.Intn(20); i++ {
				count := (3 + r.Intn(9)) * n
				if r.Intn(2) == 0 {
					count += r.Intn(n)
				}
				if r.Intn(10) == 0 {
					count *= 8
				}
				buf := make([]float32, 0, count*channels)
				for j := 0; j < count; j++ {
					v := float32(0.001 * r.Float64())
					if tone {
						v += float32(amplitude * math.Sin(2*math.Pi*pitch*float64(phase)/float64(rate)))
					}
					phase++
					buf = append(buf, v)
					for c := 1; c < channels; c++ {
						buf = append(buf, float32(r.Float64()*2-1))
					}
					block = append(block, v)
					if len(block) < n {
						continue
					}
					s := float32(scale)
					if scale == 0 {
						m := 0.0
						for _, x := range block {
							m = max(m, math.Abs(float64(x)))
						}
						s = float32(math.Min(1/m, maxScale))
					}
					if s != 1 {
						for k := range block {
							block[k] = max(-1, min(1, block[k]*s))
						}
					}
					magnitude, state, _, _ := filter.Detect(block)
					if math.Abs(magnitude-filter.MagnitudeThreshold()) < 1e-6 {
						ref.unsure = true
					}
					block = block[:0]
					ref.step(debouncer.Debounce(state))
				}
				if written, err := d.Write(buf); written != len(buf) || err != nil {
					t.Fatalf("%s: %d of %d samples written: %v", what, written, len(buf), err)
				}
				tone = !tone
			}
			for deadline := time.Now().Add(10 * time.Second); len(d.in) > 0; {
				d.MaxScale()
				if time.Now().After(deadline) {
					t.Fatalf("%s: the samples are not processed", what)
				}
			}
			d.MaxScale() // the last sample is processed
			if !ref.unsure && out.String() != ref.out.String() {
				t.Fatalf("%s: decoded %q, expected %q", what, out.String(), ref.out.String())
			}
		}
		d.Close()
	}
}
