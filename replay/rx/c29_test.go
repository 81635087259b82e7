package rx

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
)

// dvLoopScope records what the listeners are given.
type dvLoopScope struct {
	values     []float64
	thresholds []float64
}

func (s *dvLoopScope) Active() bool { return true }
func (s *dvLoopScope) ShowTimeFrame(f *scope.TimeFrame) {
	if f.Stream == "demod" {
		s.values = append(s.values, f.Values["value"])
		s.thresholds = append(s.thresholds, f.Values["threshold"])
	}
}
func (s *dvLoopScope) ShowSpectralFrame(*scope.SpectralFrame) {}

const dvLoopSize = 64

func dvLoopBlock(r *rand.Rand, bins []int, level float64) []float32 {
	data := make([]float32, 2*dvLoopSize)
	for i := 0; i < dvLoopSize; i++ {
		x, y := 1e-5*(r.Float64()-0.5), 1e-5*(r.Float64()-0.5)
		for _, b := range bins {
			s, c := math.Sincos(2 * math.Pi * float64((b-dvLoopSize/2)*i) / dvLoopSize)
			x += level * c
			y += level * s
		}
		data[2*i], data[2*i+1] = float32(x), float32(y)
	}
	return data
}

func TestDVC29_Loop(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	for round := 0; round < 12; round++ {
		mode := StrainMode
		if round%4 == 3 {
			mode = DecodeMode
		}
		clock := &dvClock{now: time.Unix(1000, 0)}
		sc := &dvLoopScope{}
		rec := NewReceiver[float32, int]("id", mode, clock)
		rec.SetScope(sc)
		edge := r.Intn(10)
		rec.SetEdgeWidth(edge)
		rec.SetCenterFrequency(7000000)
		rec.SetAttachmentTimeout(10 * time.Second)
		rec.SetSilenceTimeout(10 * time.Second)
		rec.Start(6400, dvLoopSize)
		tones := []int{10 + r.Intn(10), 40 + r.Intn(10)}
		inside := func(f func()) {
			for len(rec.in) > 0 {
				time.Sleep(10 * time.Microsecond)
			}
			done := make(chan struct{})
			rec.do(func() { f(); close(done) })
			<-done
		}
		if mode == DecodeMode {
			rec.SetVFOOffset(100 * (tones[0] - dvLoopSize/2))
		}
		fft := dsp.NewFFT[float32]()
		floorMean, deviationMean := dsp.NewRollingMean[float32](noiseWindow), dsp.NewRollingMean[float32](noiseWindow)
		cumulation := make(dsp.Block[float32], dvLoopSize)
		bound := map[*Listener[float32, int]]*dsp.Peak[float32, int]{}
		released := false
		for i := 0; i < 420; i++ {
			what := fmt.Sprintf("mode %s, tones in bins %v, edge width %d, block %d", mode, tones, edge, i+1)
			on := i < 250
			block := dvLoopBlock(r, nil, 0)
			if on {
				block = dvLoopBlock(r, tones, 0.01)
			}
			if i == 260 {
				clock.now = clock.now.Add(11 * time.Second)
				released = mode == StrainMode
			}
			if r.Intn(20) == 0 {
				rec.in <- nil // no data, nothing is counted
			}

			var before []*Listener[float32, int]
			var bins []int
			inside(func() {
				before = append(before, rec.listeners.listeners...)
				for _, l := range before {
					bins = append(bins, l.SignalBin())
				}
				sc.values, sc.thresholds = nil, nil
			})
			spectrum, psd := make(dsp.Block[float32], dvLoopSize), make(dsp.Block[float32], dvLoopSize)
			fft.IQToSpectrumAndPSD(spectrum, psd, block, func(v complex128, n int) float32 { return dsp.MagnitudeIndB[float32](v, n) + dBmShift })
			noise, variance := dsp.FindNoiseFloor(psd, edge)
			deviation := deviationMean.Put(float32(float64(dsp.PSDValueIndB(float32(math.Sqrt(variance)), dvLoopSize)+dBmShift) * 0.25))
			floor := floorMean.Put(dsp.PSDValueIndB(noise, dvLoopSize) + dBmShift)
			for k := range spectrum {
				cumulation[k] += spectrum[k]
			}

			rec.in <- block
			inside(func() {
				if len(sc.values) != len(before) {
					t.Fatalf("%s: %d of %d listeners got a value", what, len(sc.values), len(before))
				}
				for k, b := range bins {
					if math.Abs(sc.values[k]-float64(spectrum[b])) > 0.01 {
						t.Fatalf("%s: the listener of bin %d got %v, expected %v", what, b, sc.values[k], spectrum[b])
					}
					if math.Abs(sc.thresholds[k]-float64(floor+deviation)) > 0.01 {
						t.Fatalf("%s: the noise threshold is %v, expected %v", what, sc.thresholds[k], floor+deviation)
					}
				}
				after := rec.listeners.listeners
				if i == 260 && mode == StrainMode {
					if len(after) != 0 {
						t.Fatalf("%s: %d listeners are still bound after their timeout", what, len(after))
					}
					for l, p := range bound {
						if l.Attached() {
							t.Fatalf("%s: a listener is still attached after its timeout", what)
						}
						if q := rec.peaks.bins[p.SignalBin]; q == nil || q.state != peakInactive {
							t.Fatalf("%s: the peak at %d is not inactive", what, p.SignalBin)
						}
					}
					return
				}
				expected := before
				if mode == StrainMode && i%100 == 99 && i < 260 {
					// the stronger signals that have no listener yet
					if len(after) != len(before)+1 {
						t.Fatalf("%s: %d listeners, expected %d", what, len(after), len(before)+1)
					}
					n := after[len(before)]
					if !n.Attached() {
						t.Fatalf("%s: the new listener is not attached", what)
					}
					p := n.Peak()
					if q := rec.peaks.bins[p.SignalBin]; q == nil || q.state != peakActive || q.Peak != p {
						t.Fatalf("%s: the peak of the new listener is not the active one of the table", what)
					}
					near := false
					for _, b := range tones {
						near = near || b == p.SignalBin
					}
					for _, b := range bins {
						near = near && b != p.SignalBin
					}
					if !near {
						t.Fatalf("%s: the new listener listens to bin %d", what, p.SignalBin)
					}
					bound[n] = p
					expected = append(expected, n)
				}
				if fmt.Sprint(dvIDs(after)) != fmt.Sprint(dvIDs(expected)) {
					t.Fatalf("%s: bound listeners %v, expected %v (silent: %v)", what, dvIDs(after), dvIDs(expected), released)
				}
				for _, l := range after {
					if !l.Attached() {
						t.Fatalf("%s: listener %s is bound, but not attached", what, l.id)
					}
				}
			})
			if i%100 == 99 {
				clear(cumulation)
			}
		}
		rec.Stop()
	}
}

func dvIDs(ls []*Listener[float32, int]) []string {
	var ids []string
	for _, l := range ls {
		ids = append(ids, l.id)
	}
	return ids
}
