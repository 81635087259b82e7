LOOP = '''package rx

import (
	"math"
	"testing"
	"time"
)

type demoClock struct{ now time.Time }

func (c *demoClock) Now() time.Time { return c.now }

const demoSize = 64

func demoBlock(level float64, bins ...int) []float32 {
	data := make([]float32, 2*demoSize)
	seed := uint32(1)
	for i := 0; i < demoSize; i++ {
		seed = seed*1664525 + 1013904223
		x := 1e-5 * (float64(seed>>8)/float64(1<<24) - 0.5)
		seed = seed*1664525 + 1013904223
		y := 1e-5 * (float64(seed>>8)/float64(1<<24) - 0.5)
		for _, b := range bins {
			s, c := math.Sincos(2 * math.Pi * float64((b-demoSize/2)*i) / demoSize)
			x += level * c
			y += level * s
		}
		data[2*i], data[2*i+1] = float32(x), float32(y)
	}
	return data
}

func demoFeed(r *Receiver[float32, int], n int, level float64, bins ...int) {
	for i := 0; i < n; i++ {
		r.in <- demoBlock(level, bins...)
		demoInside(r, func() {})
	}
}

func demoInside(r *Receiver[float32, int], f func()) {
	for len(r.in) > 0 {
		time.Sleep(10 * time.Microsecond)
	}
	done := make(chan struct{})
	r.do(func() { f(); close(done) })
	<-done
}

func demoReceiver(clock Clock) *Receiver[float32, int] {
	r := NewReceiver[float32, int]("id", StrainMode, clock)
	r.SetAttachmentTimeout(10 * time.Second)
	r.SetSilenceTimeout(10 * time.Second)
	r.Start(6400, demoSize)
	return r
}

func TestDemo(t *testing.T) {
	clock := &demoClock{now: time.Unix(1000, 0)}
	r := demoReceiver(clock)
	defer r.Stop()
%s}
'''

bug("c29-one-released", "C29", [("rx/receiver.go", "			r.listeners.Release(detachedListeners...)", "			r.listeners.Release(detachedListeners[:min(1, len(detachedListeners))]...)")],
"two listeners whose timeouts are exceeded by the same block", "the second one is detached, but stays bound",
LOOP % '''	demoFeed(r, 200, 0.01, 12, 45)
	n := 0
	demoInside(r, func() { n = len(r.listeners.listeners) })
	if n != 2 {
		t.Fatalf("%d listeners", n)
	}
	clock.now = clock.now.Add(11 * time.Second)
	demoFeed(r, 1, 0)
	demoInside(r, func() { n = len(r.listeners.listeners) })
	if n != 0 {
		t.Fatalf("%d listeners are still bound", n)
	}
''', "rx")
bug("c29-mean-kept", "C29", [("rx/receiver.go", """				clear(cumulation)
				cumulationCount = 0
""", """				if r.mode != StrainMode || r.listeners.Available() {
					clear(cumulation)
				}
				cumulationCount = 0
""")],
"all listeners of the pool are bound while 100 blocks are summed up, and one of them is released afterwards", "the mean spectrum contains older blocks",
LOOP % '''	r.Stop()
	r.listeners = NewListenerPool[float32, int](1, "id", r.newListener)
	r.Start(6400, demoSize)
	demoFeed(r, 100, 0.01, 12)
	demoFeed(r, 100, 0.01, 45)
	clock.now = clock.now.Add(11 * time.Second)
	demoFeed(r, 100, 0)
	n := 0
	demoInside(r, func() { n = len(r.listeners.listeners) })
	if n != 0 {
		t.Fatal("a listener for a signal that is not there any more")
	}
''', "rx")
bug("c29-detached-at-silence-only", "C29", [("rx/receiver.go", "				if r.mode == StrainMode && l.TimeoutExceeded() {", "				if r.mode == StrainMode && signalValue <= noiseFloor+noiseDeviation && l.TimeoutExceeded() {")],
"a listener whose timeout is exceeded while its signal is there", "the listener is not released",
LOOP % '''	demoFeed(r, 100, 0.01, 12)
	clock.now = clock.now.Add(11 * time.Second)
	demoFeed(r, 1, 0.01, 12)
	n := 0
	demoInside(r, func() { n = len(r.listeners.listeners) })
	if n != 0 {
		t.Fatalf("%d listeners are still bound", n)
	}
''', "rx")
bug("c29-wide-peak", "C29", [("rx/receiver.go", """						centeredPeak := r.newPeakCenteredOnSignal(p)
						r.peaks.Put(&centeredPeak)
""", """						if p.Width() > 5 {
							continue // too wide for a signal
						}
						centeredPeak := r.newPeakCenteredOnSignal(p)
						r.peaks.Put(&centeredPeak)
""")],
"a peak of more than five bins", "the peak is not put into the table and gets no listener",
LOOP % '''	demoFeed(r, 100, 0.01, 12, 13, 14, 15, 16, 17, 18)
	n := 0
	demoInside(r, func() { n = len(r.listeners.listeners) })
	if n != 1 {
		t.Fatalf("%d listeners", n)
	}
''', "rx")
