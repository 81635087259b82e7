bug("c05-threshold-restarts-count", "C05", [("dsp/dsp.go", """	d.threshold = threshold
}""", """	d.threshold = threshold
	d.stateCount = 0
}""")], "the threshold is set while a run of equal states that has not yet reached it is being counted",
"setting the threshold restarts the count of the successive equal states, so the change of the state is passed on too late",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	d := NewBoolDebouncer(5)
	d.Debounce(true)
	d.Debounce(true)
	d.SetThreshold(3)
	if !d.Debounce(true) {
		t.Fatal("three successive states are not enough for a threshold of three")
	}
}
""", "dsp")

bug("c03-last-maximum", "C03", [("dsp/fft.go", "currentPeak != nil && currentPeak.SignalValue < value {", "currentPeak != nil && currentPeak.SignalValue <= value {")],
"a run with its maximum value in several bins", "the signal of a peak is the last instead of the first maximum of its run",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	m := NewFrequencyMapping(800, 8, 1000)
	peaks := FindPeaks(nil, Block[float32]{0, 0, 5, 3, 5, 0, 0, 0}, 1, 1, m)
	if len(peaks) != 1 || peaks[0].SignalBin != 2 {
		t.Fatalf("%+v", peaks)
	}
}
""", "dsp")

bug("c01-samples-not-resized", "C01", [("dsp/fft.go", "if len(f.samples) != blockSize {", "if len(f.samples) < blockSize {"),
 ("dsp/fft.go", """	for i := range f.samples {
		iSample""", """	for i := 0; i < blockSize; i++ {
		iSample""")],
"a block that is smaller than one of the blocks before", "the transform of a smaller block contains the rest of the samples of a bigger one",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	f := NewFFT[float32]()
	defer func() {
		if err := recover(); err != nil {
			t.Fatal(err)
		}
	}()
	for _, n := range []int{8, 4} {
		f.IQToSpectrum(make([]float32, n), make([]float32, 2*n), PSD[float32])
	}
}
""", "dsp")

bug("c06-history-after-reset", "C06", [("dsp/dsp.go", """	clear(h.ring)
	h.next = 0""", """	clear(h.ring[:h.next])
	h.next = 0""")],
"a reset after the ring buffer wrapped around", "values from before the reset stay in the history",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	h := NewRollingHistory[float32](3)
	for i := 1; i <= 4; i++ {
		h.Put(float32(i))
	}
	h.Reset()
	if h.Sum(3) != 0 {
		t.Fatal(h.Sum(3))
	}
}
""", "dsp")

bug("c06-max-of-negatives", "C06", [("dsp/dsp.go", """	max := h.Get(1)
	h.forEach""", """	var max T
	h.forEach""")],
"a selection that contains only negative values", "the maximum of negative values is zero",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	h := NewRollingHistory[float32](2)
	h.Put(-3)
	h.Put(-1)
	if h.Max(2) != -1 {
		t.Fatal(h.Max(2))
	}
}
""", "dsp")

bug("c11-ninth-symbol-lost", "C11", [("cw/decode.go", """		d.decodeCurrentChar()
		d.currentChar.append(s)
	}""", """		d.decodeCurrentChar()
	}""")],
"a ninth symbol without a gap that separates characters", "the symbol that did not fit into the current character is lost",
"""package cw

import (
	"bytes"
	"testing"

	"github.com/ftl/digimodes/cw"
)

func TestDemo(t *testing.T) {
	out := &bytes.Buffer{}
	d := NewDecoder(out, 8000, 64)
	for i := 0; i < 8; i++ {
		d.appendSymbol(cw.Dit)
	}
	d.appendSymbol(cw.Da)
	out.Reset()
	d.decodeCurrentChar()
	if out.String() != "t" {
		t.Fatalf("%q", out.String())
	}
}
""", "cw")

bug("c12-short-tone-adapts", "C12", [("cw/decode.go", """	if onDuration < minDitTime {
		return
	}

	d.onThreshold.Put(onDuration, true)
""", """	d.onThreshold.Put(onDuration, true)
	if onDuration < minDitTime {
		return
	}
""")],
"a tone of a single tick, followed by a tone of at least two ticks", "clicks that are too short for a dit move the adaptive threshold",
"""package cw

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	d := NewDecoder(&bytes.Buffer{}, 8000, 64)
	before := d.onThreshold.Low()
	d.Tick(true)
	d.Tick(false)
	if d.onThreshold.Low() != before || d.onThreshold.last != before {
		t.Fatalf("%v %v, expected %v", d.onThreshold.Low(), d.onThreshold.last, before)
	}
}
""", "cw")

bug("c07-active-neighbour-replaced", "C07", [("rx/peaks.go", """		if existingPeak.state == peakActive || existingPeak.state == peakInactive {
			return
		}
		if clearFrom == -1 {""", """		if clearFrom == -1 && (existingPeak.state == peakActive || existingPeak.state == peakInactive) {
			return
		}
		if clearFrom == -1 {""")],
"a new peak that overlaps a new one first and then an active one", "a peak that is listened to is replaced by a new peak",
"""package rx

import (
	"testing"

	"github.com/ftl/sdrainer/dsp"
)

func TestDemo(t *testing.T) {
	table := NewPeaksTable[float32, int](10, WallClock)
	a := &dsp.Peak[float32, int]{From: 1, To: 2}
	b := &dsp.Peak[float32, int]{From: 4, To: 5}
	table.Put(a)
	table.Put(b)
	table.Activate(b)
	table.Put(&dsp.Peak[float32, int]{From: 2, To: 4})
	if table.Get(5) != b {
		t.Fatal("the active peak was replaced")
	}
}
""", "rx")

bug("c08-cleanup-forgets-inactive", "C08", [("rx/peaks.go", """		t.clear(p.From, p.To)
		i = p.To + 1""", """		t.clear(p.From, p.To)
		i = p.To + 2""")],
"two old peaks side by side, without a free bin between them, the second one of a single bin", "the clean-up leaves a peak of a single bin that follows immediately behind another removed one",
"""package rx

import (
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

func TestDemo(t *testing.T) {
	clock := &manualClock{now: time.Now()}
	table := NewPeaksTable[float32, int](10, clock)
	table.Put(&dsp.Peak[float32, int]{From: 1, To: 2})
	table.Put(&dsp.Peak[float32, int]{From: 3, To: 3})
	clock.Add(time.Hour)
	table.Cleanup()
	if table.Get(3) != nil {
		t.Fatal("an old peak is left")
	}
}
""", "rx")

bug("c15-weight-counted-again", "C15", [("rx/text_processor.go", """	collected.count++
""", """	collected.count += 1 + collected.weight
""")],
"a callsign that the database of known callsigns contains literally", "known callsigns are counted twice each time",
"""package rx

import (
	"testing"

	"github.com/ftl/hamradio/scp"
)

type demoSCP struct{}

func (demoSCP) FindStrings(s string) ([]string, error)   { return []string{s}, nil }
func (demoSCP) Find(s string) ([]scp.Match, error) { return nil, nil }

type demoReporter struct{ counts []int }

func (r *demoReporter) CallsignDecoded(c string, count, weight int) { r.counts = append(r.counts, count) }
func (r *demoReporter) CallsignSpotted(string)                      {}
func (r *demoReporter) SpotTimeout(string)                          {}

func TestDemo(t *testing.T) {
	r := &demoReporter{}
	p := NewTextProcessor(nil, WallClock, r)
	p.dxccFinder, p.scpFinder = nil, demoSCP{}
	p.collectCallsign("dl1abc")
	p.collectCallsign("dl1abc")
	if len(r.counts) != 2 || r.counts[1] != 2 {
		t.Fatal(r.counts)
	}
}
""", "rx")

bug("c27-limit-drops", "C27", [("dsp/dsp.go", """	if f.magnitudeLimit < f.magnitudeLimitLow {
		f.magnitudeLimit = f.magnitudeLimitLow
	}""", """	if f.magnitudeLimit < f.magnitudeLimitLow || magnitude < f.magnitudeLimitLow {
		f.magnitudeLimit = f.magnitudeLimitLow
	}""")],
"a weak block after strong ones have raised the limit", "the reference of the normalized magnitude does not follow the strong blocks but drops with every weak one",
"""package dsp

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	f := NewDefaultGoertzel(700, 8000)
	strong, weak := make([]float32, f.Blocksize()), make([]float32, f.Blocksize())
	for i := range strong {
		strong[i] = float32(8 * math.Sin(2*math.Pi*700*float64(i)/8000))
	}
	for i := 0; i < 30; i++ {
		f.NormalizedMagnitude(strong)
	}
	limit := f.magnitudeLimit
	f.NormalizedMagnitude(weak)
	if f.magnitudeLimit < limit {
		t.Fatalf("the limit fell from %v to %v", limit, f.magnitudeLimit)
	}
}
""", "dsp")

bug("c16-failed-lookup-counts", "C16", [("rx/text_processor.go", """	matches, err := p.scpFinder.FindStrings(call.String())
	if err != nil {
		return false
	}
""", """	matches, err := p.scpFinder.FindStrings(call.String())
	if err != nil && len(matches) == 0 {
		return false
	}
""")],
"a database that fails after it has found something", "a failing database gives a callsign additional weight",
"""package rx

import (
	"errors"
	"testing"

	"github.com/ftl/hamradio/callsign"
	"github.com/ftl/hamradio/scp"
)

type demoSCP struct{}

func (demoSCP) FindStrings(s string) ([]string, error)   { return []string{s}, errors.New("failed") }
func (demoSCP) Find(s string) ([]scp.Match, error) { return nil, nil }

func TestDemo(t *testing.T) {
	p := &TextProcessor{scpFinder: demoSCP{}}
	if w := p.callsignWeight(callsign.MustParse("dl1abc")); w != 0 {
		t.Fatal(w)
	}
}
""", "rx")

bug("c13-endless-tone", "C13", [("cw/decode.go", "if d.decoding && currentDuration > upperBound {", "if d.decoding && !state && currentDuration > upperBound {")],
"a tone that does not end", "the current character is not completed as long as the signal stays on",
"""package cw

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	out := &bytes.Buffer{}
	d := NewDecoder(out, 8000, 64)
	for _, n := range []int{8, 8, 2000} {
		state := !d.lastState
		for i := 0; i < n; i++ {
			d.Tick(state)
		}
	}
	if out.String() != "e" {
		t.Fatalf("%q", out.String())
	}
}
""", "cw")
