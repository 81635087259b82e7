bug("c09-unbound-release", "C09", [("rx/listener.go", """	index := p.indexOf(listener)
	if index == -1 {
		return
	}

	p.ids.Push(listener.ID())
""", """	p.ids.Push(listener.ID())

	index := p.indexOf(listener)
	if index == -1 {
		return
	}
""")],
"releasing a listener that is not bound anymore", "the id of a listener that is released twice is free twice, so two listeners can get the same id",
"""package rx

import (
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	p := NewListenerPool[float32, int](2, "id", func(id string) *Listener[float32, int] {
		return NewListener[float32, int](id, io.Discard, WallClock, nil, 12000, 512)
	})
	l, _ := p.BindNext()
	p.Release(l, l)
	a, _ := p.BindNext()
	b, _ := p.BindNext()
	if a.ID() == b.ID() {
		t.Fatalf("two listeners with the id %s", a.ID())
	}
}
""", "rx")

bug("c10-old-best-match", "C10", [("rx/text_processor.go", """	p.lastWrite = p.clock.Now()
	p.lastBestMatch = callsign.NoCallsign
	p.window.Reset()""", """	p.lastWrite = p.clock.Now()
	p.window.Reset()""")],
"a listener is attached again after a callsign was spotted, and then another callsign is spotted", "the callsign of the last attachment is still known, and its timeout is reported with the frequency of the new peak",
"""package rx

import (
	"io"
	"testing"

	"github.com/ftl/sdrainer/dsp"
)

type demoReporter struct{ timeouts int }

func (r *demoReporter) ListenerActivated(string, int)               {}
func (r *demoReporter) ListenerDeactivated(string, int)             {}
func (r *demoReporter) CallsignDecoded(_, _ string, _ int, _, _ int) {}
func (r *demoReporter) CallsignSpotted(_, _ string, _ int)          {}
func (r *demoReporter) SpotTimeout(_, _ string, _ int)              { r.timeouts++ }

func TestDemo(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := &demoReporter{}
	l := NewListener[float32, int]("id", io.Discard, WallClock, r, 12000, 512)
	l.textProcessor.dxccFinder, l.textProcessor.scpFinder = nil, nil
	for _, call := range []string{" dl1abc ", " w1aw "} {
		l.Attach(newDemoPeak())
		for i := 0; i < 4; i++ {
			l.textProcessor.Write([]byte(call))
		}
		l.textProcessor.sync()
		l.Detach()
	}
	if r.timeouts > 0 {
		t.Fatal("timeout of a callsign that was not spotted")
	}
}
""" + """
func newDemoPeak() *demoPeak { return &demoPeak{} }
""".replace("*demoPeak { return &demoPeak{} }", "*dsp.Peak[float32, int] { return &dsp.Peak[float32, int]{} }"), "rx")

bug("c28-zero-timeouts", "C28", [("rx/receiver.go", """	result.SetAttachmentTimeout(r.attachmentTimeout)
	result.SetSilenceTimeout(r.silenceTimeout)
""", """	if r.attachmentTimeout > 0 {
		result.SetAttachmentTimeout(r.attachmentTimeout)
	}
	if r.silenceTimeout > 0 {
		result.SetSilenceTimeout(r.silenceTimeout)
	}
""")],
"a timeout of zero and a listener that is bound after it was set", "a listener that is bound later uses the default timeout",
"""package rx

import "testing"

func TestDemo(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := NewReceiver[float32, int]("id", StrainMode, WallClock)
	r.SetSilenceTimeout(0)
	r.Start(12000, 512)
	defer r.Stop()
	l := r.newListener("id1")
	if l.silenceTimeout != 0 {
		t.Fatal(l.silenceTimeout)
	}
}
""", "rx")

bug("c26-never-silent", "C26", [("rx/receiver.go", """	w.activeChannel = channel
}""", """	if channel != "" {
		w.activeChannel = channel
	}
}""")],
"the active channel is set to none after another channel was active", "the text of a channel that is not active anymore is put out",
"""package rx

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	out := &bytes.Buffer{}
	w := NewChannelWriter(out)
	w.SetActive("a")
	w.SetActive("")
	w.Channel("a").Write([]byte("text"))
	if out.Len() > 0 {
		t.Fatal(out.String())
	}
}
""", "rx")

bug("c02-truncated-location", "C02", [("dsp/fft.go", "return F(m.fromFrequency + int(float64(bin)*m.binSize+locationDelta))", "return F(m.fromFrequency + int(float64(bin)*m.binSize) + int(locationDelta))")],
"a bin size that is not a whole number of Hertz", "there are gaps between the frequency ranges of neighbouring bins",
"""package dsp

import "testing"

func TestDemo(t *testing.T) {
	m := NewFrequencyMapping(12000, 512, 7000000)
	for i := 0; i < 511; i++ {
		if m.BinToFrequency(i, BinTo) != m.BinToFrequency(i+1, BinFrom) {
			t.Fatal(i)
		}
	}
}
""", "dsp")

bug("c14-search-point-kept", "C14", [("rx/text_processor.go", """	w.searchPoint = w.searchPoint + match[1]

	return""", """	if match[1] < len(searchText) {
		w.searchPoint = w.searchPoint + match[1]
	}

	return""")],
"a match with the tail included that ends exactly at the end of the text", "the same match is found again by the next search",
"""package rx

import "testing"

func TestDemo(t *testing.T) {
	w := newTextWindow(20)
	w.Write([]byte(" dl1abc"))
	w.FindNext(callsignExp, true)
	if s, ok := w.FindNext(callsignExp, true); ok {
		t.Fatalf("%q", s)
	}
}
""", "rx")

bug("c04-variance", "C04", [("dsp/fft.go", "	variance := sum / float64(windowSize)", "	variance := sum / float64(max(1, len(psd)/10))")],
"an edge width that is more than zero and a noise that is not constant within the quietest window", "the variance is not the one of the quietest window",
"""package dsp

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	psd := make(Block[float32], 100)
	for i := range psd {
		psd[i] = float32(2 + 2*(i%2))
	}
	mean, variance := FindNoiseFloor(psd, 20)
	if mean != 3 || math.Abs(variance-1) > 1e-6 {
		t.Fatal(mean, variance)
	}
}
""", "dsp")
