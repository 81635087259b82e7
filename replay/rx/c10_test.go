package rx

import (
	"bytes"
	"fmt"
	"testing"
	"time"
)

func TestDVC10_Listener(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	for round := 0; round < 150; round++ {
		clock := &dvClock{time.Unix(5000, 0)}
		reporter := &dvReporter{}
		out := &bytes.Buffer{}
		l := NewListener[float32, int]("me", out, clock, reporter, 12000, 512)
		l.textProcessor.dxccFinder, l.textProcessor.scpFinder = nil, nil
		attachment, silence := time.Duration(defaultAttachmentTimeout), time.Duration(defaultSilenceTimeout)
		attached, written := time.Time{}, clock.now
		frequency := -1
		fill := 0
		var history []string
		fail := func(format string, args ...any) {
			t.Helper()
			t.Fatalf("%v: %s", history, fmt.Sprintf(format, args...))
		}
		for i := 0; i < 20; i++ {
			want := ""
			switch r.Intn(9) {
			case 0, 1:
				frequency, attached, written = r.Intn(100000), clock.now, clock.now
				history = append(history, fmt.Sprintf("attach %d", frequency))
				l.Attach(dvPeakAt(r.Intn(10), frequency))
				want = fmt.Sprintf("activated me %d", frequency)
				fill = 0
				if s := l.textProcessor.window.String(); s != "" || len(l.textProcessor.collectedCallsigns) != 0 {
					fail("text %q, callsigns %v", s, l.textProcessor.collectedCallsigns)
				}
			case 2:
				if frequency < 0 {
					continue
				}
				history = append(history, "detach")
				l.Detach()
				want = fmt.Sprintf("deactivated me %d", frequency)
				frequency = -1
			case 3:
				d := []time.Duration{time.Second, 5 * time.Second, silence, attachment, silence + 1, attachment + 1}[r.Intn(6)]
				if r.Intn(2) == 0 {
					d = attached.Add(attachment).Sub(clock.now) + time.Duration(r.Intn(2))
				}
				if d < 0 || d > time.Hour {
					continue
				}
				history = append(history, fmt.Sprintf("wait %v", d))
				clock.now = clock.now.Add(d)
			case 4:
				silence = dvDuration(1 + r.Intn(20))
				history = append(history, fmt.Sprintf("silence timeout %v", silence))
				l.SetSilenceTimeout(silence)
			case 5:
				attachment = dvDuration(1 + r.Intn(20))
				history = append(history, fmt.Sprintf("attachment timeout %v", attachment))
				l.SetAttachmentTimeout(attachment)
			case 6, 7:
				if frequency < 0 {
					continue
				}
				history = append(history, "text")
				written = clock.now
				if fill < 6 && r.Intn(2) == 0 {
					fill++
					// separate call: reported in its own time
					l.textProcessor.Write([]byte(" "))
					l.textProcessor.Write([]byte("x"))
				} else {
					l.textProcessor.Write([]byte("y"))
				}
			case 8:
				if frequency < 0 {
					continue
				}
				history = append(history, "reports")
				l.CallsignDecoded("dl1abc", 3, 4)
				l.CallsignSpotted("dl1abc/p")
				l.SpotTimeout("w1aw")
				want = fmt.Sprintf("decoded me dl1abc %d 3 4, spotted me DL1ABC/P %d, timeout me W1AW %d", frequency, frequency, frequency)
			}
			if got := dvJoin(reporter.take()); got != want {
				fail("reported %q, expected %q", got, want)
			}
			if l.Attached() != (frequency >= 0) || l.ID() != "me" || (frequency >= 0 && l.Peak().SignalFrequency != frequency) {
				fail("attached %v, expected %d", l.Attached(), frequency)
			}
			exceeded := clock.now.Sub(attached) > attachment || clock.now.Sub(written) > silence
			if got := l.TimeoutExceeded(); got != exceeded {
				fail("%v after attaching, %v after the last text, timeouts %v and %v: exceeded %v", clock.now.Sub(attached), clock.now.Sub(written), attachment, silence, got)
			}
		}
		l.textProcessor.Stop()
	}
}

// after attaching again everything starts again
func TestDVC10_Again(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	texts := []string{"de dl1abc dl1abc dl1abc dl1abc k", "w1aw w1aw w1aw w1aw w1aw w", "t", "eee e e", "", "a", "d"}
	for round := 0; round < 150; round++ {
		clock := &dvClock{time.Unix(5000, 0)}
		reporter, freshReporter := &dvReporter{}, &dvReporter{}
		out, freshOut := &bytes.Buffer{}, &bytes.Buffer{}
		l := NewListener[float32, int]("me", out, clock, reporter, 48000, 512)
		first, second := texts[r.Intn(1+r.Intn(len(texts)))], texts[r.Intn(1+r.Intn(len(texts)))]
		l.Attach(dvPeakAt(1, 1000))
		dvListen(l, out, first)
		if r.Intn(2) == 0 {
			l.textProcessor.sync()
		}
		if r.Intn(2) == 0 {
			l.Detach()
		}
		for i := r.Intn(3); i > 0 && l.Attached(); i-- {
			l.textProcessor.Write([]byte(" ")) // may still be in the queue
		}
		l.Attach(dvPeakAt(2, 2000))
		if log := reporter.take(); len(log) == 0 || log[len(log)-1] != "activated me 2000" {
			t.Fatalf("after attaching: reports %q", log)
		}
		fresh := NewListener[float32, int]("me", freshOut, clock, freshReporter, 48000, 512)
		fresh.Attach(dvPeakAt(2, 2000))
		freshReporter.take()
		got, want := dvListen(l, out, second), dvListen(fresh, freshOut, second)
		l.textProcessor.sync()
		fresh.textProcessor.sync()
		l.Detach()
		fresh.Detach()
		if a, b := dvJoin(reporter.take()), dvJoin(freshReporter.take()); got != want || a != b {
			t.Fatalf("after %q: text %q, reports %q, a fresh listener: %q, %q", first, got, a, want, b)
		}
	}
}
