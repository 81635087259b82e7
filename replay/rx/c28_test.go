package rx

import (
	"fmt"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
)

type dvScope struct {
	scope.Scope
	name string
}

func (s *dvScope) Active() bool { return false }

func TestDVC28_Settings(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	for round := 0; round < 40; round++ {
		rec := NewReceiver[float32, int]("id", StrainMode, &dvClock{})
		var history []string
		var present []*Listener[float32, int]
		debounce, silence, attachment := defaultSignalDebounce, time.Duration(defaultSilenceTimeout), time.Duration(defaultAttachmentTimeout)
		threshold, edge, center := float32(defaultPeakThreshold), defaultEdgeWidth, 0
		var sc scope.Scope = rec.scope
		started := false
		inside := func(f func()) {
			if started {
				done := make(chan struct{})
				rec.do(func() { f(); close(done) })
				<-done
			} else {
				f()
			}
		}
		for i := 0; i < 15; i++ {
			switch r.Intn(10) {
			case 0:
				debounce = r.Intn(5)
				history = append(history, fmt.Sprintf("debounce %d", debounce))
				rec.SetSignalDebounce(debounce)
			case 1:
				silence = dvDuration(r.Intn(3) * r.Intn(100))
				history = append(history, fmt.Sprintf("silence timeout %v", silence))
				rec.SetSilenceTimeout(silence)
			case 2:
				attachment = dvDuration(r.Intn(3) * r.Intn(100))
				history = append(history, fmt.Sprintf("attachment timeout %v", attachment))
				rec.SetAttachmentTimeout(attachment)
			case 3:
				sc = &dvScope{name: fmt.Sprint(i)}
				history = append(history, "scope")
				rec.SetScope(sc)
			case 4:
				threshold = float32(r.Intn(50))
				history = append(history, fmt.Sprintf("threshold %v", threshold))
				rec.SetPeakThreshold(threshold)
			case 5:
				edge = r.Intn(100)
				history = append(history, fmt.Sprintf("edge width %v", edge))
				rec.SetEdgeWidth(edge)
			case 6:
				center = r.Intn(10000000)
				history = append(history, fmt.Sprintf("center %v", center))
				rec.SetCenterFrequency(center)
			case 7, 8:
				if !started {
					continue // a listener needs the sample rate
				}
				history = append(history, "bind")
				inside(func() {
					l, ok := rec.listeners.BindNext()
					if ok {
						l.Attach(dvPeakAt(r.Intn(10), 1000))
						present = append(present, l)
					}
				})
			case 9:
				if !started {
					history = append(history, "start")
					rec.Start(12000, 512)
					started = true
				} else {
					history = append(history, "stop")
					rec.Stop()
					present = nil
					started = false
				}
			}
			if got := rec.CenterFrequency(); got != center {
				t.Fatalf("%v: center frequency %v", history, got)
			}
			inside(func() {
				if rec.peakThreshold != threshold || rec.edgeWidth != edge || rec.scope != sc {
					t.Fatalf("%v: threshold %v, edge width %v, scope %v", history, rec.peakThreshold, rec.edgeWidth, rec.scope)
				}
				if started && rec.frequencyMapping.BinToFrequency(0, dsp.BinCenter) > center {
					t.Fatalf("%v: the lowest bin is at %d, the center frequency at %d", history, rec.frequencyMapping.BinToFrequency(0, dsp.BinCenter), center)
				}
				if started {
					from := rec.frequencyMapping.BinToFrequency(0, dsp.BinCenter)
					if center-from < 5900 || center-from > 6100 {
						t.Fatalf("%v: the lowest bin is at %d, the center frequency at %d", history, from, center)
					}
				}
				ls := present
				if started {
					ls = append([]*Listener[float32, int]{rec.newListener("next")}, ls...)
				}
				for _, l := range ls {
					if l.silenceTimeout != silence || l.attachmentTimeout != attachment {
						t.Fatalf("%v: listener %s has timeouts %v, %v", history, l.id, l.silenceTimeout, l.attachmentTimeout)
					}
					if got := dvDebounce(l); got != debounce {
						t.Fatalf("%v: listener %s debounces %v values, expected %d", history, l.id, got, debounce)
					}
					if got := dvScopeOf(l); got != sc {
						t.Fatalf("%v: listener %s has scope %v, expected %v", history, l.id, got, sc)
					}
				}
			})
		}
		rec.Stop()
	}
}
