package rx

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
)

type dvNamedReporter struct {
	name string
	log  *[]string
}

func (r *dvNamedReporter) note(f string, a ...any) {
	*r.log = append(*r.log, r.name+" "+fmt.Sprintf(f, a...))
}
func (r *dvNamedReporter) ListenerActivated(l string, f int)   { r.note("activated %s %d", l, f) }
func (r *dvNamedReporter) ListenerDeactivated(l string, f int) { r.note("deactivated %s %d", l, f) }
func (r *dvNamedReporter) CallsignDecoded(l string, c string, f int, n int, w int) {
	r.note("decoded %s %s %d %d %d", l, c, f, n, w)
}
func (r *dvNamedReporter) CallsignSpotted(l string, c string, f int) { r.note("spotted %s %s %d", l, c, f) }
func (r *dvNamedReporter) SpotTimeout(l string, c string, f int)     { r.note("timeout %s %s %d", l, c, f) }

func TestDVC30_Reporters(t *testing.T) {
	for n := 0; n < 5; n++ {
		var log []string
		r := NewReceiver[float32, int]("", StrainMode, WallClock)
		for i := 0; i < n; i++ {
			r.AddReporter(&dvNamedReporter{fmt.Sprint(i), &log})
		}
		r.ListenerActivated("l", 7012345)
		r.ListenerDeactivated("l", 7012346)
		r.CallsignDecoded("l", "DL1ABC", 7012347, 3, 4)
		r.CallsignSpotted("l", "DL2ABC", 7012348)
		r.SpotTimeout("l", "DL3ABC", 7012349)
		var expected []string
		for _, e := range []string{"activated l 7012345", "deactivated l 7012346", "decoded l DL1ABC 7012347 3 4", "spotted l DL2ABC 7012348", "timeout l DL3ABC 7012349"} {
			for i := 0; i < n; i++ {
				expected = append(expected, fmt.Sprint(i)+" "+e)
			}
		}
		if len(log)+len(expected) > 0 && !reflect.DeepEqual(log, expected) {
			t.Fatalf("%d reporters: expected %q, got %q", n, expected, log)
		}
	}
}

func TestDVC30_Text(t *testing.T) {
	var b bytes.Buffer
	r := NewTextReporter[int](&b)
	r.ListenerActivated("l1", 7012340)
	r.CallsignDecoded("l1", "DL1ABC", 7012350, 3, 4)
	r.CallsignSpotted("l1", "DL2ABC", 7012360)
	r.SpotTimeout("l1", "DL3ABC", 7012370)
	r.ListenerDeactivated("l1", 7012380)
	expected := `listener l1 activated on 7012.34kHz
callsign DL1ABC heard 3 times on 7012.35kHz, weight is 4
callsign DL2ABC spotted on 7012.36kHz
spot of DL3ABC on 7012.37kHz timed out
listener l1 deactivated on 7012.38kHz
`
	if b.String() != expected {
		t.Fatalf("expected %q, got %q", expected, b.String())
	}
}
