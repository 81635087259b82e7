package rx

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
)

// dvReporter records the reports of a receiver or of its listeners.
type dvReporter struct {
	mutex sync.Mutex
	log   []string
}

func (d *dvReporter) note(format string, args ...any) {
	d.mutex.Lock()
	defer d.mutex.Unlock()
	d.log = append(d.log, fmt.Sprintf(format, args...))
}
func (d *dvReporter) take() []string {
	d.mutex.Lock()
	defer d.mutex.Unlock()
	result := d.log
	d.log = nil
	return result
}
func (d *dvReporter) ListenerActivated(l string, f int)   { d.note("activated %s %d", l, f) }
func (d *dvReporter) ListenerDeactivated(l string, f int) { d.note("deactivated %s %d", l, f) }
func (d *dvReporter) CallsignDecoded(l, c string, f, count, weight int) {
	d.note("decoded %s %s %d %d %d", l, c, f, count, weight)
}
func (d *dvReporter) CallsignSpotted(l, c string, f int) { d.note("spotted %s %s %d", l, c, f) }
func (d *dvReporter) SpotTimeout(l, c string, f int)     { d.note("timeout %s %s %d", l, c, f) }

func dvPeakAt(bin, frequency int) *dsp.Peak[float32, int] {
	return &dsp.Peak[float32, int]{From: bin, To: bin, SignalBin: bin, SignalFrequency: frequency}
}

// dvKeying is the keying of a text in Morse code, one value per tick, ten ticks per dit.
func dvKeying(text string) []bool {
	codes := map[rune]string{'a': ".-", 'b': "-...", 'c': "-.-.", 'd': "-..", 'e': ".", 'f': "..-.", 'k': "-.-", 'l': ".-..", 't': "-", 'w': ".--", 'q': "--.-", '1': ".----"}
	var result []bool
	put := func(on bool, dits int) {
		for i := 0; i < dits*10; i++ {
			result = append(result, on)
		}
	}
	for _, c := range text {
		if c == ' ' {
			put(false, 4)
			continue
		}
		for _, s := range codes[c] {
			if s == '.' {
				put(true, 1)
			} else {
				put(true, 3)
			}
			put(false, 1)
		}
		put(false, 2)
	}
	return result
}

func dvListen(l *Listener[float32, int], out *bytes.Buffer, text string) string {
	out.Reset()
	for _, on := range dvKeying(text) {
		value := float32(10)
		if on {
			value = 30
		}
		l.Listen(value, 20)
	}
	return out.String()
}

func dvJoin(s []string) string { return strings.Join(s, ", ") }

func dvDuration(s int) time.Duration { return time.Duration(s) * time.Second }

// dvDebounce and dvScopeOf look into the demodulator of a listener.
func dvDebounce(l *Listener[float32, int]) int {
	d := reflect.ValueOf(l.demodulator).Elem().FieldByName("signalDebouncer").Elem()
	return int(d.FieldByName("threshold").Int())
}

func dvScopeOf(l *Listener[float32, int]) scope.Scope {
	f := reflect.ValueOf(l.demodulator).Elem().FieldByName("scope")
	return *(*scope.Scope)(unsafe.Pointer(f.UnsafeAddr()))
}
