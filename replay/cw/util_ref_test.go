package cw

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/ftl/digimodes/cw"
)

func dvSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n + 1
}

// dvThreshold and dvDecoder are written from the statements of the properties.
type dvThreshold struct{ low, high, last, thr float64 }

func newDVThreshold(p float64) dvThreshold {
	t := dvThreshold{low: p, high: 3 * p, last: p}
	t.thr = math.Sqrt(t.low * t.high)
	return t
}

// put returns false if the result depends on the rounding
func (t *dvThreshold) put(d float64) bool {
	sure := !dvNear(d, 10*t.low) && !dvNear(t.last, 2*d) && !dvNear(d, 2*t.last)
	if d >= 10*t.low {
		return sure
	}
	if t.last >= 2*d {
		t.low, t.high = t.low+(d-t.low)/4, t.high+(t.last-t.high)/4
	} else if d >= 2*t.last {
		t.low, t.high = t.low+(t.last-t.low)/4, t.high+(d-t.high)/4
	}
	t.last = d
	t.thr = math.Sqrt(t.low * t.high)
	return sure
}

// equal integers are compared without rounding
func dvNear(a, b float64) bool {
	return math.Abs(a-b) < 1e-6 && !(a == b && a == math.Trunc(a) && b == math.Trunc(b))
}

type dvDecoder struct {
	out        strings.Builder
	now        float64
	state      bool
	start      float64 // of the current tone or gap
	onStart    float64
	offStart   float64
	decoding   bool
	symbols    []cw.Symbol
	invalid    bool
	on, off    dvThreshold
	table      map[string]rune
	unsure     bool
	tick       float64
}

func dvKey(ss []cw.Symbol) string { return fmt.Sprint(ss) }

func newDVDecoder(sampleRate, blockSize int) *dvDecoder {
	d := &dvDecoder{table: map[string]rune{}, tick: float64(blockSize) / float64(sampleRate)}
	for r, ss := range cw.Code {
		d.table[dvKey(ss)] = r
	}
	d.preset(20)
	return d
}

func (d *dvDecoder) preset(wpm int) {
	p := math.Ceil(60.0 / (50.0 * float64(wpm)) / d.tick)
	d.on, d.off = newDVThreshold(p), newDVThreshold(p)
}

func (d *dvDecoder) reset() {
	*d = dvDecoder{table: d.table, tick: d.tick}
	d.preset(20)
}

func (d *dvDecoder) complete() {
	if len(d.symbols) > 0 {
		r, ok := d.table[dvKey(d.symbols)]
		if !ok || d.invalid {
			r = 0xA6
		}
		d.out.WriteString(string(r))
	}
	d.symbols, d.invalid = nil, false
}

func (d *dvDecoder) symbol(s cw.Symbol) {
	if len(d.symbols) == 8 {
		d.complete()
	}
	d.symbols = append(append([]cw.Symbol{}, d.symbols...), s)
}

func (d *dvDecoder) sure(a, b float64) {
	if dvNear(a, b) {
		d.unsure = true
	}
}

func (d *dvDecoder) step(state bool) {
	d.now++
	if state != d.state {
		if state {
			d.onStart = d.now
			if l := d.now - d.offStart; l >= 2 {
				if !d.off.put(l) {
					d.unsure = true
				}
				d.sure(l, 4.5*d.off.low)
				d.sure(l, d.off.thr)
				if l >= 4.5*d.off.low {
					d.complete()
					d.out.WriteString(" ")
				} else if l >= d.off.thr {
					d.complete()
				}
			}
		} else {
			d.offStart = d.now
			if l := d.now - d.onStart; l >= 2 {
				if !d.on.put(l) {
					d.unsure = true
				}
				d.sure(l, 2*d.on.high)
				d.sure(l, d.on.thr)
				if l >= 2*d.on.high {
					d.invalid = true
				} else if l >= d.on.thr {
					d.symbol(cw.Da)
				} else {
					d.symbol(cw.Dit)
				}
			}
		}
		d.decoding = true
	}
	d.state = state
	start := d.offStart
	if state {
		start = d.onStart
	}
	d.sure(d.now-start, 10*d.off.thr)
	if d.decoding && d.now-start > 10*d.off.thr {
		d.decoding = false
		d.complete()
	}
}

// dvKeying returns a random sequence of tone and gap durations (in ticks), beginning with a gap.
func dvKeying(r *rand.Rand) []int {
	n := 2 + r.Intn(60)
	dit := 2 + r.Intn(30)
	mode := r.Intn(6)
	var ds []int
	for i := 0; i < n; i++ {
		d := dit
		tone := i%2 == 1
		switch mode {
		case 0: // everything
			d = 1 + r.Intn(12*dit)
		case 1: // proper keying with jitter
			f := []int{1, 1, 1, 3, 3, 7}[r.Intn(6)]
			if tone {
				f = []int{1, 1, 3}[r.Intn(3)]
			}
			d = f*dit + r.Intn(dit/4+1) - dit/8
		case 2: // long characters
			if tone {
				d = []int{1, 3}[r.Intn(2)] * dit
			} else if r.Intn(12) == 0 {
				d = 3 * dit
			}
		case 3: // short ones
			d = 1 + r.Intn(4)
		case 4: // invalid tones and long gaps
			d = []int{1, 2, 3, 5, 7, 12, 20, 40}[r.Intn(8)] * dit
		case 5: // drifting speed
			if dit > 2 && r.Intn(3) == 0 {
				dit += r.Intn(3) - 1
			}
			d = []int{1, 1, 3}[r.Intn(3)] * dit
		}
		if d < 1 {
			d = 1
		}
		ds = append(ds, d)
	}
	return ds
}

// dvCompare runs the decoder and the reference side by side.
func dvCompare(t *testing.T, what string, d *Decoder, out *strings.Builder, ref *dvDecoder, ds []int, tail int) bool {
	tone := false
	k := 0
	for i, n := range append(append([]int{}, ds...), tail) {
		for j := 0; j < n; j++ {
			d.Tick(tone)
			ref.step(tone)
			k++
			if ref.unsure {
				return true
			}
			if out.String() != ref.out.String() {
				t.Errorf("%s: gap and tone durations %v (ticks), after tick %d (in duration %d): written %q, expected %q", what, ds, k, i, out.String(), ref.out.String())
				return false
			}
			if l, h, g := float64(d.onThreshold.Low()), float64(d.onThreshold.High()), float64(d.onThreshold.Get()); math.Abs(l-ref.on.low)+math.Abs(h-ref.on.high)+math.Abs(g-ref.on.thr) > 1e-6 {
				t.Errorf("%s: gap and tone durations %v (ticks), after tick %d: threshold of the tones %v %v %v, expected %+v", what, ds, k, l, h, g, ref.on)
				return false
			}
			if l, h, g := float64(d.offThreshold.Low()), float64(d.offThreshold.High()), float64(d.offThreshold.Get()); math.Abs(l-ref.off.low)+math.Abs(h-ref.off.high)+math.Abs(g-ref.off.thr) > 1e-6 {
				t.Errorf("%s: gap and tone durations %v (ticks), after tick %d: threshold of the gaps %v %v %v, expected %+v", what, ds, k, l, h, g, ref.off)
				return false
			}
		}
		tone = !tone
	}
	return true
}

func dvRandomKeying(t *testing.T, rounds int, reset bool) {
	r := rand.New(rand.NewSource(dvSeed()))
	for i := 0; i < rounds; i++ {
		rate, block := []int{8000, 44100, 48000, 12000}[r.Intn(4)], []int{32, 64, 100, 512, 1024}[r.Intn(5)]
		out := &strings.Builder{}
		d := NewDecoder(out, rate, block)
		ref := newDVDecoder(rate, block)
		what := fmt.Sprintf("sample rate %d block size %d", rate, block)
		if reset {
			before := dvKeying(r)
			tone := r.Intn(2) == 0
			if r.Intn(3) == 0 {
				d.presetWPM(5 + r.Intn(40))
			}
			for _, n := range before {
				for j := 0; j < n; j++ {
					d.Tick(tone)
				}
				tone = !tone
			}
			d.Reset()
			out.Reset()
			what += fmt.Sprintf(", reset after %v", before)
		}
		if !dvCompare(t, what, d, out, ref, dvKeying(r), r.Intn(600)) {
			return
		}
	}
}
