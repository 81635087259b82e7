package rx

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
)

// dvTable is a table of peaks written from the statements of the properties C07 and C08.
type dvTable struct {
	size  int
	peaks []*dvPeak
}

type dvPeak struct {
	p     *dsp.Peak[float32, int]
	state string
	since time.Time
}

func (q *dvPeak) covers(i int) bool { return q.p.From <= i && i <= q.p.To }

func (d *dvTable) at(i int) *dvPeak {
	if i < 0 || i >= d.size {
		return nil
	}
	for _, q := range d.peaks {
		if q.covers(i) {
			return q
		}
	}
	return nil
}

func (d *dvTable) known(p *dsp.Peak[float32, int]) *dvPeak {
	for _, q := range d.peaks {
		if q.p.From == p.From && q.p.To == p.To {
			return q
		}
	}
	return nil
}

func (d *dvTable) put(p *dsp.Peak[float32, int], force bool, now time.Time) {
	var kept []*dvPeak
	for _, q := range d.peaks {
		overlap := false
		for i := 0; i < d.size; i++ {
			if q.covers(i) && p.From <= i && i <= p.To {
				overlap = true
			}
		}
		if overlap && !force && q.state != "new" {
			return
		}
		if !overlap {
			kept = append(kept, q)
		}
	}
	d.peaks = kept
	if p.From < d.size && p.To >= 0 {
		d.peaks = append(d.peaks, &dvPeak{p, "new", now})
	}
}

func dvPeaks(t *testing.T, r *rand.Rand, rounds int) {
	for round := 0; round < rounds; round++ {
		size := 1 + r.Intn(14)
		clock := &dvClock{time.Unix(1000, 0)}
		table := NewPeaksTable[float32, int](size, clock)
		ref := &dvTable{size: size}
		var history []string
		note := func(format string, args ...any) { history = append(history, fmt.Sprintf(format, args...)) }
		random := func() *dsp.Peak[float32, int] {
			from := r.Intn(size+4) - 2
			return &dsp.Peak[float32, int]{From: from, To: from + r.Intn(4), SignalBin: r.Intn(1000)}
		}
		some := func() *dsp.Peak[float32, int] {
			if len(ref.peaks) > 0 && r.Intn(5) > 0 {
				p := *ref.peaks[r.Intn(len(ref.peaks))].p
				if r.Intn(4) == 0 {
					p.To++
				}
				return &p
			}
			return random()
		}
		for i := 0; i < 30; i++ {
			switch r.Intn(9) {
			case 0, 1, 2:
				p := random()
				note("put %d-%d", p.From, p.To)
				table.Put(p)
				ref.put(p, false, clock.now)
			case 3:
				p := random()
				note("force %d-%d", p.From, p.To)
				table.ForcePut(p)
				ref.put(p, true, clock.now)
			case 4:
				p := some()
				note("activate %d-%d", p.From, p.To)
				table.Activate(p)
				if q := ref.known(p); q != nil {
					q.state = "active"
				}
			case 5:
				p := some()
				note("deactivate %d-%d", p.From, p.To)
				table.Deactivate(p)
				if q := ref.known(p); q != nil && q.state == "active" {
					q.state = "inactive"
				}
			case 6:
				d := time.Duration([]int{1, 59, 60, 120, 121}[r.Intn(5)]) * time.Second
				if r.Intn(4) == 0 {
					d -= time.Nanosecond
				}
				note("wait %v", d)
				clock.now = clock.now.Add(d)
			case 7:
				note("cleanup")
				table.Cleanup()
				var kept []*dvPeak
				for _, q := range ref.peaks {
					if q.state == "active" || clock.now.Sub(q.since) < 2*time.Minute {
						kept = append(kept, q)
					}
				}
				ref.peaks = kept
			case 8:
				if r.Intn(6) == 0 {
					note("reset")
					table.Reset()
					ref.peaks = nil
				}
			}
			for b := -2; b < size+3; b++ {
				var want *dsp.Peak[float32, int]
				state := ""
				if q := ref.at(b); q != nil {
					want, state = q.p, q.state
				}
				got := table.Get(b)
				if got != want {
					t.Fatalf("table of %d bins: %v: bin %d has the peak %+v, expected %+v", size, history, b, got, want)
				}
				if want == nil {
					continue
				}
				states := map[peakState]string{peakNew: "new", peakActive: "active", peakInactive: "inactive"}
				if s := states[table.bins[b].state]; s != state {
					t.Fatalf("table of %d bins: %v: the peak %d-%d is %s, expected %s", size, history, want.From, want.To, s, state)
				}
			}
			next := table.FindNext()
			found := false
			for _, q := range ref.peaks {
				if q.state == "new" && next == nil {
					t.Fatalf("table of %d bins: %v: the new peak %d-%d is not found", size, history, q.p.From, q.p.To)
				}
				found = found || (q.state == "new" && q.p == next)
			}
			if next != nil && !found {
				t.Fatalf("table of %d bins: %v: the next peak is %+v", size, history, next)
			}
		}
	}
}

