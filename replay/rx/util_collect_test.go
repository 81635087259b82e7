package rx

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/ftl/hamradio/callsign"
	"github.com/ftl/hamradio/dxcc"
	"github.com/ftl/hamradio/scp"
)

type dvDXCC struct{ unknown string }

func (d dvDXCC) Find(s string) ([]dxcc.Prefix, bool) {
	return nil, !strings.HasPrefix(strings.ToLower(s), d.unknown)
}

type dvSCP struct {
	known string
	fail  bool
}

func (d dvSCP) FindStrings(s string) ([]string, error) {
	if d.fail {
		return []string{s}, fmt.Errorf("no database")
	}
	if strings.HasPrefix(strings.ToLower(s), d.known) {
		return []string{s, s + "X"}, nil
	}
	return []string{"X" + s, s}, nil
}

func (d dvSCP) Find(s string) ([]scp.Match, error) { return nil, nil }

type dvReports struct{ log []string }

func (d *dvReports) CallsignDecoded(call string, count, weight int) {
	d.log = append(d.log, fmt.Sprintf("decoded %s %d %d", call, count, weight))
}
func (d *dvReports) CallsignSpotted(call string) { d.log = append(d.log, "spotted "+call) }
func (d *dvReports) SpotTimeout(call string)     { d.log = append(d.log, "timeout "+call) }

type dvCount struct{ count, weight int }

// dvTextRef is written from the statement of the property C15.
type dvTextRef struct {
	dxcc    dxccFinder
	scp     scpFinder
	window  dvWindow
	counts  map[string]dvCount
	last    string
	reports []string
	ties    bool
}

func (d *dvTextRef) collect(s string) {
	s = strings.ToLower(strings.TrimSpace(s))
	if strings.HasPrefix(s, "tu5nn") {
		return
	}
	call, err := callsign.Parse(s)
	if err != nil {
		return
	}
	key := call.String()
	if d.dxcc != nil {
		if _, ok := d.dxcc.Find(key); !ok {
			return
		}
	}
	c, known := d.counts[key]
	if !known && d.scp != nil {
		if m, err := d.scp.FindStrings(key); err == nil && len(m) > 0 && m[0] == key {
			c.weight = 1
		}
	}
	c.count++
	d.counts[key] = c
	d.reports = append(d.reports, fmt.Sprintf("decoded %s %d %d", key, c.count, c.weight))
	best, n := "", 2
	for k, c := range d.counts {
		if c.count+c.weight > n {
			best, n = k, c.count+c.weight
		}
	}
	if best == "" {
		return
	}
	for k, c := range d.counts {
		if k != best && c.count+c.weight == n {
			d.ties = true // which one of them is the best is left open
		}
	}
	if d.last != "" && d.last != best {
		d.reports = append(d.reports, "timeout "+d.last)
	}
	d.reports = append(d.reports, "spotted "+best)
	d.last = best
}

func dvDatabases(r *rand.Rand) (dxccFinder, scpFinder) {
	var d dxccFinder
	var s scpFinder
	if r.Intn(3) > 0 {
		d = dvDXCC{[]string{"dl", "w1", "none"}[r.Intn(3)]}
	}
	if r.Intn(3) > 0 {
		s = dvSCP{[]string{"dl1", "k", "none"}[r.Intn(3)], r.Intn(4) == 0}
	}
	return d, s
}


func dvTexts(t *testing.T, rounds int) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	words := []string{"dl1abc", "dl1abd", "w1aw", "k5zd", "tu5nn", "tu5nnx", "dl1abc/p", "cq", "de", "5nn", "test", "a1", "oe/dl1abc", "DL1ABC", "w9w9w", "1a1a"}
	for round := 0; round < rounds; round++ {
		clock := &dvClock{time.Unix(5000, 0)}
		out, reports := &bytes.Buffer{}, &dvReports{}
		p := NewTextProcessor(out, clock, reports)
		p.dxccFinder, p.scpFinder = dvDatabases(r)
		ref := &dvTextRef{dxcc: p.dxccFinder, scp: p.scpFinder, window: dvWindow{size: 20}, counts: map[string]dvCount{}}
		p.Start()
		text := ""
		for i := 0; i < 12 && !ref.ties; i++ {
			s := " " + words[r.Intn(1+r.Intn(len(words)))]
			if r.Intn(3) == 0 {
				s += " "
			}
			step := 1
			if r.Intn(3) == 0 {
				step = 1 + r.Intn(30)
			}
			if r.Intn(6) == 0 {
				s = strings.Repeat(s, 1+r.Intn(6))
			}
			clock.now = clock.now.Add(time.Second)
			for len(s) > 0 {
				part := s[:min(step, len(s))]
				s = s[len(part):]
				buf := []byte(part)
				n, err := p.Write(buf)
				for j := range buf {
					buf[j] = 'x' // the buffer belongs to the caller
				}
				text += part
				if n != len(part) || err != nil || out.String() != text || !p.LastWrite().Equal(clock.now) {
					t.Fatalf("text %q: wrote %d of %d, %v, put out %q, last write %v at %v", text, n, len(part), err, out.String(), p.LastWrite(), clock.now)
				}
				for len(part) > 0 {
					n, _ := ref.window.write(part)
					if c, found := ref.window.find(callsignExp, false); found {
						ref.collect(c)
					}
					part = part[n:]
					if len(ref.window.text) == ref.window.size {
						ref.window.shift()
					}
				}
			}
			if r.Intn(4) == 0 {
				d := []time.Duration{5 * time.Second, 5*time.Second + 1, time.Minute}[r.Intn(3)]
				now := clock.now
				clock.now = now.Add(d)
				p.CheckWriteTimeout()
				if d > 5*time.Second {
					if c, found := ref.window.find(callsignExp, true); found {
						ref.collect(c)
					}
				}
			}
			p.sync()
			if !ref.ties && strings.Join(reports.log, ", ") != strings.Join(ref.reports, ", ") {
				t.Fatalf("text %q, prefixes %v, callsigns %v: reported %v, expected %v", text, p.dxccFinder, p.scpFinder, reports.log, ref.reports)
			}
		}
		p.Stop()
	}
}


func dvCollect(t *testing.T, rounds int) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	calls := []string{"dl1abc", "dl2abc", " w1aw", "k5zd ", "TU5NN", "tu5nn", "tu5nnabc", "xyz", "", "oe/dl1abc", "dl1abc/p", "w9w9w"}
	p0 := NewTextProcessor(nil, &dvClock{}, &dvReports{})
	for round := 0; round < rounds; round++ {
		reports := &dvReports{}
		p := *p0
		p.reporter, p.collectedCallsigns = reports, map[string]collectedCallsign{}
		p.dxccFinder, p.scpFinder = dvDatabases(r)
		ref := &dvTextRef{dxcc: p.dxccFinder, scp: p.scpFinder, counts: map[string]dvCount{}}
		var history []string
		for i := 0; i < 20 && !ref.ties; i++ {
			c := calls[r.Intn(1+r.Intn(len(calls)))]
			history = append(history, c)
			p.collectCallsign(c)
			ref.collect(c)
			if !ref.ties && strings.Join(reports.log, ", ") != strings.Join(ref.reports, ", ") {
				t.Fatalf("callsigns %q, prefixes %v, known callsigns %v: reported %v, expected %v", history, p.dxccFinder, p.scpFinder, reports.log, ref.reports)
			}
		}
	}
}
