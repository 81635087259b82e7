package cw

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/ftl/digimodes/cw"
)

func dvKeyed(ss []cw.Symbol) string {
	out := &strings.Builder{}
	d := NewDecoder(out, 8000, 100)
	dit := int(d.onThreshold.Low())
	for _, s := range ss {
		n := dit
		if s == cw.Da {
			n = 3 * dit
		}
		for i := 0; i < n; i++ {
			d.Tick(true)
		}
		for i := 0; i < dit; i++ {
			d.Tick(false)
		}
	}
	for i := 0; i < 400; i++ {
		d.Tick(false)
	}
	return out.String()
}

func TestDVC11_EveryCode(t *testing.T) {
	table := map[string]rune{}
	for r, ss := range cw.Code {
		table[dvKey(ss)] = r
	}
	// every sequence of up to eight symbols
	for n := 1; n <= 8; n++ {
		for m := 0; m < 1<<n; m++ {
			var ss []cw.Symbol
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					ss = append(ss, cw.Da)
				} else {
					ss = append(ss, cw.Dit)
				}
			}
			r, ok := table[dvKey(ss)]
			if !ok {
				r = 0xA6
			}
			if got := dvKeyed(ss); got != string(r) {
				t.Fatalf("symbols %v: written %q, expected %q", ss, got, string(r))
			}
		}
	}
}

func TestDVC11_Direct(t *testing.T) {
	table := map[string]rune{}
	for r, ss := range cw.Code {
		table[dvKey(ss)] = r
	}
	r := rand.New(rand.NewSource(dvSeed()))
	for i := 0; i < 20000; i++ {
		out := &strings.Builder{}
		want := ""
		d := NewDecoder(out, 8000, 100)
		var cur []cw.Symbol
		invalid := false
		var trace []string
		complete := func() {
			if len(cur) > 0 {
				c, ok := table[dvKey(cur)]
				if !ok || invalid {
					c = 0xA6
				}
				want += string(c)
			}
			cur, invalid = nil, false
		}
		for j := 0; j < 30; j++ {
			switch k := r.Intn(12); {
			case k == 0:
				d.decodeCurrentChar()
				complete()
				trace = append(trace, "complete")
			case k == 1 && r.Intn(3) == 0:
				d.currentCharInvalid = true
				invalid = true
				trace = append(trace, "invalid tone")
			default:
				s := cw.Dit
				if k%2 == 1 {
					s = cw.Da
				}
				if len(cur) == 8 {
					complete()
				}
				cur = append(cur, s)
				d.appendSymbol(s)
				trace = append(trace, fmt.Sprint(s.Weight))
			}
		}
		d.stop()
		complete()
		if out.String() != want {
			t.Fatalf("symbols %v: written %q, expected %q", trace, out.String(), want)
		}
	}
}

func TestDVC11_Keying(t *testing.T) { dvRandomKeying(t, 1500, false) }
