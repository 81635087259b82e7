package telnet

import (
	"testing"
	"time"
)

func TestDVC20_Line(t *testing.T) {
	r := dvRand()
	text := func(n int) string {
		result := []rune{}
		for i := r.Intn(n); i > 0; i-- {
			result = append(result, []rune("abcXYZ019/-# %äß")[r.Intn(16)])
		}
		return string(result)
	}
	for i := 0; i < 20000; i++ {
		s := &Server{mycall: text(14)}
		call, msg, f := text(18), text(40), float64(r.Int63n(100000000000))/1000
		if r.Intn(5) == 0 {
			f = float64(r.Intn(10000)) * 100
		}
		ts := time.Date(2020+r.Intn(10), time.Month(1+r.Intn(12)), r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		expected := dvLine(s.mycall, call, f, msg, ts.Format("1504"))
		if actual := s.formatSpotMessage(call, f, msg, ts); actual != expected {
			t.Fatalf("callsign %q, frequency %v, message %q: %q instead of %q", call, f, msg, actual, expected)
		}
	}
}
