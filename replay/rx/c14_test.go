package rx

import (
	"fmt"
	"regexp"
	"testing"
)

func TestDVC14_Window(t *testing.T) {
	r := dvRand()
	exps := []*regexp.Regexp{callsignExp, regexp.MustCompile(`[a-c]+`), regexp.MustCompile(`\s[a-z]+`)}
	for round := 0; round < 10000; round++ {
		size := 2 + r.Intn(20)
		w, ref := newTextWindow(size), &dvWindow{size: size}
		var history []string
		note := func(format string, args ...any) { history = append(history, fmt.Sprintf(format, args...)) }
		for i := 0; i < 30; i++ {
			switch r.Intn(8) {
			case 0, 1, 2:
				s := ""
				for n := r.Intn(size/2 + 4); n > 0; n-- {
					s += string("abcxyz 12dl1abc "[r.Intn(16)])
				}
				n, err := w.Write([]byte(s))
				want, ok := ref.write(s)
				note("write %q", s)
				if n != want || (err == nil) != ok {
					t.Fatalf("window of %d: %v: wrote %d, %v, expected %d, %v", size, history, n, err, want, ok)
				}
			case 3:
				note("shift")
				w.Shift()
				ref.shift()
			case 4, 5, 6:
				exp, tail := exps[r.Intn(len(exps))], r.Intn(2) == 0
				note("find %q %v", exp, tail)
				got, found := w.FindNext(exp, tail)
				want, ok := ref.find(exp, tail)
				if got != want || found != ok {
					t.Fatalf("window of %d: %v: found %q, %v, expected %q, %v", size, history, got, found, want, ok)
				}
			case 7:
				if r.Intn(5) == 0 {
					note("reset")
					w.Reset()
					*ref = dvWindow{size: size}
				}
			}
			if w.String() != ref.text || w.IsFull() != (len(ref.text) == size) {
				t.Fatalf("window of %d: %v: text %q, full %v, expected %q", size, history, w.String(), w.IsFull(), ref.text)
			}
		}
	}
}
