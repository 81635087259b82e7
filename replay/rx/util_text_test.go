package rx

import (
	"regexp"
)

// dvWindow is a text window written from the statement of the property C14.
type dvWindow struct {
	size, search int
	text         string
}

func (w *dvWindow) write(s string) (int, bool) {
	n := min(len(s), w.size-len(w.text))
	w.text += s[:n]
	return n, n > 0 || len(s) == 0
}

func (w *dvWindow) shift() {
	cut := max(0, len(w.text)-w.size/2)
	w.text = w.text[cut:]
	w.search = max(0, w.search-cut)
}

func (w *dvWindow) find(exp *regexp.Regexp, tail bool) (string, bool) {
	rest := w.text[w.search:]
	if rest == "" {
		return "", false
	}
	m := exp.FindStringIndex(rest)
	if m == nil || (!tail && m[1] == len(rest)) {
		return "", false
	}
	w.search += m[1]
	return rest[m[0]:m[1]], true
}
