package cw

import (
	"testing"

	"github.com/ftl/digimodes/cw"
)

// The assumptions about the imported Morse code table: at most eight symbols per rune, none of them empty,
// no two runes with the same symbols.
func TestDVAssumeC11_Table(t *testing.T) {
	seen := map[[8]cw.Symbol]rune{}
	if len(cw.Code) == 0 {
		t.Fatal("the table is empty")
	}
	if cw.Dit == (cw.Symbol{}) || cw.Da == (cw.Symbol{}) || cw.Dit == cw.Da {
		t.Fatal("dit and da must be different from each other and from the empty symbol")
	}
	for r, ss := range cw.Code {
		if len(ss) < 1 || len(ss) > 8 {
			t.Errorf("%q has %d symbols", r, len(ss))
		}
		var c [8]cw.Symbol
		for i, s := range ss {
			if s == (cw.Symbol{}) {
				t.Errorf("%q contains an empty symbol", r)
			}
			if i < 8 {
				c[i] = s
			}
		}
		if o, ok := seen[c]; ok {
			t.Errorf("%q and %q have the same symbols", r, o)
		}
		seen[c] = r
		if r < 0 || r > 0x10ffff {
			t.Errorf("%d is not a rune", r)
		}
	}
}
