package dsp

import "testing"

func TestDVC05_Debounce(t *testing.T) {
	r := dvRand()
	for round := 0; round < 5000; round++ {
		threshold := r.Intn(8) - 1
		d := NewBoolDebouncer(threshold)
		state, last, count := false, false, 0
		var raw []bool
		var thresholds []int
		p := 2 + r.Intn(6)
		for i := 0; i < 60; i++ {
			if r.Intn(15) == 0 {
				threshold = r.Intn(8) - 1
				d.SetThreshold(threshold)
			}
			in := last
			if r.Intn(p) == 0 {
				in = !in
			}
			raw, thresholds = append(raw, in), append(thresholds, threshold)
			want := in
			if threshold >= 2 {
				if in == last {
					count++
				} else {
					count = 1
				}
				last = in
				if count >= threshold {
					state = in
				}
				want = state
			} else {
				break // the count while the threshold is below two is left open
			}
			if got := d.Debounce(in); got != want {
				t.Fatalf("states %v with thresholds %v: %v, expected %v", raw, thresholds, got, want)
			}
		}
		if threshold < 2 {
			in := r.Intn(2) == 0
			if got := d.Debounce(in); got != in {
				t.Fatalf("states %v with thresholds %v, then %v: %v", raw, thresholds, in, got)
			}
		}
		if d.Threshold() != threshold {
			t.Fatalf("threshold %d, expected %d", d.Threshold(), threshold)
		}
	}
}
