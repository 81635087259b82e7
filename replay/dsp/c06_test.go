package dsp

import (
	"math"
	"testing"
)

func dvMean(vs []float32) float64 {
	sum := 0.0
	for _, v := range vs {
		sum += float64(v)
	}
	return sum / float64(len(vs))
}

func dvVar(vs []float32) float64 {
	sum, m := 0.0, dvMean(vs)
	for _, v := range vs {
		sum += (float64(v) - m) * (float64(v) - m)
	}
	return sum / float64(len(vs))
}

func TestDVC06_Rolling(t *testing.T) {
	r := dvRand()
	for round := 0; round < 1500; round++ {
		n := 1 + r.Intn(9)
		mean, variance, history := NewRollingMean[float32](n), NewRollingVariance[float32](n), NewRollingHistory[float32](n)
		window := make([]float32, n)
		var all []float32
		scale := []float32{1, 1, 1000000}[r.Intn(3)]
		for i := 0; i < 40; i++ {
			if r.Intn(25) == 0 {
				mean.Reset()
				variance.Reset()
				history.Reset()
				window, all = make([]float32, n), nil
				if mean.Get() != 0 || variance.Get() != 0 {
					t.Fatalf("after a reset: mean %v, variance %v", mean.Get(), variance.Get())
				}
			}
			v := float32(r.Intn(200) - 100)
			if r.Intn(6) == 0 {
				v *= scale
			}
			all = append(all, v)
			window = append(append([]float32{}, window[1:]...), v)
			history.Put(v)
			m, s := dvMean(window), dvVar(window)
			huge := false // then rounding decides
			for _, x := range window {
				huge = huge || math.Abs(float64(x)) > 1000
			}
			if huge {
				mean.Put(v)
				variance.Put(v)
				continue
			}
			if got := mean.Put(v); math.Abs(float64(got)-m) > 1e-3*(1+math.Abs(m)) || got != mean.Get() {
				t.Fatalf("values %v: rolling mean of the last %d: %v and %v, expected %v", all, n, got, mean.Get(), m)
			}
			if got := variance.Put(v); math.Abs(float64(got)-s) > 1e-3*(1+s) || got != variance.Get() {
				t.Fatalf("values %v: rolling variance of the last %d: %v and %v, expected %v", all, n, got, variance.Get(), s)
			}
			for k := 1; k <= n; k++ {
				last := window[n-k:]
				sum, big, small := 0.0, last[0], last[0]
				for _, x := range last {
					sum += float64(x)
					big, small = max(big, x), min(small, x)
				}
				if history.Get(k) != last[0] || history.Max(k) != big || history.Min(k) != small || !dvClose(float64(history.Sum(k)), sum) || math.Abs(float64(history.Mean(k))-dvMean(last)) > 1e-3*(1+math.Abs(sum)) || math.Abs(history.Variance(k)-dvVar(last)) > 1e-3*(1+dvVar(last)) || math.Abs(history.SDev(k)-math.Sqrt(dvVar(last))) > 1e-3*(1+math.Sqrt(dvVar(last))) {
					t.Fatalf("values %v, last %d: get %v, max %v, min %v, sum %v, mean %v, variance %v, deviation %v", all, k, history.Get(k), history.Max(k), history.Min(k), history.Sum(k), history.Mean(k), history.Variance(k), history.SDev(k))
				}
			}
			at := make([]int, 1+r.Intn(4))
			sum := 0.0
			big, small := float32(math.Inf(-1)), float32(math.Inf(1))
			for j := range at {
				at[j] = 1 + r.Intn(n)
				x := window[n-at[j]]
				sum += float64(x)
				big, small = max(big, x), min(small, x)
			}
			if !dvClose(float64(history.SumAt(at...)), sum) || history.MaxAt(at...) != big || history.MinAt(at...) != small {
				t.Fatalf("values %v at %v: sum %v, max %v, min %v", all, at, history.SumAt(at...), history.MaxAt(at...), history.MinAt(at...))
			}
		}
		block := Block[float32](dvInts(r, 1+r.Intn(20), 30))
		from := r.Intn(len(block))
		to := from + r.Intn(len(block)-from)
		sum, big, at := 0.0, block[from], from
		for i := from; i <= to; i++ {
			sum += float64(block[i])
			if block[i] > big {
				big, at = block[i], i
			}
		}
		gotMax, gotAt := block.Max(from, to)
		if float64(block.Sum(from, to)) != sum || !dvClose(float64(block.Mean(from, to)), sum/float64(to-from+1)) || gotMax != big || gotAt != at {
			t.Fatalf("block %v, %d to %d: sum %v, mean %v, max %v at %d", block, from, to, block.Sum(from, to), block.Mean(from, to), gotMax, gotAt)
		}
	}
}
