package dsp

import (
	"math"
	"math/rand"
	"os"
	"strconv"
)

func dvRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

func dvClose(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-4*(1+math.Abs(a)+math.Abs(b))
}

// dvInts returns n small whole numbers, every sum of them is exact
func dvInts(r *rand.Rand, n, limit int) []float32 {
	result := make([]float32, n)
	for i := range result {
		result[i] = float32(r.Intn(2*limit+1) - limit)
	}
	return result
}
