package kiwi

import (
	"math/rand"
	"os"
	"strconv"
)

func dvRand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed) + 17))
}
