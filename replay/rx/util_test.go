package rx

import (
	"math/rand"
	"os"
	"strconv"
	"time"
)

func dvRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n + 1))
}

type dvClock struct{ now time.Time }

func (c *dvClock) Now() time.Time { return c.now }
