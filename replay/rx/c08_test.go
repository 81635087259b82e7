package rx

import "testing"

func TestDVC08_Peaks(t *testing.T) { dvPeaks(t, dvRand(), 20000) }
