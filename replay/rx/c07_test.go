package rx

import "testing"

func TestDVC07_Peaks(t *testing.T) { dvPeaks(t, dvRand(), 20000) }
