package cw

import "testing"

func TestDVC12_Keying(t *testing.T) { dvRandomKeying(t, 3000, false) }
