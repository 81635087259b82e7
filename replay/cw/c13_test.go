package cw

import "testing"

func TestDVC13_Keying(t *testing.T) { dvRandomKeying(t, 2000, false) }

func TestDVC13_Reset(t *testing.T) { dvRandomKeying(t, 2000, true) }
