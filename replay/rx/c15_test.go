package rx

import "testing"

func TestDVC15_Text(t *testing.T) { dvTexts(t, 400) }

func TestDVC15_Collect(t *testing.T) { dvCollect(t, 4000) }
