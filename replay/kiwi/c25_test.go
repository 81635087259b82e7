package kiwi

import "testing"

func TestDVC25_Kiwi(t *testing.T) {
	for arg, port := range map[string]int{"127.0.0.1": 8073, "127.0.0.1:0": 8073, ":0": 8073, "": 8073, "127.0.0.1:1": 1, "[::1]:00": 8073, "127.0.0.1:": 8073, "[::1]": 8073} {
		c, err := newClient(arg, true, nil)
		if err != nil {
			t.Errorf("%q: %v", arg, err)
			continue
		}
		if c.host.Port != port {
			t.Errorf("%q: expected port %d, got %d", arg, port, c.host.Port)
		}
	}
}
