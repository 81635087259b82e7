package cli

import (
	"fmt"
	"strings"
	"testing"
)

func TestDVC25_Parse(t *testing.T) {
	hosts := []string{"", "127.0.0.1", "10.1.2.3", "[::1]", "[fe80::1]", "localhost", "[10.0.0.1]", "256.1.1.1.1.invalid", "[", "]", "[]", "fe80::ab"}
	ports := []string{"", ":", ":0", ":7", ":4532", ":65535", ":65536", ":a", ":1a", "::7", ":-1", ":+7", ": 7", ":٣", ":http"}
	for _, h := range hosts {
		for _, p := range ports {
			arg := h + p
			host, port := arg, ""
			if i := strings.LastIndex(arg, ":"); i >= 0 && strings.Trim(arg[i+1:], "0123456789") == "" {
				host, port = arg[:i], arg[i+1:]
			}
			if len(host) > 1 && host[0] == '[' && host[len(host)-1] == ']' {
				host = host[1 : len(host)-1]
			}
			if h, p := splitHostPort(arg); h != host || p != port {
				t.Errorf("%q: expected host %q and port %q, got %q and %q", arg, host, port, h, p)
			}
			if strings.Contains(host, "invalid") || (host != "" && strings.Trim(host, "0123456789.") != "" && strings.Trim(host, "0123456789abcdef:") != "") {
				continue // no name resolution
			}
			for _, d := range []string{"10.9.8.7", "::2"} {
				h, p := host, port
				if h == "" {
					h = d
				}
				if p == "" {
					p = "1234"
				}
				var n int
				_, err := fmt.Sscanf(p, "%d", &n)
				a, err2 := ParseTCPAddrArg(arg, d, 1234)
				if err != nil || n > 65535 {
					continue
				}
				if err2 != nil {
					continue
				}
				if a.Port != n || (a.IP.String() != h) {
					t.Errorf("%q with default %q: expected %s port %d, got %v", arg, d, h, n, a)
				}
			}
		}
	}
	for _, c := range [][2]string{{"10.1.2.3:77", "10.1.2.3:77"}, {"10.1.2.3", "10.1.2.3:1234"}, {":77", "[::2]:77"}, {"", "[::2]:1234"}, {"[::1]:5", "[::1]:5"}, {"[::1]", "[::1]:1234"}, {"10.1.2.3:", "10.1.2.3:1234"}, {"10.1.2.3:0", "10.1.2.3:0"}} {
		a, err := ParseTCPAddrArg(c[0], "::2", 1234)
		if err != nil || a.String() != c[1] {
			t.Errorf("%q: expected %s, got %v, %v", c[0], c[1], a, err)
		}
	}
}
