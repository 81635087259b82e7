package telnet

import "testing"

func TestDVC22_Dialog(t *testing.T) {
	r := dvRand()
	for i := 0; i < 300; i++ {
		input := []byte{}
		for k := r.Intn(30); k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				input = append(input, '\n')
			case 1:
				input = append(input, '\r')
			case 2:
				input = append(input, byte(r.Intn(256)))
			default:
				input = append(input, "abc0 /"[r.Intn(6)])
			}
		}
		expected, line, asking := "hello\nEnter your callsign: ", "", true
		name := ""
		for _, b := range input {
			if b != '\n' && b != '\r' {
				line += string([]byte{b})
				continue
			}
			if asking {
				expected += "welcome " + line + "\n"
				name = line
			} else {
				expected += "\n"
			}
			asking, line = false, ""
		}
		conn := dvNewConn(nil)
		c := NewConnection(conn, "hello\n")
		for rest := input; len(rest) > 0; {
			n := 1 + r.Intn(len(rest))
			conn.packets <- append([]byte{}, rest[:n]...)
			rest = rest[n:]
		}
		actual := conn.wait(expected)
		if actual == expected {
			// nothing more may follow
			c.Write([]byte("end"))
			expected += "end"
			actual = conn.wait(expected)
		}
		if actual != expected {
			t.Fatalf("input %q: %q instead of %q", input, actual, expected)
		}
		c.Close()
		if c.String() != name {
			t.Fatalf("input %q: the name is %q instead of %q", input, c.String(), name)
		}
	}
}
