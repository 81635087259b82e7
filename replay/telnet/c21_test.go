package telnet

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"
)

// text in parts of any size is written completely
func TestDVC21_Parts(t *testing.T) {
	r := dvRand()
	for i := 0; i < 200; i++ {
		conn := dvNewConn(func(n int) int { return 1 + r.Intn(n) })
		c := NewConnection(conn, "welcome\n")
		expected := "welcome\nEnter your callsign: "
		conn.wait(expected)
		for k := 0; k < 5; k++ {
			text := strings.Repeat(fmt.Sprint(k), r.Intn(50))
			if n, err := c.Write([]byte(text)); n != len(text) || err != nil {
				t.Fatalf("writing %q: %d, %v", text, n, err)
			}
			expected += text
		}
		if actual := conn.wait(expected); actual != expected {
			t.Fatalf("written %q instead of %q", actual, expected)
		}
		c.Close()
		if _, err := c.Write([]byte("x")); err == nil {
			t.Fatal("writing to a closed connection is not reported")
		}
	}
}

// every open client gets every announcement, closed ones are removed
func TestDVC21_Clients(t *testing.T) {
	r := dvRand()
	for round := 0; round < 12; round++ {
		type client struct {
			conn net.Conn
			in   *bufio.Reader
			c    *Connection
		}
		s := dvServer(t)
		clients := []*client{}
		join := func() {
			conn, err := net.Dial("tcp", s.listener.Addr().String())
			if err != nil {
				t.Skip(err)
			}
			conn.SetReadDeadline(time.Now().Add(20 * time.Second))
			in := bufio.NewReader(conn)
			in.ReadString('\n')
			in.ReadString(':')
			in.ReadByte()
			clients = append(clients, &client{conn: conn, in: in})
		}
		for i := 0; i < 4+r.Intn(5); i++ {
			join()
		}
		time.Sleep(5 * time.Millisecond)
		ts := time.Date(2024, 1, 1, 23, 0, 0, 0, time.UTC)
		for k := 0; k < 3; k++ {
			// close some connections of the server
			for i := 0; i < 2000 && len(s.connections) != len(clients); i++ {
				time.Sleep(time.Millisecond)
			}
			if len(s.connections) != len(clients) {
				t.Fatalf("%d clients are connected instead of %d", len(s.connections), len(clients))
			}
			open := []*client{}
			conns := append([]*Connection{}, s.connections...)
			for i, c := range clients {
				if conns[i].conn.(net.Conn).RemoteAddr().String() != c.conn.LocalAddr().String() {
					t.Fatalf("client %d of %d is another one", i, len(clients))
				}
				if r.Intn(2) == 0 {
					conns[i].Close()
					c.conn.Close()
				} else {
					open = append(open, c)
				}
			}
			for n := 0; n < 2; n++ {
				f := float64(1000000*(10*k+n) + 1000000)
				s.Spot("dl1abc", f, "", ts)
				expected := dvLine("my", "dl1abc", f, "", "2300")
				for i, c := range open {
					if line, err := c.in.ReadString('\n'); line != expected {
						t.Fatalf("open client %d of %d gets %q instead of %q, %v", i, len(open), line, expected, err)
					}
				}
			}
			clients = open
			if k == 1 {
				join()
			}
		}
		s.Stop()
		for _, c := range clients {
			c.conn.Close()
		}
	}
}
