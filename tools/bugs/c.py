bug("c19-key-without-dash", "C19", [("telnet/telnet.go", 'fmt.Sprintf("%s-%.0f", callsign, frequency/1000.0)', 'fmt.Sprintf("%s%.0f", callsign, frequency/1000.0)')],
"two callsigns and frequencies whose texts, put together, are the same", "a spot is suppressed because of a spot of another callsign on another frequency",
"""package telnet

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := &Server{mycall: "my", lastSpots: map[spotHash]time.Time{}, silencePeriod: time.Minute, msg: make(chan []byte, 10)}
	now := time.Now()
	s.Spot("dl1abc1", 4010000, "", now)
	s.Spot("dl1abc", 14010000, "", now)
	if len(s.msg) != 2 {
		t.Fatalf("%d of 2 spots announced", len(s.msg))
	}
}
""", "telnet")
bug("c19-silence-extended", "C19", [("telnet/telnet.go", """		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
		s.registerSpot(hash, timestamp)
	}
""", """		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
	}
	s.registerSpot(hash, timestamp)
""")],
"three spots of the same station, each within the silence period of the one before, the last one outside of that of the first", "a suppressed spot extends the silence, a station that is spotted again and again is never announced again",
"""package telnet

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := &Server{mycall: "my", lastSpots: map[spotHash]time.Time{}, silencePeriod: time.Minute, msg: make(chan []byte, 10)}
	now := time.Now()
	for i := 0; i < 3; i++ {
		s.Spot("dl1abc", 14010000, "", now.Add(time.Duration(i)*40*time.Second))
	}
	if len(s.msg) != 2 {
		t.Fatalf("%d instead of 2 spots announced", len(s.msg))
	}
}
""", "telnet")
bug("c20-long-callsign-cut", "C20", [("telnet/telnet.go", '%6.1f  %-13s%-31s' if False else '%-13s%-31s%-4sz', '%-13.13s%-31s%-4sz')],
"a callsign of more than 13 characters", "a long callsign is announced without its end",
"""package telnet

import (
	"strings"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := &Server{mycall: "my"}
	line := s.formatSpotMessage("vp2e/dl1abcde/mm", 14010000, "", time.Now())
	if !strings.Contains(line, "vp2e/dl1abcde/mm") {
		t.Fatal(line)
	}
}
""", "telnet")
bug("c21-wrong-clients-removed", "C21", [("telnet/telnet.go", """			for i, index := range removeConnections {
				s.removeConnection(index - i)
			}
""", """			for _, index := range removeConnections {
				s.removeConnection(index)
			}
""")],
"at least two of three or more clients are found to be closed by the same announcement", "a client that is still connected is removed instead of a closed one",
"""package telnet

import (
	"bytes"
	"io"
	"net"
	"testing"
	"time"
)

type demoConn struct {
	bytes.Buffer
	done chan struct{}
}

func (c *demoConn) Read(p []byte) (int, error) { <-c.done; return 0, io.EOF }
func (c *demoConn) Close() error               { return nil }

func TestDemo(t *testing.T) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s := &Server{listener: l, mycall: "my", lastSpots: map[spotHash]time.Time{}, msg: make(chan []byte, 1), close: make(chan struct{}), closed: make(chan struct{})}
	for i := 0; i < 4; i++ {
		s.connections = append(s.connections, NewConnection(&demoConn{done: make(chan struct{})}, ""))
	}
	a, b := s.connections[1], s.connections[3]
	s.connections[0].Close()
	s.connections[2].Close()
	go s.run()
	s.Spot("dl1abc", 14010000, "", time.Now())
	s.Spot("dl1abc", 14020000, "", time.Now())
	s.Stop()
	if len(s.connections) != 2 || s.connections[0] != a || s.connections[1] != b {
		t.Fatalf("%v", s.connections)
	}
}
""", "telnet")
bug("c21-last-client", "C21", [("telnet/telnet.go", "len(s.connections)-len(removeConnections) <= 0 {", "len(s.connections)-len(removeConnections) <= 1 && len(removeConnections) > 0 {")],
"all clients but one are found to be closed by the same announcement", "the last client that is still connected is removed, too",
"""package telnet

import (
	"bytes"
	"io"
	"net"
	"testing"
	"time"
)

type demoConn struct {
	bytes.Buffer
	done chan struct{}
}

func (c *demoConn) Read(p []byte) (int, error) { <-c.done; return 0, io.EOF }
func (c *demoConn) Close() error               { return nil }

func TestDemo(t *testing.T) {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s := &Server{listener: l, mycall: "my", lastSpots: map[spotHash]time.Time{}, msg: make(chan []byte, 1), close: make(chan struct{}), closed: make(chan struct{})}
	for i := 0; i < 4; i++ {
		s.connections = append(s.connections, NewConnection(&demoConn{done: make(chan struct{})}, ""))
	}
	a := s.connections[1]
	s.connections[0].Close()
	s.connections[2].Close()
	s.connections[3].Close()
	go s.run()
	s.Spot("dl1abc", 14010000, "", time.Now())
	s.Spot("dl1abc", 14020000, "", time.Now())
	s.Stop()
	if len(s.connections) != 1 || s.connections[0] != a {
		t.Fatalf("%v", s.connections)
	}
}
""", "telnet")
bug("c22-packet-overwritten", "C22", [("telnet/telnet.go", """		bytes := make([]byte, n)
		copy(bytes, readBuffer[:n])
		c.input <- bytes
""", """		c.input <- readBuffer[:n]
""")],
"the next packet arrives before the last one was handled", "the bytes of a packet are overwritten by those of the next one",
"""package telnet

import (
	"io"
	"testing"
)

type demoConn struct{ packets []string }

func (c *demoConn) Read(p []byte) (int, error) {
	if len(c.packets) == 0 {
		return 0, io.EOF
	}
	s := c.packets[0]
	c.packets = c.packets[1:]
	return copy(p, s), nil
}
func (c *demoConn) Close() error                { return nil }
func (c *demoConn) Write(p []byte) (int, error) { return len(p), nil }

func TestDemo(t *testing.T) {
	c := &Connection{conn: &demoConn{packets: []string{"dl1", "abc"}}, input: make(chan []byte, 2)}
	c.readLoop()
	if a, b := string(<-c.input), string(<-c.input); a != "dl1" || b != "abc" {
		t.Fatalf("%q, %q", a, b)
	}
}
""", "telnet")
bug("c22-name-keeps-growing", "C22", [("telnet/telnet.go", """			c.user = answer
			return fmt.Sprintf("welcome %s\\n", c.user), ignoreInputPrompt
""", """			if answer == "" {
				return "\\n", nil
			}
			c.user = answer
			return fmt.Sprintf("welcome %s\\n", c.user), ignoreInputPrompt
""")],
"the first line that is entered is empty", "the client is not welcomed but asked for its name on and on",
"""package telnet

import (
	"bytes"
	"strings"
	"testing"
	"time"
)

type demoConn struct {
	bytes.Buffer
	packets chan string
}

func (c *demoConn) Read(p []byte) (int, error) { return copy(p, <-c.packets), nil }
func (c *demoConn) Close() error               { return nil }

func TestDemo(t *testing.T) {
	conn := &demoConn{packets: make(chan string, 1)}
	c := NewConnection(conn, "")
	conn.packets <- "\\n"
	time.Sleep(300 * time.Millisecond)
	c.Close()
	if !strings.Contains(conn.String(), "welcome \\n") {
		t.Fatalf("%q", conn.String())
	}
}
""", "telnet")
