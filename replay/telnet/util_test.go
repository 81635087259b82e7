package telnet

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func dvRand() *rand.Rand {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(seed))
}

// dvConn is a connection that takes texts in parts and delivers given packets.
type dvConn struct {
	mutex   sync.Mutex
	text    strings.Builder
	part    func(n int) int
	packets chan []byte
	done    chan struct{}
	once    sync.Once
	failing bool
}

func dvNewConn(part func(n int) int) *dvConn {
	return &dvConn{part: part, packets: make(chan []byte, 1000), done: make(chan struct{})}
}

func (c *dvConn) Read(p []byte) (int, error) {
	select {
	case b := <-c.packets:
		return copy(p, b), nil
	case <-c.done:
		return 0, io.EOF
	}
}

func (c *dvConn) Write(p []byte) (int, error) {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	if c.failing {
		return 0, errors.New("connection lost")
	}
	n := len(p)
	if c.part != nil {
		n = c.part(n)
	}
	c.text.Write(p[:n])
	return n, nil
}

func (c *dvConn) Close() error {
	c.once.Do(func() { close(c.done) })
	return nil
}

func (c *dvConn) fail() {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	c.failing = true
}

func (c *dvConn) got() string {
	c.mutex.Lock()
	defer c.mutex.Unlock()
	return c.text.String()
}

// wait until the text was written, at most two seconds
func (c *dvConn) wait(text string) string {
	for i := 0; i < 2000 && c.got() != text; i++ {
		time.Sleep(time.Millisecond)
	}
	return c.got()
}

func dvServer(t *testing.T) *Server {
	s, err := NewServer("127.0.0.1:0", "my", "1.0")
	if err != nil {
		t.Skip(err)
	}
	return s
}

func dvLine(mycall, callsign string, frequency float64, msg, clock string) string {
	pad := func(s string, n int) string {
		if k := n - len([]rune(s)); k > 0 {
			s += strings.Repeat(" ", k)
		}
		return s
	}
	f := fmt.Sprintf("%.1f", frequency/1000)
	if f[0] != '-' {
		f = " " + f
	}
	for len(f) < 6 {
		f = " " + f
	}
	return pad("DX de "+mycall+":", 16) + f + "  " + pad(callsign, 13) + pad(msg, 31) + clock + "z\n"
}
