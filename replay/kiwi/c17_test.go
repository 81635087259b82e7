package kiwi

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"net/url"
	"strconv"
	"strings"
	"testing"
)

type dvConn struct {
	types    []int
	messages [][]byte
	n        int
}

func (c *dvConn) RemoteAddr() net.Addr           { return &net.TCPAddr{} }
func (c *dvConn) Close() error                   { return nil }
func (c *dvConn) WriteMessage(int, []byte) error { return nil }
func (c *dvConn) ReadMessage() (int, []byte, error) {
	if c.n >= len(c.messages) {
		return 0, nil, errors.New("end")
	}
	c.n++
	return c.types[c.n-1], c.messages[c.n-1], nil
}

type dvHandler struct {
	events []string
	data   [][]float32
	copies [][]float32
}

func (h *dvHandler) Connected(sampleRate int) {
	h.events = append(h.events, fmt.Sprintf("connected %d", sampleRate))
}
func (h *dvHandler) IQData(sampleRate int, data []float32) {
	h.events = append(h.events, fmt.Sprintf("data %d %v", sampleRate, data))
	h.data = append(h.data, data)
	h.copies = append(h.copies, append([]float32{}, data...))
}

type dvModel struct {
	conf      map[string]string
	rate      int
	connected bool
	events    []string
}

// message returns whether the connection goes on
func (m *dvModel) message(b []byte) bool {
	if len(b) < 3 {
		return true
	}
	switch p := b[3:]; string(b[:3]) {
	case "MSG":
		end := false
	parts:
		for _, part := range strings.Split(string(p), " ") {
			i := strings.IndexByte(part, '=')
			if i < 0 {
				m.conf[part] = ""
				continue
			}
			k, v := strings.TrimSpace(part[:i]), strings.TrimSpace(part[i+1:])
			if (k == "too_busy" || k == "badp" || k == "down") && v == "1" {
				end = true
				break parts
			}
			if k == "audio_rate" {
				n, err := strconv.Atoi(v)
				if err != nil {
					break parts
				}
				m.rate = n
			}
			if strings.HasPrefix(k, "load_") {
				u, err := url.QueryUnescape(v)
				if err != nil {
					break parts
				}
				v = u
			}
			m.conf[k] = v
		}
		if !m.connected && m.rate != 0 {
			m.connected = true
			m.events = append(m.events, fmt.Sprintf("connected %d", m.rate))
		}
		return !end
	case "SND":
		if m.rate != 0 && len(p) >= 17 {
			data := []float32{}
			for i := 17; i+1 < len(p); i += 2 {
				data = append(data, float32(int16(binary.BigEndian.Uint16(p[i:])))/32767)
			}
			m.events = append(m.events, fmt.Sprintf("data %d %v", m.rate, data))
		}
	}
	return true
}

func TestDVC17_Messages(t *testing.T) {
	r := dvRand()
	confs := []string{"audio_rate=12000", "audio_rate=20250", "audio_rate=x", "compression=1", "a=b=c", "a", "", "=", "load_cfg=%7B%22a%22%3A1%7D", "load_x=%zz", "badp=0", "too_busy=0", "down=0", "k=\tv", "audio_rate=99999999999999999999", "K=\xff"}
	ends := []string{"too_busy=1", "badp=1", "down=1"}
	for round := 0; round < 300; round++ {
		conn := &dvConn{}
		h := &dvHandler{}
		c := &Client{configuration: kiwiConfiguration{}, kiwiHandler: h, out: make(chan string), close: make(chan struct{}), closed: make(chan struct{})}
		m := &dvModel{conf: map[string]string{}}
		on := true
		for i := 0; i < 30; i++ {
			var b []byte
			switch k := r.Intn(10); {
			case k < 4:
				var parts []string
				for j := r.Intn(4); j >= 0; j-- {
					parts = append(parts, confs[r.Intn(len(confs))])
				}
				if r.Intn(40) == 0 {
					parts = append(parts, ends[r.Intn(3)])
				}
				b = []byte("MSG" + strings.Join(parts, " "))
			case k < 9:
				b = make([]byte, 3+r.Intn(60))
				r.Read(b)
				copy(b, "SND")
			default:
				b = make([]byte, r.Intn(8))
				r.Read(b)
			}
			ty := 2
			if r.Intn(10) == 0 {
				ty = 1
			}
			conn.types = append(conn.types, ty)
			conn.messages = append(conn.messages, b)
			if on && ty == 2 {
				on = m.message(b)
			}
		}
		c.readLoop(conn)
		if strings.Join(h.events, "\n") != strings.Join(m.events, "\n") {
			for i, b := range conn.messages {
				t.Logf("message %d of type %d: %q", i, conn.types[i], b)
			}
			t.Fatalf("expected\n%s\nbut got\n%s", strings.Join(m.events, "\n"), strings.Join(h.events, "\n"))
		}
		if fmt.Sprint(map[string]string(c.configuration)) != fmt.Sprint(m.conf) {
			t.Fatalf("configuration of %q: expected %v, got %v", conn.messages, m.conf, c.configuration)
		}
		for i := range h.data {
			if fmt.Sprint(h.data[i]) != fmt.Sprint(h.copies[i]) {
				t.Fatalf("the samples of message %d were changed by a later one: %v, now %v", i, h.copies[i], h.data[i])
			}
		}
		select {
		case <-c.close:
		default:
			t.Fatalf("the client is not closed at the end")
		}
		if !on && conn.n == len(conn.messages) && string(conn.messages[conn.n-1][:1]) != "M" {
			t.Fatalf("a busy, refused or closed receiver was ignored: %q", conn.messages)
		}
	}
}
