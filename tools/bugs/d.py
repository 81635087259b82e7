bug("c17-samples-reused", "C17", [("kiwi/client.go", "	defer conn.Close()\n	for {\n		select {\n		case <-c.closed:\n			return\n		default:\n			msgType", "	defer conn.Close()\n	var iqData []float32\n	for {\n		select {\n		case <-c.closed:\n			return\n		default:\n			msgType"),
 ("kiwi/client.go", "			var iqData []float32\n			switch tag", "			switch tag"), ("kiwi/client.go", "iqData, err = decodeIQMessage(nil, payload)", "iqData, err = decodeIQMessage(iqData, payload)")],
"two IQ messages of the same length, the first of which is still waiting to be processed when the second arrives", "the samples of a block are overwritten with those of a later message",
"""package kiwi

import (
	"errors"
	"net"
	"testing"
)

type conn struct{ n byte }

func (c *conn) RemoteAddr() net.Addr           { return nil }
func (c *conn) Close() error                   { return nil }
func (c *conn) WriteMessage(int, []byte) error { return nil }
func (c *conn) ReadMessage() (int, []byte, error) {
	c.n++
	if c.n > 2 {
		return 0, nil, errors.New("end")
	}
	b := make([]byte, 24)
	copy(b, "SND")
	b[20] = c.n
	return 2, b, nil
}

type handler struct{ data [][]float32 }

func (h *handler) Connected(int)                   {}
func (h *handler) IQData(_ int, data []float32) { h.data = append(h.data, data) }

func TestDemo(t *testing.T) {
	h := &handler{}
	c := &Client{configuration: kiwiConfiguration{}, audioRate: 12000, connected: true, kiwiHandler: h, close: make(chan struct{}), closed: make(chan struct{})}
	c.readLoop(&conn{})
	if len(h.data) != 2 || h.data[0][0] == h.data[1][0] {
		t.Fatal(h.data)
	}
}
""", "kiwi")
bug("c17-value-cut-at-equals", "C17", [("kiwi/client.go", '			err = c.decodeConfigurationMessage(payload)\n', '			err = c.decodeConfigurationMessage(payload)\n') if False else ("kiwi/client.go", "value := strings.TrimSpace(part[equalIndex+1:])", 'value := strings.Trim(part[equalIndex+1:], "= ")')],
"a configuration value that ends with an equals sign, like base64 text", "the configuration value is stored without its end",
"""package kiwi

import "testing"

func TestDemo(t *testing.T) {
	c := &Client{configuration: kiwiConfiguration{}}
	c.decodeConfigurationMessage([]byte("token=YQ=="))
	if c.configuration["token"] != "YQ==" {
		t.Fatal(c.configuration)
	}
}
""", "kiwi")
bug("c18-last-block-missing", "C18", [("kiwi/kiwi.go", "	if len(data)%partSize != 0 {\n", "	if len(data)%blockSize != 0 {\n")],
"IQ data whose length is a multiple of 512 values, but not of 1024", "the data is cut at the last full block instead of being rejected",
"""package kiwi

import (
	"bytes"
	"log"
	"os"
	"testing"

	"github.com/ftl/sdrainer/rx"
)

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	log.SetOutput(&b)
	defer log.SetOutput(os.Stderr)
	p := &Process{receiver: rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)}
	p.IQData(12000, make([]float32, 1536))
	if b.Len() == 0 {
		t.Fatal("not rejected")
	}
}
""", "kiwi")
bug("c18-tci-part-order", "C18", [("tci/tci.go", "	partLen := len(data) / partCount\n	for i := 0; i < partCount; i++ {\n", "	partLen := 2 * 2048 / partCount\n	for i := 0; i < len(data)/partLen; i++ {\n")],
"a TCI device that sends blocks of another length than 4096 values", "IQ data is divided into parts of a fixed length, what remains is lost",
"""package tci

import (
	"reflect"
	"testing"
	"unsafe"

	"github.com/ftl/sdrainer/rx"
)

func field(r any, name string) reflect.Value {
	f := reflect.ValueOf(r).Elem().FieldByName(name)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func TestDemo(t *testing.T) {
	p := &Process{receiver: rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)}
	in := make(chan []float32, 10)
	field(p.receiver, "in").Set(reflect.ValueOf(in))
	field(p.receiver, "sampleRate").SetInt(48000)
	field(p.receiver, "blockSize").SetInt(256)
	l := &tciListener{process: p}
	l.IQData(0, 48000, make([]float32, 2048))
	if len(in) != 4 {
		t.Fatal(len(in))
	}
}
""", "tci")
bug("c25-port-zero", "C25", [("cli/cli.go", '	if port == "" {\n		port = strconv.Itoa(defaultPort)', '	if host == defaultHost && port == "" {\n		port = strconv.Itoa(defaultPort)')],
"a host other than the default host, without a port", "an address without a port gets no port",
"""package cli

import "testing"

func TestDemo(t *testing.T) {
	a, err := ParseTCPAddrArg("127.0.0.2", "127.0.0.1", 1234)
	if err != nil || a.Port != 1234 {
		t.Fatal(a, err)
	}
}
""", "cli")
bug("c25-half-bracket", "C25", [("cli/cli.go", 'if strings.HasPrefix(host, "[") && strings.HasSuffix(host, "]") {', 'if strings.HasSuffix(host, "]") {')],
"an address with a closing bracket only", "the first character of the host is lost",
"""package cli

import "testing"

func TestDemo(t *testing.T) {
	h, _ := splitHostPort("::1]:80")
	if h != "::1]" {
		t.Fatal(h)
	}
}
""", "cli")
bug("c30-second-spot-hidden", "C30", [("tci/tci.go", """	if p.spotter != nil {
		p.spotter.Spot(""", """	if p.showSpots && p.spotter != nil {
		p.spotter.Spot(""")],
"a spotter, without marking spots on the device", "spotted callsigns do not reach the cluster unless they are marked on the device",
"""package tci

import (
	"testing"
	"time"

	tci "github.com/ftl/tci/client"
)

type spotter struct{ n int }

func (s *spotter) Spot(string, float64, string, time.Time) { s.n++ }

func TestDemo(t *testing.T) {
	s := &spotter{}
	p := &Process{client: &tci.Client{}, spotter: s}
	p.showSpot("dl1abc", 7000000)
	if s.n != 1 {
		t.Fatal(s.n)
	}
}
""", "tci")
bug("c30-first-reporter-only", "C30", [("rx/receiver.go", """	for _, reporter := range r.reporters {
		reporter.SpotTimeout(listener, callsign, frequency)
	}""", """	for i := len(r.reporters) - 1; i >= 0; i-- {
		r.reporters[i].SpotTimeout(listener, callsign, frequency)
	}""")],
"more than one reporter and a spot that times out", "the reporters get the report in reverse order",
"""package rx

import (
	"bytes"
	"testing"
)

type rep struct {
	*TextReporter[int]
	n   int
	out *bytes.Buffer
}

func (r *rep) SpotTimeout(string, string, int) { r.out.WriteByte(byte('0' + r.n)) }

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	r := NewReceiver[float32, int]("", StrainMode, WallClock)
	r.AddReporter(&rep{nil, 1, &b})
	r.AddReporter(&rep{nil, 2, &b})
	r.SpotTimeout("", "", 0)
	if b.String() != "12" {
		t.Fatal(b.String())
	}
}
""", "rx")
