package kiwi

import (
	"net/http"
	"net/http/httptest"
	"reflect"
	"testing"
	"unsafe"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"github.com/gorilla/websocket"
)

// dvField gives access to a field of the receiver.
func dvField(t *testing.T, r any, name string) reflect.Value {
	f := reflect.ValueOf(r).Elem().FieldByName(name)
	if !f.IsValid() {
		t.Skipf("the receiver has no field %s", name)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func TestDVC18_KiwiBlocks(t *testing.T) {
	r := dvRand()
	for _, length := range []int{0, 2, 512, 1536, 1022, 1024, 1026, 2048, 2050, 3072, 4096, 10240, 10238} {
		p := &Process{close: make(chan struct{}), scope: scope.NewNullScope()}
		p.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
		in := make(chan []float32, 100)
		dvField(t, p.receiver, "in").Set(reflect.ValueOf(in))
		dvField(t, p.receiver, "sampleRate").SetInt(12000)
		dvField(t, p.receiver, "blockSize").SetInt(512)
		data := make([]float32, length)
		for i := range data {
			data[i] = r.Float32()
		}
		p.IQData(12000, data)
		expected := 0
		if length%1024 == 0 {
			expected = length / 1024
		}
		if len(in) != expected {
			t.Fatalf("IQ data of length %d: expected %d blocks, got %d", length, expected, len(in))
		}
		for i := 0; i < expected; i++ {
			if b := <-in; !reflect.DeepEqual(b, data[1024*i:1024*(i+1)]) {
				t.Fatalf("IQ data of length %d: block %d has other samples", length, i)
			}
		}
		p.IQData(48000, data)
		if len(in) != 0 {
			t.Fatalf("data with another sample rate was accepted")
		}
	}
}

func TestDVC18_KiwiStart(t *testing.T) {
	p := &Process{close: make(chan struct{}), scope: scope.NewNullScope()}
	p.receiver = rx.NewReceiver[float32, int]("", rx.StrainMode, rx.WallClock)
	p.Connected(20250)
	defer p.receiver.Stop()
	if s, b := dvField(t, p.receiver, "sampleRate").Int(), dvField(t, p.receiver, "blockSize").Int(); s != 20250 || b != 512 {
		t.Fatalf("started with sample rate %d and block size %d", s, b)
	}
}

func TestDVC18_KiwiEdge(t *testing.T) {
	for _, bandwidth := range []int{12000, 11000, 10000, 6000, 3000, 0} {
		p := dvConnected(t, bandwidth)
		exact := float64(12000-bandwidth) / 2 * 512 / 12000
		if e := dvField(t, p.receiver, "edgeWidth").Int(); float64(e) > exact+0.001 || float64(e) < exact-1.001 {
			t.Errorf("bandwidth %d: %d bins at the edge, expected %f", bandwidth, e, exact)
		}
		p.Close()
	}
}

// dvConnected opens a process with a local server that accepts the connection.
func dvConnected(t *testing.T, bandwidth int) *Process {
	up := websocket.Upgrader{}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				return
			}
		}
	}))
	t.Cleanup(s.CloseClientConnections)
	p, err := New(s.Listener.Addr().String(), "u", "p", 7000000, bandwidth, nil)
	if err != nil {
		t.Skip(err)
	}
	return p
}
