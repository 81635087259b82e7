package tci

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/ftl/sdrainer/rx"
	"github.com/gorilla/websocket"
)

func dvRand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed) + 30))
}

// dvDevice is a TCI device that answers every command with itself.
type dvDevice struct {
	mu       sync.Mutex
	commands []string
	server   *httptest.Server
}

func (d *dvDevice) spots() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []string
	for _, c := range d.commands {
		if strings.Contains(strings.ToLower(c), "spot") {
			r = append(r, strings.ToLower(c))
		}
	}
	return r
}

func dvNewDevice(t *testing.T) *dvDevice {
	d := &dvDevice{}
	up := websocket.Upgrader{}
	d.server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		c.WriteMessage(websocket.TextMessage, []byte("if_limits:-24000,24000;"))
		c.WriteMessage(websocket.TextMessage, []byte("ready;"))
		for {
			_, m, err := c.ReadMessage()
			if err != nil {
				return
			}
			d.mu.Lock()
			d.commands = append(d.commands, string(m))
			d.mu.Unlock()
			c.WriteMessage(websocket.TextMessage, m)
		}
	}))
	t.Cleanup(d.server.CloseClientConnections)
	return d
}

type dvSpotter struct {
	mu    sync.Mutex
	spots []string
}

func (s *dvSpotter) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.spots = append(s.spots, fmt.Sprintf("%s %.0f %s", callsign, frequency, msg))
}

func dvProcess(t *testing.T, d *dvDevice, trx int, spotter Spotter) *Process {
	p, err := New(d.server.Listener.Addr().String(), trx, rx.StrainMode, spotter, nil, false)
	if err != nil {
		t.Skip(err)
	}
	for i := 0; i < 300 && !p.client.Connected(); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	return p
}

func dvField(t *testing.T, r any, name string) reflect.Value {
	f := reflect.ValueOf(r).Elem().FieldByName(name)
	if !f.IsValid() {
		t.Skipf("there is no field %s", name)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func TestDVC30_Marks(t *testing.T) {
	r := dvRand()
	for _, listeners := range []bool{false, true} {
		for _, spots := range []bool{false, true} {
			d := dvNewDevice(t)
			s := &dvSpotter{}
			p := dvProcess(t, d, 0, s)
			p.SetShow(listeners, spots)
			var expectedSpots, adds []string
			marks := map[string]bool{}
			for i := 0; i < 40; i++ {
				id, call, f := fmt.Sprintf("id%d", r.Intn(5)), fmt.Sprintf("dl%dabc", r.Intn(5)), 7000000+r.Intn(9000)
				switch r.Intn(5) {
				case 0:
					p.ListenerActivated(id, f)
					if listeners {
						adds = append(adds, fmt.Sprintf("%s,cw,%d", id, f))
						marks[id] = true
					}
				case 1:
					p.ListenerDeactivated(id, f)
					delete(marks, id)
				case 2:
					p.CallsignSpotted(id, call, f)
					expectedSpots = append(expectedSpots, fmt.Sprintf("%s %d cw", call, f))
					if spots {
						adds = append(adds, fmt.Sprintf(">%s<,cw,%d", call, f))
						marks[">"+call+"<"] = true
					}
				case 3:
					p.SpotTimeout(id, call, f)
					delete(marks, ">"+call+"<")
				case 4:
					p.CallsignDecoded(id, call, f, 1, 1)
				}
			}
			// what is reported while the process stops is executed, too
			for i := 0; i < 5; i++ {
				id := fmt.Sprintf("id%d", i)
				p.ListenerDeactivated(id, 0)
				delete(marks, id)
			}
			p.Close()
			time.Sleep(100 * time.Millisecond)
			left := map[string]bool{}
			var added []string
			for _, c := range d.spots() {
				c = strings.TrimSuffix(c, ";")
				if a, ok := strings.CutPrefix(c, "spot:"); ok {
					k := strings.Split(a, ",")
					left[k[0]] = true
					added = append(added, strings.Join(k[:3], ","))
				} else if a, ok := strings.CutPrefix(c, "spot_delete:"); ok {
					delete(left, a)
				}
			}
			if fmt.Sprint(added) != fmt.Sprint(adds) {
				t.Errorf("listeners %t, spots %t: expected the marks\n%v\ngot\n%v", listeners, spots, adds, added)
			}
			if !reflect.DeepEqual(left, marks) {
				t.Errorf("listeners %t, spots %t: the marks %v are left, expected %v", listeners, spots, left, marks)
			}
			s.mu.Lock()
			if fmt.Sprint(s.spots) != fmt.Sprint(expectedSpots) {
				t.Errorf("expected the spots\n%v\ngot\n%v", expectedSpots, s.spots)
			}
			s.mu.Unlock()
		}
	}
}

func TestDVC18_TCI(t *testing.T) {
	r := dvRand()
	d := dvNewDevice(t)
	p := dvProcess(t, d, 1, nil)
	if s, b := dvField(t, p.receiver, "sampleRate").Int(), dvField(t, p.receiver, "blockSize").Int(); s != 48000 || b != 512 {
		t.Errorf("started with sample rate %d and block size %d", s, b)
	}
	if e := dvField(t, p.receiver, "edgeWidth").Int(); e != 0 {
		t.Errorf("%d bins at the edge", e)
	}
	p.receiver.Stop()
	in := make(chan []float32, 100)
	dvField(t, p.receiver, "in").Set(reflect.ValueOf(in))
	defer dvField(t, p.receiver, "in").Set(reflect.ValueOf((chan []float32)(nil)))
	for i := 0; i < 20; i++ {
		data := make([]float32, 4096)
		for k := range data {
			data[k] = r.Float32()
		}
		trx := r.Intn(3)
		p.listener.IQData(trx, 48000, data)
		expected := 0
		if trx == 1 {
			expected = 4
		}
		if len(in) != expected {
			t.Fatalf("transceiver %d of 1: %d blocks", trx, len(in))
		}
		for k := 0; k < expected; k++ {
			if b := <-in; !reflect.DeepEqual(b, data[1024*k:1024*(k+1)]) {
				t.Fatalf("block %d has other samples", k)
			}
		}
	}
	for _, size := range []int{128, 256, 1024} {
		dvField(t, p.receiver, "blockSize").SetInt(int64(size))
		data := make([]float32, 8*size)
		for k := range data {
			data[k] = r.Float32()
		}
		p.listener.IQData(1, 48000, data)
		var all []float32
		for len(in) > 0 {
			all = append(all, <-in...)
		}
		if !reflect.DeepEqual(all, data) {
			t.Fatalf("%d values do not arrive in their order in blocks of %d samples", len(data), size)
		}
	}
}

func TestDVC25_TCI(t *testing.T) {
	for arg, port := range map[string]int{"127.0.0.1": 40001, "127.0.0.1:0": 40001, ":0": 40001, "": 40001, "127.0.0.1:1": 1, "127.0.0.1:": 40001} {
		p, err := New(arg, 0, rx.StrainMode, nil, nil, false)
		if err != nil {
			t.Errorf("%q: %v", arg, err)
			continue
		}
		host := reflect.ValueOf(p.client).Elem().FieldByName("host")
		if !host.IsValid() {
			t.Skip()
		}
		if n := host.Elem().FieldByName("Port").Int(); int(n) != port {
			t.Errorf("%q: expected port %d, got %d", arg, port, n)
		}
		p.client.Disconnect()
	}
}
