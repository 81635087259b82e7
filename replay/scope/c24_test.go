package scope

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/ftl/sdrainer/scope/pb"
)

func dvRand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed) + 24))
}

func dvWithin(t *testing.T, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s waits forever", what)
	}
}

func TestDVC24_Streams(t *testing.T) {
	r := dvRand()
	for round := 0; round < 200; round++ {
		s := &grpcServer{}
		type stream struct {
			ch     chan *pb.Frame
			space  int
			frames []*pb.Frame
			gone   bool
		}
		var all []*stream
		for step := 0; step < 25; step++ {
			if r.Intn(3) == 0 {
				st := &stream{ch: make(chan *pb.Frame, 1+r.Intn(6))}
				st.space = cap(st.ch)
				s.addStream(st.ch)
				all = append(all, st)
				continue
			}
			f := &pb.Frame{}
			dvWithin(t, "sending a frame", func() { s.sendFrameToStreams(f) })
			n := 0
			for _, st := range all {
				if st.gone {
					continue
				}
				if len(st.frames) == st.space {
					st.gone = true
					continue
				}
				n++
				st.frames = append(st.frames, f)
			}
			if len(s.out) != n {
				t.Fatalf("%d streams are registered, expected %d", len(s.out), n)
			}
		}
		for i, st := range all {
			for k, f := range st.frames {
				g, open := <-st.ch
				if !open || g != f {
					t.Fatalf("stream %d: frame %d is missing or another one", i, k)
				}
			}
			select {
			case _, open := <-st.ch:
				if open || !st.gone {
					t.Fatalf("stream %d: another frame or closed", i)
				}
			default:
				if st.gone {
					t.Fatalf("stream %d is not closed", i)
				}
			}
		}
	}
}

func TestDVC24_Shutdown(t *testing.T) {
	r := dvRand()
	for round := 0; round < 30; round++ {
		s, err := newGRPCServer("localhost:", 3)
		if err != nil {
			t.Skip(err)
		}
		done := make(chan error, 1)
		go func() { done <- s.Start() }()
		time.Sleep(20 * time.Millisecond)
		var chs []chan *pb.Frame
		for i := r.Intn(4); i >= 0; i-- {
			chs = append(chs, s.getFrameStream())
		}
		sent := make(chan any, 1)
		go func() {
			defer func() { sent <- recover() }()
			for i := 0; i < 100000; i++ {
				s.SendFrame(&pb.Frame{})
			}
		}()
		time.Sleep(time.Duration(r.Intn(1000)) * time.Microsecond)
		dvWithin(t, "stopping the server", s.Stop)
		select {
		case r := <-sent:
			if r != nil {
				t.Fatalf("sending a frame while the server stops: %v", r)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("sending a frame while the server stops waits forever")
		}
		<-done
		for _, c := range chs {
			dvWithin(t, "the stream", func() {
				for range c {
				}
			})
		}
		dvWithin(t, "a new stream after the end", func() {
			c := s.getFrameStream()
			for range c {
			}
		})
	}
}

func TestDVC24_ShutdownOfIdleClients(t *testing.T) {
	for n := 0; n < 6; n++ {
		s, err := newGRPCServer("localhost:", 3)
		if err != nil {
			t.Skip(err)
		}
		var chs []chan *pb.Frame
		for i := 0; i < n; i++ {
			c := make(chan *pb.Frame, 3)
			s.addStream(c)
			chs = append(chs, c)
		}
		close(s.shutdown)
		dvWithin(t, "the end of the server", s.run)
		for i, c := range chs {
			select {
			case _, open := <-c:
				if open {
					t.Fatalf("stream %d of %d has a frame", i, n)
				}
			default:
				t.Fatalf("stream %d of %d is not closed", i, n)
			}
		}
	}
}

func TestDVC24_NoListener(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	s, err := newGRPCServer(l.Addr().String(), 3)
	if err != nil {
		t.Skip(err)
	}
	if s.Start() == nil {
		t.Skip("started")
	}
	dvWithin(t, "sending a frame", func() { s.SendFrame(&pb.Frame{}) })
}

func TestDVC23_StopUnderFire(t *testing.T) {
	for round := 0; round < 30; round++ {
		s := NewScopeServer("localhost:")
		if err := s.Start(); err != nil {
			t.Skip(err)
		}
		for i := 0; i < 100 && (!s.Active() || s.Addr() == nil); i++ {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		sent := make(chan any, 1)
		go func() {
			defer func() { sent <- recover() }()
			for i := 0; i < 100000 && s.Active(); i++ {
				s.ShowTimeFrame(&TimeFrame{})
				s.ShowSpectralFrame(&SpectralFrame{})
			}
		}()
		time.Sleep(time.Millisecond)
		s.Stop()
		select {
		case r := <-sent:
			if r != nil {
				t.Fatalf("sending a frame while the scope stops: %v", r)
			}
		case <-time.After(5 * time.Second):
			t.Fatalf("sending a frame while the scope stops waits forever")
		}
	}
}

func dvShow(f any) string {
	switch f := f.(type) {
	case *TimeFrame:
		m := map[string]float32{}
		for k, v := range f.Values {
			m[string(k)] = float32(v)
		}
		return fmt.Sprintf("time %q %s %s", f.Stream, f.Timestamp.UTC(), dvMap(m))
	case *SpectralFrame:
		a, b := map[string]float32{}, map[string]float32{}
		for k, v := range f.FrequencyMarkers {
			a[string(k)] = float32(v)
		}
		for k, v := range f.MagnitudeMarkers {
			b[string(k)] = float32(v)
		}
		vs := []float32{}
		for _, v := range f.Values {
			vs = append(vs, float32(v))
		}
		return fmt.Sprintf("spectral %q %s %v %v %v %s %s", f.Stream, f.Timestamp.UTC(), float32(f.FromFrequency), float32(f.ToFrequency), vs, dvMap(a), dvMap(b))
	}
	return "?"
}

func dvMap(m map[string]float32) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, fmt.Sprintf("%q:%v", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprint(ks)
}

func TestDVC23_Frames(t *testing.T) {
	r := dvRand()
	s := NewScopeServer("localhost:")
	if err := s.Start(); err != nil {
		t.Skip(err)
	}
	defer s.Stop()
	for i := 0; i < 300 && (!s.Active() || s.Addr() == nil); i++ {
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	c := NewClient(s.Addr().String())
	if err := c.Open(); err != nil {
		t.Skip(err)
	}
	defer c.Close()
	times, spectra, err := c.GetFrames()
	if err != nil {
		t.Skip(err)
	}
	time.Sleep(200 * time.Millisecond)
	names := []string{"", "a", "b", "peak", "üñ", "a b"}
	for i := 0; i < 200; i++ {
		ts := time.Unix(r.Int63n(1<<33), r.Int63n(1000000000))
		if r.Intn(3) > 0 {
			f := &SpectralFrame{Frame: Frame{StreamID(names[r.Intn(6)]), ts}, FromFrequency: r.NormFloat64() * 1e7, ToFrequency: r.NormFloat64(), FrequencyMarkers: map[MarkerID]float64{}, MagnitudeMarkers: map[MarkerID]float64{}}
			for k := r.Intn(20); k > 0; k-- {
				f.Values = append(f.Values, r.NormFloat64()*1e3)
			}
			for k := r.Intn(5); k > 0; k-- {
				f.FrequencyMarkers[MarkerID(names[r.Intn(6)])] = r.NormFloat64()
				f.MagnitudeMarkers[MarkerID(names[r.Intn(6)])] = float64(r.Intn(3) - 1)
			}
			s.ShowSpectralFrame(f)
			select {
			case g := <-spectra:
				if dvShow(f) != dvShow(g) {
					t.Fatalf("sent %s\nreceived %s", dvShow(f), dvShow(g))
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("the frame %s does not arrive", dvShow(f))
			}
		} else {
			f := &TimeFrame{Frame: Frame{StreamID(names[r.Intn(6)]), ts}, Values: map[ChannelID]float64{}}
			for k := r.Intn(5); k > 0; k-- {
				f.Values[ChannelID(names[r.Intn(6)])] = float64(r.Intn(3) - 1)
			}
			s.ShowTimeFrame(f)
			select {
			case g := <-times:
				if dvShow(f) != dvShow(g) {
					t.Fatalf("sent %s\nreceived %s", dvShow(f), dvShow(g))
				}
			case <-time.After(5 * time.Second):
				t.Fatalf("the frame %s does not arrive", dvShow(f))
			}
		}
	}
}
