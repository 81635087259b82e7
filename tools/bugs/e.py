bug("c23-markers-mixed", "C23", [("scope/client.go", "	for k, v := range spectralFrame.MagnitudeMarkers {\n		result.MagnitudeMarkers[MarkerID(k)]", "	for k, v := range spectralFrame.MagnitudeMarkers {\n		if _, ok := result.FrequencyMarkers[MarkerID(k)]; ok {\n			continue\n		}\n		result.MagnitudeMarkers[MarkerID(k)]")],
"a spectral frame with a frequency marker and a magnitude marker of the same name", "the magnitude marker does not arrive",
"""package scope

import (
	"testing"

	"github.com/ftl/sdrainer/scope/pb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func TestDemo(t *testing.T) {
	f := readSpectralFrame(&pb.SpectralFrame{
		Timestamp:        timestamppb.Now(),
		FrequencyMarkers: map[string]float32{"a": 1, "b": 2},
		MagnitudeMarkers: map[string]float32{"b": 3, "c": 4},
	})
	if len(f.MagnitudeMarkers) != 2 || f.MagnitudeMarkers["b"] != 3 || f.MagnitudeMarkers["c"] != 4 {
		t.Fatal(f.MagnitudeMarkers)
	}
}
""", "scope")
bug("c23-zero-not-sent", "C23", [("scope/server.go", "		grpcTimeFrame.Values[string(channel)] = float32(value)", "		if v := float32(value); v != 0 {\n			grpcTimeFrame.Values[string(channel)] = v\n		}")],
"a time frame with a channel whose value is zero", "this channel is missing in the frame that arrives",
"""package scope

import (
	"testing"

	"github.com/ftl/sdrainer/scope/pb"
	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	s := NewScopeServer("localhost:0")
	s.server = &grpcServer{server: grpc.NewServer(), in: make(chan *pb.Frame, 1), shutdown: make(chan struct{})}
	s.ShowTimeFrame(&TimeFrame{Values: map[ChannelID]float64{"a": 0, "b": 1}})
	f := (<-s.server.in).Frame.(*pb.Frame_TimeFrame).TimeFrame
	if _, ok := f.Values["a"]; !ok || len(f.Values) != 2 {
		t.Fatal(f.Values)
	}
}
""", "scope")
bug("c24-client-skipped", "C24", [("scope/server_grpc.go", "	for i := len(s.out) - 1; i >= 0; i-- {", "	for i := 0; i < len(s.out); i++ {")],
"a slow client that is dropped and is not the last one", "the client that takes its place misses this frame",
"""package scope

import (
	"testing"

	"github.com/ftl/sdrainer/scope/pb"
)

func TestDemo(t *testing.T) {
	s := &grpcServer{}
	slow, last := make(chan *pb.Frame, 1), make(chan *pb.Frame, 2)
	s.addStream(slow)
	s.addStream(last)
	s.sendFrameToStreams(&pb.Frame{})
	s.sendFrameToStreams(&pb.Frame{})
	if len(last) != 2 {
		t.Fatal(len(last))
	}
}
""", "scope")
bug("c24-last-two", "C24", [("scope/server_grpc.go", "	s.out[i] = s.out[len(s.out)-1]\n	s.out = s.out[:len(s.out)-1]", "	s.out = append(s.out[:i], s.out[min(i+2, len(s.out)):]...)")],
"a slow client that is dropped and is not the last one", "the next client is removed, too, but never closed",
"""package scope

import (
	"testing"

	"github.com/ftl/sdrainer/scope/pb"
)

func TestDemo(t *testing.T) {
	s := &grpcServer{}
	slow, last := make(chan *pb.Frame, 1), make(chan *pb.Frame, 3)
	s.addStream(slow)
	s.addStream(last)
	for i := 0; i < 3; i++ {
		s.sendFrameToStreams(&pb.Frame{})
	}
	if len(last) != 3 {
		t.Fatal(len(last))
	}
}
""", "scope")
bug("c24-shutdown-order", "C24", [("scope/server_grpc.go", "		case <-s.shutdown:\n			for _, out := range s.out {\n				close(out)\n			}\n			s.out = nil\n			return", "		case <-s.shutdown:\n			for i := range s.out {\n				close(s.out[i])\n				s.removeStream(i)\n			}\n			return")],
"a shutdown while more than one client is connected", "the streams of some clients are never closed (or the server crashes)",
"""package scope

import (
	"testing"

	"github.com/ftl/sdrainer/scope/pb"
)

func TestDemo(t *testing.T) {
	s := &grpcServer{in: make(chan *pb.Frame), register: make(chan chan *pb.Frame), shutdown: make(chan struct{})}
	a, b := make(chan *pb.Frame, 1), make(chan *pb.Frame, 1)
	s.addStream(a)
	s.addStream(b)
	close(s.shutdown)
	func() {
		defer func() { recover() }()
		s.run()
	}()
	for _, c := range []chan *pb.Frame{a, b} {
		select {
		case _, open := <-c:
			if open {
				t.Fatal("a frame")
			}
		default:
			t.Fatal("not closed")
		}
	}
}
""", "scope")
