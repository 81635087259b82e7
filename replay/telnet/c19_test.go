package telnet

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"
)

func TestDVC19_Spots(t *testing.T) {
	r := dvRand()
	s := dvServer(t)
	defer s.Stop()
	silence := 4 * time.Minute
	conn, err := net.Dial("tcp", s.listener.Addr().String())
	if err != nil {
		t.Skip(err)
	}
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(40 * time.Second))
	in := bufio.NewReader(conn)
	in.ReadString('\n')
	in.ReadString(':')
	calls := []string{"dl1abc", "w1aw", "dl1abc1", "dl1abc-1", "dl1abc-7", "DL1ABC", ""}
	freqs := []float64{7000000, 7000400, 7000499, 7001000, 7010000, 14000000, 1000, 7000, 10000, 17000, 100}
	last := map[string]time.Time{}
	now := time.Date(2024, 1, 1, 23, 0, 0, 0, time.UTC)
	expected := []string{}
	for i := 0; i < 600; i++ {
		if i == 300 {
			silence = 90 * time.Second
			s.SetSilencePeriod(silence)
		}
		call, f := calls[r.Intn(len(calls))], freqs[r.Intn(len(freqs))]
		key := fmt.Sprintf("%q %.0f", call, f/1000)
		if l, ok := last[key]; ok && r.Intn(2) == 0 {
			now = l.Add(silence + time.Duration(r.Intn(3)-1))
		} else {
			now = now.Add(time.Duration(r.Intn(20)) * time.Second)
		}
		if l, ok := last[key]; !ok || now.Sub(l) > silence {
			last[key] = now
			expected = append(expected, dvLine("my", call, f, fmt.Sprint(i), now.Format("1504")))
		}
		s.Spot(call, f, fmt.Sprint(i), now)
	}
	s.Spot("end", 1, "", now)
	for i := 0; ; i++ {
		line, err := in.ReadString('\n')
		line = strings.TrimPrefix(line, " ")
		if err != nil || strings.Contains(line, "end") {
			if i != len(expected) {
				t.Fatalf("%d instead of %d spots announced, %v", i, len(expected), err)
			}
			return
		}
		if i >= len(expected) || line != expected[i] {
			e := append(expected, "nothing")[min(i, len(expected))]
			t.Fatalf("announced %q instead of %q", line, e)
		}
	}
}
