package rx

import (
	"bytes"
	"fmt"
	"testing"
)

func TestDVC26_Channels(t *testing.T) {
	r := dvRand()
	names := []string{"", "a", "b", "A", "a1"}
	for round := 0; round < 1000; round++ {
		out := &bytes.Buffer{}
		w := NewChannelWriter(out)
		active, want := "", ""
		var history []string
		var channels []WriterFunc
		for _, n := range names {
			channels = append(channels, w.Channel(n))
		}
		for i := 0; i < 20; i++ {
			text := fmt.Sprint(i, "\x00\xff", i)
			if r.Intn(4) == 0 {
				text = ""
			}
			n, err := len(text), error(nil)
			switch r.Intn(4) {
			case 0:
				active = names[r.Intn(len(names))]
				w.SetActive(active)
				history = append(history, "activate "+active)
			case 1:
				n, err = w.Write([]byte(text))
				want += text
				history = append(history, fmt.Sprintf("write %q", text))
			default:
				c := r.Intn(len(names))
				n, err = channels[c].Write([]byte(text))
				if names[c] == active {
					want += text
				}
				history = append(history, fmt.Sprintf("channel %s writes %q", names[c], text))
			}
			if n != len(text) || err != nil || out.String() != want {
				t.Fatalf("%q: wrote %d, %v, output %q, expected %q", history, n, err, out.String(), want)
			}
		}
	}
}
