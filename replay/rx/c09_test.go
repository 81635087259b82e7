package rx

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
)

func TestDVC09_Pool(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	r := dvRand()
	for round := 0; round < 150; round++ {
		size := r.Intn(6)
		reporter := &dvReporter{}
		clock := &dvClock{}
		p := NewListenerPool[float32, int](size, "id", func(id string) *Listener[float32, int] {
			return NewListener[float32, int](id, io.Discard, clock, reporter, 12000, 512)
		})
		stranger := NewListener[float32, int]("other", io.Discard, clock, reporter, 12000, 512)
		var all []string
		for i := 1; i <= size; i++ {
			all = append(all, fmt.Sprintf("id%d", i))
		}
		bound, old := map[*Listener[float32, int]]bool{}, []*Listener[float32, int]{stranger}
		pick := func() *Listener[float32, int] {
			if len(p.listeners) > 0 && r.Intn(4) > 0 {
				return p.listeners[r.Intn(len(p.listeners))]
			}
			return old[r.Intn(len(old))]
		}
		var history []string
		for i := 0; i < 25; i++ {
			switch r.Intn(5) {
			case 0, 1, 2:
				l, ok := p.BindNext()
				history = append(history, "bind")
				if ok != (len(bound) < size) || ok == (l == nil) || bound[l] {
					t.Fatalf("pool of %d: %v: bound %v, %v", size, history, l, ok)
				}
				if ok {
					bound[l] = true
					l.Attach(dvPeakAt(1, 1000))
				}
			case 3:
				var ls []*Listener[float32, int]
				for n := r.Intn(4); n > 0; n-- {
					l := pick()
					used := false
					for b := range bound {
						used = used || b != l && b.ID() == l.ID()
					}
					if used {
						continue // an old listener with an id that is in use again
					}
					ls = append(ls, l)
					if bound[l] {
						old = append(old, l)
					}
					delete(bound, l)
					history = append(history, "release "+l.ID())
				}
				p.Release(ls...)
			case 4:
				if r.Intn(4) == 0 {
					history = append(history, "reset")
					p.Reset()
					for l := range bound {
						if l.Attached() {
							t.Fatalf("pool of %d: %v: %s is still attached", size, history, l.ID())
						}
						old = append(old, l)
					}
					clear(bound)
				}
			}
			var ids []string
			count := 0
			p.ForEach(func(l *Listener[float32, int]) {
				count++
				ids = append(ids, l.ID())
				if !bound[l] {
					t.Fatalf("pool of %d: %v: %s is not bound", size, history, l.ID())
				}
			})
			ids = append(ids, p.ids...)
			sort.Strings(ids)
			if strings.Join(ids, " ") != strings.Join(all, " ") || count != len(bound) || p.Size() != size || p.Available() != (len(bound) < size) {
				t.Fatalf("pool of %d: %v: ids %v, %d bound, expected %d, available %v", size, history, ids, count, len(bound), p.Available())
			}
			if l, ok := p.First(); ok != (len(bound) > 0) || (ok && !bound[l]) {
				t.Fatalf("pool of %d: %v: first %v, %v", size, history, l, ok)
			}
		}
		p.Reset()
	}
}
