package signalr

import (
	"fmt"
	"math"
	"reflect"
	"testing"
	"time"
)

func TestReplayC08(t *testing.T) {
	const wait = 2 * time.Second
	remembered := func(s *streamer) (n int) {
		s.cancels.Range(func(_, _ interface{}) bool { n++; return true })
		return
	}
	done := func(hc *rpHubConn, id string, n int) bool {
		ok := rpEventually(wait, func() bool { return len(hc.completions(id)) >= n })
		time.Sleep(2 * time.Millisecond)
		return ok && len(hc.completions(id)) == n
	}
	items := func(hc *rpHubConn, id string) (r []interface{}) {
		for _, m := range hc.all() {
			if x, ok := m.(streamItemMessage); ok && x.InvocationID == id {
				r = append(r, x.Item)
			}
		}
		return
	}
	push := func(ch chan int, v int) bool {
		select {
		case ch <- v:
			return true
		case <-time.After(wait):
			return false
		}
	}
	for _, max := range []uint{0, 1, 2, 3} {
		for _, stale := range []int{0, 1, 2, 5} {
			hc := newRpHubConn("c")
			s := &streamer{conn: hc, maxCancels: max}
			bounded := func(what string) {
				t.Helper()
				if n := remembered(s); max > 0 && n > int(max) {
					t.Errorf("max %d, %s: %d cancellations remembered", max, what, n)
				}
			}
			// cancellations for streams that never start
			for i := 0; i < stale; i++ {
				s.Stop(fmt.Sprint("stale", i))
				s.Stop(fmt.Sprint("stale", i))
				bounded("unknown streams")
			}
			// many streams cancelled one after the other, some also closed, some cancelled late
			for i := 0; i < 8; i++ {
				id := fmt.Sprint("s", i)
				ch := make(chan int)
				other := make(chan int)
				s.Start(id, reflect.ValueOf(ch))
				s.Start("o"+id, reflect.ValueOf(other))
				push(ch, 1)
				push(other, 1)
				if !rpEventually(wait, func() bool { return len(items(hc, id)) == 1 }) {
					t.Errorf("max %d stale %d stream %d: no item", max, stale, i)
				}
				s.Stop(id)
				if i%4 == 3 {
					s.Stop(id)
				}
				bounded("running stream cancelled")
				if i%2 == 0 {
					push(ch, 2)
				} else {
					close(ch)
				}
				if !done(hc, id, 1) || fmt.Sprint(items(hc, id)) != "[1]" {
					t.Errorf("max %d stale %d: cancelled stream %d has %d completions, items %v", max, stale, i, len(hc.completions(id)), items(hc, id))
				}
				push(other, 2)
				close(other)
				if !done(hc, "o"+id, 1) || fmt.Sprint(items(hc, "o"+id)) != "[1 2]" {
					t.Errorf("max %d stale %d: stream beside cancelled stream %d has %d completions, items %v", max, stale, i, len(hc.completions("o"+id)), items(hc, "o"+id))
				}
				if i%3 == 2 {
					s.Stop(id) // too late
				}
				bounded("ended stream cancelled")
			}
		}
	}
	// two running streams cancelled in any order, with values waiting
	for _, order := range [][]string{{"a", "b"}, {"b", "a"}} {
		hc := newRpHubConn("c")
		s := &streamer{conn: hc, maxCancels: 1}
		chs := map[string]chan int{"a": make(chan int), "b": make(chan int)}
		for id, ch := range chs {
			s.Start(id, reflect.ValueOf(ch))
		}
		for _, id := range order {
			s.Stop(id)
		}
		for _, id := range []string{"a", "b"} {
			push(chs[id], 1)
			if !done(hc, id, 1) || len(items(hc, id)) != 0 {
				t.Errorf("order %v: stream %v has %d completions, items %v", order, id, len(hc.completions(id)), items(hc, id))
			}
		}
	}
	// cancelled while an item is being sent
	{
		hc := newRpHubConn("c")
		s := &streamer{conn: hc, maxCancels: 1}
		first := true
		hc.onSend = func(m interface{}) {
			if _, ok := m.(streamItemMessage); ok && first {
				first = false
				s.Stop("a")
			}
		}
		ch := make(chan int)
		s.Start("a", reflect.ValueOf(ch))
		push(ch, 1)
		push(ch, 2)
		if !done(hc, "a", 1) || fmt.Sprint(items(hc, "a")) != "[1]" {
			t.Errorf("cancelled while sending: %v", hc.all())
		}
	}
	// cancelled before the start
	for _, max := range []uint{2, 0, math.MaxUint} {
		hc := newRpHubConn("c")
		s := &streamer{conn: hc, maxCancels: max}
		for i := 0; i < 6; i++ {
			id := fmt.Sprint("early", i)
			for j := 0; j < 3; j++ { // there is room for two
				s.Stop("stale")
			}
			s.Stop(id)
			ch := make(chan int)
			s.Start(id, reflect.ValueOf(ch))
			push(ch, 1)
			if !done(hc, id, 1) || len(items(hc, id)) != 0 {
				t.Errorf("early cancellation %d: %d completions, items %v", i, len(hc.completions(id)), items(hc, id))
			}
		}
		if n := remembered(s); n > 1 {
			t.Errorf("early cancellations: %d still remembered", n)
		}
	}
	// by message
	{
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
		ch := make(chan int)
		l.streamer.Start("m", reflect.ValueOf(ch))
		go func() { _ = l.Run(make(chan struct{}, 1)) }()
		hc.recv <- receiveResult{message: cancelInvocationMessage{Type: 5, InvocationID: "other"}}
		hc.recv <- receiveResult{message: cancelInvocationMessage{Type: 5, InvocationID: "m"}}
		hc.recv <- receiveResult{message: hubMessage{Type: 6}}
		rpEventually(wait, func() bool { return len(hc.recv) == 0 })
		time.Sleep(20 * time.Millisecond)
		push(ch, 1)
		if !done(hc, "m", 1) || len(items(hc, "m")) != 0 {
			t.Errorf("cancel message: %d completions, items %v", len(hc.completions("m")), items(hc, "m"))
		}
		hc.cancel()
	}
}
