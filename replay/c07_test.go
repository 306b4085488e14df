package signalr

import (
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"
)

func rpStreamItems(hc *rpHubConn, id string) (items []interface{}, completions int, wrong string) {
	for _, m := range hc.all() {
		switch x := m.(type) {
		case streamItemMessage:
			if x.InvocationID == id {
				items = append(items, x.Item)
				if completions > 0 {
					wrong = "an item after the completion"
				}
			}
		case completionMessage:
			if x.InvocationID == id {
				completions++
				if x.Error != "" || x.Result != nil {
					wrong = fmt.Sprintf("completion %v", x)
				}
			}
		}
	}
	return
}

func TestReplayC07(t *testing.T) {
	const wait = 2 * time.Second
	expect := func(what string, hc *rpHubConn, id string, want []interface{}, n int) {
		t.Helper()
		items, completions, wrong := rpStreamItems(hc, id)
		if fmt.Sprint(items) != fmt.Sprint(want) || completions != n || wrong != "" {
			t.Errorf("%s: items %v, %d completions %s, want %v, %d completions", what, items, completions, wrong, want, n)
		}
	}
	// streams of several kinds, also with values that look like nothing, and failing sends
	for _, fail := range []bool{false, true} {
		for _, vals := range [][]interface{}{{}, {1}, {nil}, {1, nil, 2}, {0, "", false, nil, nil}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, {errors.New("x"), 3}, {5, 5, 5}} {
			hc := newRpHubConn("c")
			if fail {
				hc.fail["item"] = errRp
			}
			s := &streamer{conn: hc, maxCancels: 3}
			ch := make(chan interface{}, 1)
			other := make(chan int)
			s.Start("o", reflect.ValueOf(other))
			s.Start("s", reflect.ValueOf(ch))
			other <- 17
			for _, v := range vals {
				ch <- v
			}
			expectLater := func() bool { i, c, _ := rpStreamItems(hc, "s"); return len(i) == len(vals) && c == 0 }
			if !rpEventually(wait, expectLater) {
				expect("open stream", hc, "s", vals, 0)
			}
			close(ch)
			rpEventually(wait, func() bool { _, c, _ := rpStreamItems(hc, "s"); return c > 0 })
			time.Sleep(5 * time.Millisecond)
			expect("closed stream", hc, "s", vals, 1)
			expect("other stream", hc, "o", []interface{}{17}, 0)
			close(other)
			rpEventually(wait, func() bool { _, c, _ := rpStreamItems(hc, "o"); return c > 0 })
			expect("other stream", hc, "o", []interface{}{17}, 1)
		}
	}
	// the connection ends
	for _, n := range []int{0, 1, 3} {
		for _, closing := range []bool{false, true} {
			hc := newRpHubConn("c")
			s := &streamer{conn: hc, maxCancels: 3}
			ch := make(chan int)
			s.Start("s", reflect.ValueOf(ch))
			var want []interface{}
			for i := 0; i < n; i++ {
				ch <- i
				want = append(want, i)
			}
			rpEventually(wait, func() bool { i, _, _ := rpStreamItems(hc, "s"); return len(i) == n })
			hc.cancel()
			if closing {
				close(ch)
			} else {
				ch <- 99
				select {
				case ch <- 100:
				case <-time.After(20 * time.Millisecond):
				}
			}
			time.Sleep(10 * time.Millisecond)
			expect("cancelled connection", hc, "s", want, 0)
		}
	}
	// the same id again
	{
		hc := newRpHubConn("c")
		s := &streamer{conn: hc, maxCancels: 3}
		for i := 0; i < 2; i++ {
			ch := make(chan int, 1)
			ch <- i
			close(ch)
			s.Start("s", reflect.ValueOf(ch))
			rpEventually(wait, func() bool { return len(hc.completions("s")) == i+1 })
		}
		time.Sleep(5 * time.Millisecond)
		if len(hc.all()) != 4 {
			t.Errorf("two streams: %v", hc.all())
		}
	}
	// PushStreams
	for n := 0; n <= 8; n++ {
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
		var args []interface{}
		var chans []chan int
		for i := 0; i < n; i++ {
			if i == 2 {
				args = append(args, "arg", nil)
			}
			ch := make(chan int, 2)
			ch <- 10 * i
			ch <- 10*i + 1
			close(ch)
			chans = append(chans, ch)
			args = append(args, ch)
		}
		if _, err := l.PushStreams("m", "id", args...); err != nil {
			t.Fatal(err)
		}
		inv, ok := hc.all()[0].(invocationMessage)
		if !ok || len(inv.StreamIds) != n || len(inv.Arguments) != len(args)-n {
			t.Fatalf("%d channels are announced by %v", n, hc.all()[0])
		}
		for i, id := range inv.StreamIds {
			rpEventually(wait, func() bool { return len(hc.completions(id)) == 1 })
			expect(fmt.Sprintf("channel %d of %d", i, n), hc, id, []interface{}{10 * i, 10*i + 1}, 1)
		}
		// a failed call streams nothing
		l, hc = rpServerLoop(t, func() HubInterface { return &Hub{} })
		hc.fail["invocation"] = errRp
		ch := make(chan int, 1)
		ch <- 1
		if _, err := l.PushStreams("m", "id", ch); err == nil {
			t.Error("failed call succeeds")
		}
		time.Sleep(5 * time.Millisecond)
		if len(ch) != 1 || len(hc.all()) != 1 {
			t.Errorf("failed call streams: %v", hc.all())
		}
	}
	// a returned channel
	{
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
		ch := make(chan int, 3)
		ch <- 1
		ch <- 0
		close(ch)
		l.returnInvocationResult(invocationMessage{Type: 4, InvocationID: "s"}, []reflect.Value{reflect.ValueOf(ch)})
		rpEventually(wait, func() bool { return len(hc.completions("s")) == 1 })
		expect("returned channel", hc, "s", []interface{}{1, 0}, 1)
	}
}
