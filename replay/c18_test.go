package signalr

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sync"
	"testing"
	"time"
)

func TestReplayC18(t *testing.T) {
	const wait = 2 * time.Second
	newClient := func(timeout time.Duration, buf, max uint) (*streamClient, *invokeClient) {
		p := &jsonHubProtocol{}
		p.setDebugLogger(rpLog())
		return newStreamClient(p, timeout, buf, max), newInvokeClient(p, timeout)
	}
	raw := func(v interface{}) interface{} { b, _ := json.Marshal(v); return json.RawMessage(b) }
	inv := func(ids ...string) invocationMessage { return invocationMessage{Type: 1, Target: "up", StreamIds: ids} }
	chInt := reflect.TypeOf((<-chan int)(nil))
	bind := func(c *streamClient, m invocationMessage, n int) (<-chan int, error) {
		v, ok, err := c.buildChannelArgument(m, chInt, n)
		if err != nil {
			return nil, err
		}
		if !ok {
			t.Error("a receivable channel is not a stream")
		}
		return v.Interface().(chan int), nil
	}
	drain := func(ch <-chan int) (r []int, closed bool) {
		for {
			select {
			case v, ok := <-ch:
				if !ok {
					return r, true
				}
				r = append(r, v)
			default:
				return r, false
			}
		}
	}
	// Several streams, interleaved, with two of them ending
	for _, max := range []uint{0, 3} {
		c, i := newClient(wait, 20, max)
		m := inv("a", "b", "c")
		var chs []<-chan int
		for n := range m.StreamIds {
			ch, err := bind(c, m, n)
			if err != nil {
				t.Fatalf("stream %d of 3 refused: %v", n, err)
			}
			chs = append(chs, ch)
		}
		for n := 0; n < 10; n++ {
			for k, id := range m.StreamIds {
				if n >= 5 && id == "a" {
					continue
				}
				if err := c.receiveStreamItem(streamItemMessage{Type: 2, InvocationID: id, Item: raw(100*k + n)}); err != nil {
					t.Errorf("item of %v: %v", id, err)
				}
			}
			if n == 4 {
				if err := c.receiveCompletionItem(completionMessage{Type: 3, InvocationID: "a"}, i); err != nil {
					t.Errorf("completion: %v", err)
				}
				if c.handlesInvocationID("a") || !c.handlesInvocationID("b") || !c.handlesInvocationID("c") {
					t.Error("completion of a forgets other streams or keeps a")
				}
			}
		}
		for k, ch := range chs {
			want := []int{}
			for n := 0; n < 10; n++ {
				if k != 0 || n < 5 {
					want = append(want, 100*k+n)
				}
			}
			got, closed := drain(ch)
			if fmt.Sprint(got) != fmt.Sprint(want) || closed != (k == 0) {
				t.Errorf("stream %d got %v closed %v, want %v closed %v", k, got, closed, want, k == 0)
			}
		}
		if c.receiveStreamItem(streamItemMessage{Type: 2, InvocationID: "a", Item: raw(1)}) == nil {
			t.Error("an item of an ended stream is not an error")
		}
		if c.receiveStreamItem(streamItemMessage{Type: 2, InvocationID: "zz", Item: raw(1)}) == nil {
			t.Error("an item of an unknown stream is not an error")
		}
		if c.receiveCompletionItem(completionMessage{Type: 3, InvocationID: "zz"}, i) == nil {
			t.Error("the completion of an unknown stream is not an error")
		}
	}
	// The limit counts bound streams, whether items were received or not
	for _, started := range []int{0, 1, 2} {
		c, i := newClient(wait, 5, 2)
		for n, id := range []string{"a", "b"} {
			if _, err := bind(c, inv(id), 0); err != nil {
				t.Errorf("stream within the limit: %v", err)
			}
			if n < started {
				_ = c.receiveStreamItem(streamItemMessage{InvocationID: id, Item: raw(1)})
			}
		}
		if _, err := bind(c, inv("c"), 0); err == nil {
			t.Errorf("stream 3 of 2 is accepted (%d started)", started)
		} else if c.handlesInvocationID("c") {
			t.Error("a refused stream is bound")
		}
		_ = c.receiveCompletionItem(completionMessage{InvocationID: "a"}, i)
		if _, err := bind(c, inv("c"), 0); err != nil {
			t.Errorf("a slot is not given back: %v", err)
		}
		if _, err := bind(c, inv("d"), 1); err == nil {
			t.Error("a channel without stream id is accepted")
		}
	}
	// An id is taken once
	{
		c, _ := newClient(wait, 5, 0)
		ch, _ := bind(c, inv("a"), 0)
		if _, err := bind(c, inv("a"), 0); err == nil {
			t.Error("a running stream is replaced")
		}
		_ = c.receiveStreamItem(streamItemMessage{InvocationID: "a", Item: raw(1)})
		if got, _ := drain(ch); len(got) != 1 {
			t.Error("a running stream lost its item")
		}
	}
	// Not streams
	{
		c, _ := newClient(wait, 5, 0)
		for _, x := range []interface{}{0, "", (chan<- int)(nil), []int{}} {
			if _, ok, err := c.buildChannelArgument(inv("a"), reflect.TypeOf(x), 0); ok || err != nil || c.handlesInvocationID("a") {
				t.Errorf("%T is taken as a stream: %v %v", x, ok, err)
			}
		}
	}
	// Completions with a result, an error, an unfitting result; ended streams can be started again
	for _, m := range []completionMessage{
		{Result: raw(7)}, {Error: "up"}, {Result: raw("x")}, {}, {Error: "up", Result: raw(7)},
	} {
		for _, running := range []bool{false, true} {
			c, i := newClient(wait, 5, 0)
			other, _ := bind(c, inv("b"), 0)
			first := m
			for round := 0; round < 2; round++ {
				m, running := first, running
				if round == 1 {
					// the same id again: a completion with a result and no items
					m, running = completionMessage{Result: raw(7)}, false
				}
				m.InvocationID = "a"
				ch, err := bind(c, inv("a"), 0)
				if err != nil {
					t.Errorf("round %d: %v", round, err)
					continue
				}
				res, errs := i.newInvocation("a")
				if running {
					_ = c.receiveStreamItem(streamItemMessage{InvocationID: "a", Item: raw(1)})
				}
				err = c.receiveCompletionItem(m, i)
				got, closed := drain(ch)
				if running && len(got) > 0 {
					got = got[1:]
				}
				item := m.Error == "" && fmt.Sprintf("%s", m.Result) == "7" && !running
				if item != (fmt.Sprint(got) == "[7]") || !closed {
					t.Errorf("%+v running %v: delivered %v closed %v error %v", m, running, got, closed, err)
				}
				if m.Error == "" && m.Result != nil && !item != (err != nil) {
					t.Errorf("%+v running %v round %d: error %v", m, running, round, err)
				}
				if m.Error != "" {
					select {
					case e := <-errs:
						if e == nil || e.Error() != m.Error {
							t.Errorf("the call got %v", e)
						}
					default:
						t.Error("an error completion does not reach the call")
					}
				}
				if i.handlesInvocationID("a") || c.handlesInvocationID("a") {
					t.Errorf("%+v running %v: not forgotten", m, running)
				}
				_ = res
			}
			if g, closed := drain(other); len(g) != 0 || closed {
				t.Error("another stream got something")
			}
		}
	}
	// An item that does not fit delivers nothing
	{
		c, _ := newClient(wait, 5, 0)
		ch, _ := bind(c, inv("a"), 0)
		if c.receiveStreamItem(streamItemMessage{InvocationID: "a", Item: raw("text")}) == nil {
			t.Error("an item of the wrong type is accepted")
		}
		if got, _ := drain(ch); len(got) != 0 {
			t.Errorf("an item of the wrong type delivers %v", got)
		}
	}
	// A slow reader: items time out, are delivered later at most once, in order, and the stream goes on
	{
		c, i := newClient(30*time.Millisecond, 0, 0)
		ch, _ := bind(c, inv("a"), 0)
		err := c.receiveStreamItem(streamItemMessage{InvocationID: "a", Item: raw(1)})
		if _, ok := err.(*hubChanTimeoutError); !ok {
			t.Errorf("slow reader: %v", err)
		}
		if !c.handlesInvocationID("a") {
			t.Error("slow reader: the stream is forgotten")
		}
		var got []int
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range ch {
				got = append(got, v)
			}
		}()
		if err := c.receiveStreamItem(streamItemMessage{InvocationID: "a", Item: raw(2)}); err != nil {
			t.Errorf("reader is back: %v", err)
		}
		_ = c.receiveCompletionItem(completionMessage{InvocationID: "a"}, i)
		rpWithin(t, wait, "reader of a completed stream", wg.Wait)
		if fmt.Sprint(got) != "[1 2]" {
			t.Errorf("slow reader got %v", got)
		}
	}
	// A stream deleted while an item waits
	{
		c, _ := newClient(wait, 0, 0)
		upChan := c.newUpstreamChannel("p")
		c.mx.Lock()
		v := c.upstreamChannels["p"]
		c.mx.Unlock()
		done := make(chan error, 1)
		go func() { done <- c.sendChanValSave(v, reflect.ValueOf(1)) }()
		time.Sleep(10 * time.Millisecond)
		c.deleteUpstreamChannel("p")
		c.deleteUpstreamChannel("p")
		select {
		case err := <-done:
			if err == nil {
				t.Error("an item of a deleted stream is a success")
			}
		case <-time.After(wait / 2):
			t.Error("an item of a deleted stream is not refused")
		}
		if _, ok := <-upChan; ok {
			t.Error("a deleted stream delivers")
		}
	}
	// Dispatch
	{
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} }, ChanReceiveTimeout(20*time.Millisecond), StreamBufferCapacity(1))
		ch, err := bind(l.streamClient, inv("a"), 0)
		if err != nil {
			t.Fatal(err)
		}
		for n := 0; n < 2; n++ {
			if err := l.handleStreamItemMessage(streamItemMessage{InvocationID: "a", Item: raw(n)}); err != nil {
				t.Errorf("dispatch: %v", err)
			}
		}
		if x := hc.completions("a"); len(x) != 1 || x[0].Error == "" {
			t.Errorf("a timeout is answered by %v", x)
		}
		if v := <-ch; v != 0 {
			t.Errorf("dispatch delivered %v", v)
		}
		if l.handleStreamItemMessage(streamItemMessage{InvocationID: "b", Item: raw(1)}) == nil {
			t.Error("dispatch: an unknown stream is not an error")
		}
		if len(hc.all()) != 1 {
			t.Errorf("sent %v", hc.all())
		}
	}
}
