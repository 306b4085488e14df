package signalr

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"
)

// rpCallLoop builds the parts of a loop the calls need.
func rpCallLoop(t *testing.T) (*loop, *rpHubConn) {
	hc := newRpHubConn("c09")
	p := &jsonHubProtocol{}
	p.setDebugLogger(rpLog())
	l := &loop{party: nil, protocol: p, hubConn: hc, info: rpLog(), dbg: rpLog(),
		invokeClient: newInvokeClient(p, 5*time.Second), streamClient: newStreamClient(p, 5*time.Second, 10, 0),
		streamer: &streamer{conn: hc}}
	return l, hc
}

func rpCallClient(t *testing.T) (*client, *rpHubConn) {
	l, hc := rpCallLoop(t)
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	c := &client{partyBase: newPartyBase(ctx, rpLog(), rpLog()), state: ClientConnected, loop: l, format: "json", cancelFunc: cancel}
	l.party = c
	return c, hc
}

func rpDrain(ch <-chan InvokeResult) (r []InvokeResult, closed bool) {
	for {
		select {
		case x, ok := <-ch:
			if !ok {
				return r, true
			}
			r = append(r, x)
		case <-time.After(2 * time.Second):
			return r, false
		}
	}
}

func rpSentIds(hc *rpHubConn, n int) []string {
	var ids []string
	rpEventually(2*time.Second, func() bool {
		ids = nil
		for _, m := range hc.all() {
			if x, ok := m.(invocationMessage); ok {
				ids = append(ids, x.InvocationID)
			}
		}
		return len(ids) >= n
	})
	return ids
}

func TestReplayC09(t *testing.T) {
	type tc struct {
		m     completionMessage
		value interface{}
		err   string
	}
	cases := []tc{
		{completionMessage{Type: 3, Result: json.RawMessage("42")}, 42.0, ""},
		{completionMessage{Type: 3, Result: json.RawMessage("0")}, 0.0, ""},
		{completionMessage{Type: 3, Result: json.RawMessage(`""`)}, "", ""},
		{completionMessage{Type: 3, Result: json.RawMessage("false")}, false, ""},
		{completionMessage{Type: 3, Result: json.RawMessage(`"x"`)}, "x", ""},
		{completionMessage{Type: 3, Error: "boom"}, nil, "boom"},
		{completionMessage{Type: 3, Error: " "}, nil, " "},
		{completionMessage{Type: 3}, nil, ""},
	}
	for rep := 0; rep < 40; rep++ {
		for i, x := range cases {
			c, hc := rpCallClient(t)
			// pending neighbours, before and after
			before := c.Invoke("before")
			rpSentIds(hc, 1)
			ch := c.Invoke("m", 1)
			rpSentIds(hc, 2)
			after := c.Invoke("after")
			ids := rpSentIds(hc, 3)
			if len(ids) != 3 {
				t.Fatalf("case %d: %d requests sent", i, len(ids))
			}
			m := x.m
			m.InvocationID = ids[1]
			if err := c.loop.handleCompletionMessage(m); err != nil {
				t.Fatalf("case %d: completion of a pending call reports %v", i, err)
			}
			r, closed := rpDrain(ch)
			if !closed {
				t.Fatalf("case %d: result channel stays open", i)
			}
			want := 0
			if x.value != nil || x.err != "" {
				want = 1
			}
			if len(r) != want {
				t.Fatalf("case %d: %d results: %#v", i, len(r), r)
			}
			if want == 1 && x.err == "" && (r[0].Error != nil || r[0].Value != x.value) {
				t.Fatalf("case %d: result %#v", i, r[0])
			}
			if want == 1 && x.err != "" && (r[0].Error == nil || r[0].Error.Error() != x.err || r[0].Value != nil) {
				t.Fatalf("case %d: result %#v", i, r[0])
			}
			if err := c.loop.handleCompletionMessage(m); err == nil {
				t.Fatalf("case %d: second completion of a call is no error", i)
			}
			for k, o := range []<-chan InvokeResult{before, after} {
				select {
				case x, ok := <-o:
					t.Fatalf("case %d: other call got %#v %v", i, x, ok)
				default:
				}
				if !c.loop.invokeClient.handlesInvocationID(ids[2*k]) {
					t.Fatalf("case %d: other call is forgotten", i)
				}
			}
			for k, o := range []<-chan InvokeResult{before, after} {
				_ = c.loop.handleCompletionMessage(completionMessage{Type: 3, InvocationID: ids[2*k], Result: json.RawMessage(fmt.Sprint(k + 7))})
				r, closed := rpDrain(o)
				if !closed || len(r) != 1 || r[0].Value != float64(k+7) {
					t.Fatalf("case %d: other call resolves to %#v", i, r)
				}
			}
		}
	}
	// unknown ids
	{
		c, hc := rpCallClient(t)
		ch := c.Invoke("m")
		ids := rpSentIds(hc, 1)
		for _, id := range []string{"", "nope", ids[0] + "0", " " + ids[0], ids[0] + " "} {
			if err := c.loop.handleCompletionMessage(completionMessage{Type: 3, InvocationID: id, Result: json.RawMessage("1")}); err == nil {
				t.Fatalf("completion with unknown id %q is no error", id)
			}
			if err := c.loop.invokeClient.receiveCompletionItem(completionMessage{Type: 3, InvocationID: id, Error: "x"}); err == nil {
				t.Fatalf("completion with unknown id %q is no error", id)
			}
		}
		select {
		case x := <-ch:
			t.Fatalf("call got %v", x)
		default:
		}
		// a value that cannot be decoded resolves the call, without a value
		_ = c.loop.handleCompletionMessage(completionMessage{Type: 3, InvocationID: ids[0], Result: json.RawMessage("{")})
		r, closed := rpDrain(ch)
		if !closed || len(r) > 1 || len(r) == 1 && r[0].Error == nil {
			t.Fatalf("undecodable value: %#v %v", r, closed)
		}
	}
	// Send: errors only, loop is never blocked by nobody reading
	{
		c, hc := rpCallClient(t)
		for i := 0; i < 20; i++ {
			ch := c.Send("m", i)
			ids := rpSentIds(hc, i+1)
			m := completionMessage{Type: 3, InvocationID: ids[len(ids)-1]}
			switch i % 3 {
			case 0:
				m.Error = "bad"
			case 1:
				m.Result = json.RawMessage("3")
			}
			if !rpWithin(t, 2*time.Second, "completion of a Send", func() { _ = c.loop.handleCompletionMessage(m) }) {
				return
			}
			n := 0
			for err := range ch {
				if err != nil {
					n++
				}
			}
			if (n == 1) != (i%3 == 0) {
				t.Fatalf("Send %d: %d errors", i, n)
			}
		}
	}
	// nobody reads: the loop must not block
	{
		l, _ := rpCallLoop(t)
		for _, m := range []completionMessage{{InvocationID: "a", Error: "x"}, {InvocationID: "a", Result: json.RawMessage("1")}} {
			l.invokeClient.newInvocation("a")
			rpWithin(t, 2*time.Second, "completion nobody waits for", func() {
				if err := l.handleCompletionMessage(m); err != nil {
					t.Errorf("completion nobody waits for: %v", err)
				}
			})
		}
	}
	// a failing request is one error and forgotten
	{
		c, hc := rpCallClient(t)
		pend := []<-chan InvokeResult{c.Invoke("pending"), c.Invoke("pending")}
		pids := rpSentIds(hc, 2)
		hc.mx.Lock()
		hc.fail["invocation"] = errRp
		hc.mx.Unlock()
		r, closed := rpDrain(c.Invoke("m"))
		if !closed || len(r) != 1 || !errors.Is(r[0].Error, errRp) {
			t.Fatalf("failing Invoke: %#v", r)
		}
		r, closed = rpDrain(c.PullStream("m"))
		if !closed || len(r) != 1 || !errors.Is(r[0].Error, errRp) {
			t.Fatalf("failing PullStream: %#v", r)
		}
		r, closed = rpDrain(c.PushStreams("m"))
		if !closed || len(r) != 1 || !errors.Is(r[0].Error, errRp) {
			t.Fatalf("failing PushStreams: %#v", r)
		}
		n := 0
		for err := range c.Send("m") {
			if errors.Is(err, errRp) {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("failing Send: %d errors", n)
		}
		for _, m := range hc.all() {
			if x, ok := m.(invocationMessage); ok && x.Target != "pending" && (c.loop.invokeClient.handlesInvocationID(x.InvocationID) || c.loop.streamClient.handlesInvocationID(x.InvocationID)) {
				t.Fatalf("failed call %q is still pending", x.InvocationID)
			}
		}
		n = 0
		for i, id := range pids {
			if err := c.loop.handleCompletionMessage(completionMessage{Type: 3, InvocationID: id, Result: json.RawMessage("5")}); err != nil {
				t.Fatalf("call that was pending while others failed: %v", err)
			}
			_ = i
		}
		for _, p := range pend {
			if r, closed := rpDrain(p); !closed || len(r) != 1 || r[0].Error != nil || r[0].Value != 5.0 {
				t.Fatalf("call that was pending while others failed: %#v", r)
			}
		}
	}
	// the peer answers before the send returned
	for _, kind := range []string{"invoke", "send", "push"} {
		c, hc := rpCallClient(t)
		hc.onSend = func(m interface{}) {
			if x, ok := m.(invocationMessage); ok {
				if err := c.loop.handleCompletionMessage(completionMessage{Type: 3, InvocationID: x.InvocationID, Error: "refused"}); err != nil {
					t.Errorf("%s: early completion: %v", kind, err)
				}
			}
		}
		var got []error
		rpWithin(t, 2*time.Second, "early completion of "+kind, func() {
			switch kind {
			case "invoke":
				for r := range c.Invoke("m") {
					got = append(got, r.Error)
				}
			case "push":
				for r := range c.PushStreams("m") {
					got = append(got, r.Error)
				}
			case "send":
				for err := range c.Send("m") {
					got = append(got, err)
				}
			}
		})
		if len(got) != 1 || got[0] == nil || got[0].Error() != "refused" {
			t.Fatalf("%s: early completion gives %v", kind, got)
		}
	}
	// many calls at once, completed concurrently and in other order; deletes at the same time
	for round := 0; round < 20; round++ {
		c, hc := rpCallClient(t)
		const n = 60
		chs := make([]<-chan InvokeResult, n)
		byArg := map[int]string{}
		for i := range chs {
			chs[i] = c.Invoke("m", i)
		}
		rpSentIds(hc, n)
		for _, m := range hc.all() {
			x := m.(invocationMessage)
			byArg[x.Arguments[0].(int)] = x.InvocationID
		}
		var wg sync.WaitGroup
		for i := n - 1; i >= 0; i-- {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				m := completionMessage{Type: 3, InvocationID: byArg[i], Result: json.RawMessage(fmt.Sprint(i))}
				if i%2 == 1 {
					m = completionMessage{Type: 3, InvocationID: byArg[i], Error: fmt.Sprint(i)}
				}
				if err := c.loop.invokeClient.receiveCompletionItem(m); err != nil {
					t.Errorf("completion %d: %v", i, err)
				}
			}(i)
		}
		wg.Wait()
		for i := range chs {
			r, closed := rpDrain(chs[i])
			if !closed || len(r) != 1 || i%2 == 0 && r[0].Value != float64(i) || i%2 == 1 && (r[0].Error == nil || r[0].Error.Error() != fmt.Sprint(i)) {
				t.Fatalf("call %d resolves to %#v (closed %v)", i, r, closed)
			}
		}
	}
	// a call given up while its completion arrives
	for round := 0; round < 300; round++ {
		l, _ := rpCallLoop(t)
		l.invokeClient.newInvocation("a")
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); l.invokeClient.deleteInvocation("a") }()
		go func() {
			defer wg.Done()
			_ = l.invokeClient.receiveCompletionItem(completionMessage{InvocationID: "a", Result: json.RawMessage("1")})
		}()
		wg.Wait()
	}
	// newInvokeResultChan passes on everything and ends
	for round := 0; round < 100; round++ {
		rc, ec := make(chan interface{}, 10), make(chan error, 10)
		ch := newInvokeResultChan(context.Background(), rc, ec)
		go func() {
			for i := 0; i < 10; i++ {
				rc <- i
			}
			if round%2 == 0 {
				close(rc)
			}
			ec <- errRp
			close(ec)
			if round%2 == 1 {
				close(rc)
			}
		}()
		r, closed := rpDrain(ch)
		if !closed || len(r) != 11 {
			t.Fatalf("newInvokeResultChan: %d results, closed %v", len(r), closed)
		}
		next := 0
		for _, x := range r {
			if x.Error != nil {
				continue
			}
			if x.Value != next {
				t.Fatalf("newInvokeResultChan: %v instead of %v", x.Value, next)
			}
			next++
		}
		if next != 10 {
			t.Fatalf("newInvokeResultChan: %d values", next)
		}
	}
}
