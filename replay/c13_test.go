package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
)

// rpPings runs a loop with the given intervals; do may send messages and writes. It returns the times of the pings and
// the end of the loop, relative to the start.
type rpRun struct {
	hc    *rpHubConn
	l     *loop
	start time.Time
	mx    sync.Mutex
	pings []time.Time
	early []string
}

func rpTimers(t *testing.T, keepAlive, timeout time.Duration) *rpRun {
	l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} }, KeepAliveInterval(keepAlive), TimeoutInterval(timeout))
	r := &rpRun{hc: hc, l: l}
	last := time.Now()
	hc.stamp = last
	hc.onSend = func(m interface{}) { // under hc.mx
		now := time.Now()
		if x, ok := m.(hubMessage); ok && x.Type == 6 {
			r.mx.Lock()
			r.pings = append(r.pings, now)
			if d := now.Sub(hc.stamp); d < keepAlive {
				r.early = append(r.early, fmt.Sprintf("ping %v after the last write, the keep-alive interval is %v", d, keepAlive))
			}
			r.mx.Unlock()
		}
	}
	r.start = time.Now()
	return r
}

func (r *rpRun) run(within time.Duration) (err error, ended bool, after time.Duration) {
	done := make(chan error, 1)
	go func() { done <- r.l.Run(make(chan struct{}, 1)) }()
	select {
	case err = <-done:
		return err, true, time.Since(r.start)
	case <-time.After(within):
		r.hc.cancel()
		<-done
		return nil, false, within
	}
}

// rpTries fails only if the scenario fails three times: a loaded machine may be late once
func rpTries(t *testing.T, what string, f func() string) {
	t.Run(what, func(t *testing.T) {
		t.Parallel()
		var s string
		for i := 0; i < 3; i++ {
			if s = f(); s == "" {
				return
			}
		}
		t.Error(s)
	})
}

func TestReplayC13(t *testing.T) {
	const ms = time.Millisecond
	rpTries(t, "idle connection", func() string {
		r := rpTimers(t, 200*ms, 20*time.Second)
		err, ended, _ := r.run(1500 * ms)
		if ended {
			return fmt.Sprint("the loop ended: ", err)
		}
		if len(r.early) > 0 {
			return r.early[0]
		}
		if len(r.pings) < 5 {
			return fmt.Sprintf("%d pings in 1.5 s, the interval is 200 ms", len(r.pings))
		}
		return ""
	})
	for _, at := range []time.Duration{250 * ms, 500 * ms, 900 * ms} {
		rpTries(t, fmt.Sprint("write at ", at), func() string {
			r := rpTimers(t, time.Second, 20*time.Second)
			time.AfterFunc(at, func() { _ = r.hc.StreamItem("x", 1) })
			_, ended, _ := r.run(2500 * ms)
			if ended {
				return "the loop ended"
			}
			if len(r.early) > 0 {
				return r.early[0]
			}
			var first time.Duration
			if len(r.pings) > 0 {
				first = r.pings[0].Sub(r.start)
			}
			if first == 0 || first > at+time.Second+80*ms {
				return fmt.Sprintf("write at %v, keep-alive interval 1 s, first ping at %v", at, first)
			}
			return ""
		})
	}
	rpTries(t, "many writes", func() string {
		r := rpTimers(t, 300*ms, 20*time.Second)
		stop := make(chan struct{})
		go func() {
			for i := 0; i < 35; i++ {
				_ = r.hc.StreamItem("x", 1)
				time.Sleep(37 * ms)
			}
			close(stop)
		}()
		_, _, _ = r.run(2 * time.Second)
		if len(r.early) > 0 {
			return r.early[0]
		}
		if len(r.pings) == 0 {
			return "no ping after the writes ended"
		}
		return ""
	})
	kinds := map[string]interface{}{
		"ping":       hubMessage{Type: 6},
		"invocation": invocationMessage{Type: 1, Target: "nothing"},
		"cancel":     cancelInvocationMessage{Type: 5, InvocationID: "c"},
		"item":       streamItemMessage{Type: 2, InvocationID: "s", Item: json.RawMessage("1")},
		"completion": completionMessage{Type: 3, InvocationID: "r", Result: json.RawMessage("1")},
	}
	for name, m := range kinds {
		m := m
		rpTries(t, "messages restart the timeout: "+name, func() string {
			r := rpTimers(t, 10*time.Second, 500*ms)
			up := r.l.streamClient.newUpstreamChannel("s")
			go func() {
				for range up {
				}
			}()
			// messages every 300 ms, then silence
			var mx sync.Mutex
			last, gap := time.Now(), time.Duration(0)
			go func() {
				for i := 0; i < 4; i++ {
					time.Sleep(300 * ms)
					if _, ok := m.(completionMessage); ok {
						_, _ = r.l.invokeClient.newInvocation("r")
					}
					mx.Lock()
					if d := time.Since(last); d > gap {
						gap = d
					}
					last = time.Now()
					r.hc.recv <- receiveResult{message: m}
					mx.Unlock()
				}
			}()
			err, ended, after := r.run(4 * time.Second)
			mx.Lock()
			defer mx.Unlock()
			switch {
			case !ended:
				return "no timeout"
			case gap > 400*ms:
				return "" // this machine is too slow now
			case err == nil || !strings.Contains(err.Error(), "timeout"):
				return fmt.Sprint("ended with ", err)
			case r.start.Add(after).Sub(last) < 500*ms:
				return fmt.Sprintf("ended %v after a message, the timeout is 500 ms", r.start.Add(after).Sub(last))
			case r.start.Add(after).Sub(last) > 800*ms:
				return fmt.Sprintf("ended %v after the last message, the timeout is 500 ms", r.start.Add(after).Sub(last))
			}
			return ""
		})
	}
	rpTries(t, "own writes do not extend the timeout", func() string {
		r := rpTimers(t, 60*ms, 600*ms)
		err, ended, after := r.run(4 * time.Second)
		if !ended || err == nil || !strings.Contains(err.Error(), "timeout") || after < 600*ms || after > 1000*ms {
			return fmt.Sprintf("timeout 600 ms, pings every 60 ms: ended %v after %v with %v", ended, after, err)
		}
		if len(r.pings) < 4 {
			return fmt.Sprintf("%d pings in 600 ms, the keep-alive interval is 60 ms", len(r.pings))
		}
		return ""
	})
	for _, k := range []time.Duration{250 * ms, 450 * ms, 5 * time.Second} {
		rpTries(t, fmt.Sprint("writes do not extend the timeout, keep-alive ", k), func() string {
			r := rpTimers(t, k, 600*ms)
			go func() {
				for r.hc.ctx.Err() == nil {
					_ = r.hc.StreamItem("x", 1)
					time.Sleep(5 * ms)
				}
			}()
			err, ended, after := r.run(3 * time.Second)
			if !ended || err == nil || !strings.Contains(err.Error(), "timeout") || after < 600*ms || after > 1000*ms {
				return fmt.Sprintf("timeout 600 ms, a write every 5 ms: ended %v after %v with %v", ended, after, err)
			}
			return ""
		})
	}
	rpTries(t, "failed ping", func() string {
		r := rpTimers(t, 60*ms, 20*time.Second)
		r.hc.fail["ping"] = errRp
		err, ended, _ := r.run(2 * time.Second)
		if !ended || err == nil {
			return fmt.Sprintf("after a failed ping: ended %v, %v", ended, err)
		}
		return ""
	})
	// the configuration
	for i := 0; i < 20; i++ {
		a, b := time.Duration(i*7+1)*time.Second, time.Duration(i*5+2)*time.Second
		for _, first := range []bool{true, false} {
			o := []func(Party) error{TimeoutInterval(a), KeepAliveInterval(b)}
			if !first {
				o[0], o[1] = o[1], o[0]
			}
			o = append(o, HubFactory(func() HubInterface { return &Hub{} }), Logger(log.NewNopLogger(), false))
			s, err := NewServer(context.Background(), o...)
			if err != nil || s.timeout() != a || s.keepAliveInterval() != b {
				t.Errorf("configured %v, %v: %v, %v", a, b, s.timeout(), s.keepAliveInterval())
			}
		}
	}
	// every write is remembered
	conn := newRpConn("w")
	p := &jsonHubProtocol{}
	p.setDebugLogger(rpLog())
	h := newHubConnection(conn, p, 1000, rpLog())
	for name, f := range map[string]func() error{
		"invocation":        func() error { return h.SendInvocation("1", "x", nil) },
		"stream invocation": func() error { return h.SendStreamInvocation("1", "x", nil) },
		"with streams":      func() error { return h.SendInvocationWithStreamIds("1", "x", nil, nil) },
		"stream item":       func() error { return h.StreamItem("1", 1) },
		"completion":        func() error { return h.Completion("1", 1, "") },
		"ping":              func() error { return h.Ping() },
	} {
		time.Sleep(2 * ms)
		before := time.Now()
		if err := f(); err != nil {
			t.Error(err)
		}
		if s := h.LastWriteStamp(); s.Before(before) || s.After(time.Now()) {
			t.Errorf("%s: written after %v, last write %v", name, before, s)
		}
	}
	s := h.LastWriteStamp()
	ch := h.Receive()
	conn.in <- []byte("{\"type\":6}\x1e")
	<-ch
	if h.LastWriteStamp() != s {
		t.Error("receiving a message counts as a write")
	}
	conn.cancel()
}
