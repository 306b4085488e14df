package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
)

// replay: race

type rpHub17 struct {
	Hub
	w  *rpWorld17
	id string
}

type rpWorld17 struct {
	mx     sync.Mutex
	made   map[string][]*rpHub17
	calls  map[string][]string
	panics map[string]bool
}

func (w *rpWorld17) add(h *rpHub17, what string) {
	w.mx.Lock()
	defer w.mx.Unlock()
	if m := w.made[h.id]; len(m) == 0 || m[0] != h {
		what += " on another instance"
	}
	if h.ConnectionID() != h.id {
		what += " with the context of another connection"
	}
	w.calls[h.id] = append(w.calls[h.id], what)
}

func (h *rpHub17) may(what string) {
	h.w.mx.Lock()
	p := h.w.panics[h.id+what]
	h.w.mx.Unlock()
	if p {
		panic("rp")
	}
}

func (h *rpHub17) OnConnected(id string)    { h.w.add(h, "connected "+id); h.may("c") }
func (h *rpHub17) OnDisconnected(id string) { h.w.add(h, "disconnected "+id); h.may("d") }
func (h *rpHub17) Call(n int)               { h.w.add(h, "call") }

func (w *rpWorld17) count(id, what string) (n int) {
	w.mx.Lock()
	defer w.mx.Unlock()
	for _, c := range w.calls[id] {
		if c == what {
			n++
		}
	}
	return
}

func rpServer17(t *testing.T) (*server, *rpWorld17) {
	w := &rpWorld17{made: map[string][]*rpHub17{}, calls: map[string][]string{}, panics: map[string]bool{}}
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	s, err := NewServer(ctx, PerConnectionHubFactory(func(id string) HubInterface {
		h := &rpHub17{w: w, id: id}
		w.mx.Lock()
		w.made[id] = append(w.made[id], h)
		p := w.panics[id+"f"]
		w.mx.Unlock()
		runtime.Gosched()
		if p {
			panic("rp factory")
		}
		return h
	}), Logger(log.NewNopLogger(), true))
	if err != nil {
		t.Fatal(err)
	}
	return s.(*server), w
}

func rpLoop17(s *server, hc HubConnection) *loop {
	p := &jsonHubProtocol{}
	p.setDebugLogger(rpLog())
	return &loop{party: s, protocol: p, hubConn: hc, info: rpLog(), dbg: rpLog(),
		invokeClient: newInvokeClient(p, s.chanReceiveTimeout()),
		streamClient: newStreamClient(p, s.chanReceiveTimeout(), s.streamBufferCapacity(), s.maxConcurrentStreams()),
		streamer:     &streamer{conn: hc, maxCancels: s.maxConcurrentStreams()}}
}

func (s *server) rpEntries() int {
	s.connectionHubsMutex.Lock()
	defer s.connectionHubsMutex.Unlock()
	return len(s.connectionHubs)
}

func TestReplayC17(t *testing.T) {
	// each connection on its own goroutine, the disconnect follows at once or after a while
	for _, procs := range []int{1, 8} {
		old := runtime.GOMAXPROCS(procs)
		for _, wait := range []time.Duration{0, time.Millisecond} {
			s, w := rpServer17(t)
			var wg sync.WaitGroup
			const conns, calls = 30, 4
			for i := 0; i < conns; i++ {
				wg.Add(1)
				go func(id string, i int) {
					defer wg.Done()
					hc := newRpHubConn(id)
					l := rpLoop17(s, hc)
					s.onConnected(hc)
					for k := 0; k < calls; k++ {
						l.handleInvocationMessage(rpInvoke("call", k))
						if wait > 0 {
							time.Sleep(wait)
						}
						s.prefixLoggers(id)
					}
					s.onDisconnected(hc)
				}(fmt.Sprint("c", i), i)
			}
			rpWithin(t, 10*time.Second, "connections", wg.Wait)
			rpEventually(3*time.Second, func() bool {
				for i := 0; i < conns; i++ {
					id := fmt.Sprint("c", i)
					if w.count(id, "connected "+id) < 1 || w.count(id, "disconnected "+id) < 1 || w.count(id, "call") < calls {
						return false
					}
				}
				return true
			})
			time.Sleep(20 * time.Millisecond)
			for i := 0; i < conns; i++ {
				id := fmt.Sprint("c", i)
				w.mx.Lock()
				if len(w.made[id]) != 1 {
					t.Error("connection", id, "has", len(w.made[id]), "hub instances")
				}
				if len(w.calls[id]) != calls+2 {
					t.Error("connection", id, "calls", w.calls[id])
				}
				for _, c := range w.calls[id] {
					if c != "call" && c != "connected "+id && c != "disconnected "+id {
						t.Error("connection", id, c)
					}
				}
				w.mx.Unlock()
			}
			if n := s.rpEntries(); n != 0 {
				t.Error(n, "instances are kept after the disconnect")
			}
		}
		runtime.GOMAXPROCS(old)
	}
	// connections which come and go while another stays connected
	s, w := rpServer17(t)
	stay := newRpHubConn("stay")
	s.onConnected(stay)
	hub := s.invocationTarget(stay)
	for i := 0; i < 5; i++ {
		for _, id := range []string{"a", "b", "stayx", "STAY", "sta", ""} {
			hc := newRpHubConn(id)
			s.onConnected(hc)
			if s.invocationTarget(hc) == hub {
				t.Errorf("connection %q has the hub of another", id)
			}
			s.onDisconnected(hc)
			if s.invocationTarget(stay) != hub {
				t.Error("the hub of a connection changed")
			}
			w.mx.Lock()
			n := len(w.made[id])
			w.mx.Unlock()
			if n != i+1 {
				t.Error("reconnected", i, "times with", n, "instances")
			}
		}
	}
	if _, ok := s.getConnectionHub("stay"); !ok || s.rpEntries() != 1 {
		t.Error("instances", s.rpEntries(), ok)
	}
	if len(w.made["stay"]) != 1 {
		t.Error("instances of the staying connection", len(w.made["stay"]))
	}
	for i := 0; i < 1200; i++ {
		s.onConnected(newRpHubConn(fmt.Sprint("many", i)))
	}
	if s.invocationTarget(stay) != hub || s.rpEntries() != 1201 {
		t.Error("many connections: the hub of a connection changed, instances", s.rpEntries())
	}
	for i := 0; i < 1200; i++ {
		s.onDisconnected(newRpHubConn(fmt.Sprint("many", i)))
	}
	x0, y0 := newRpHubConn("Case"), newRpHubConn("cASE")
	s.onConnected(x0)
	s.onConnected(y0)
	if s.invocationTarget(x0) == s.invocationTarget(y0) {
		t.Error("two connections have the same hub")
	}
	s.onDisconnected(x0)
	s.onDisconnected(y0)
	func() {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		for i := 0; i < 200; i++ {
			hc := newRpHubConn("again")
			s.onConnected(hc)
			s.onDisconnected(hc)
			if _, ok := s.getConnectionHub("again"); ok {
				t.Error("the hub of a disconnected connection is kept")
				break
			}
		}
	}()
	s.onDisconnected(stay)
	if s.rpEntries() != 0 {
		t.Error("instances are kept after the disconnect")
	}
	// panics of the callbacks and of the factory leave no instance behind
	for _, where := range []string{"c", "d", "f", "cd"} {
		s, w := rpServer17(t)
		for _, r := range where {
			w.panics["p"+string(r)] = true
		}
		hc := newRpHubConn("p")
		s.onConnected(hc)
		s.onDisconnected(hc)
		time.Sleep(20 * time.Millisecond)
		if s.rpEntries() != 0 {
			t.Error("panic in", where, ": an instance is kept after the disconnect")
		}
		if where != "f" && (len(w.made["p"]) != 1 || w.count("p", "connected p") != 1 || w.count("p", "disconnected p") != 1) {
			t.Error("panic in", where, len(w.made["p"]), w.calls)
		}
	}
	// the context of a hub
	s, w = rpServer17(t)
	x, y := newRpHubConn("x"), newRpHubConn("y")
	for _, c := range []*rpHubConn{x, y} {
		s.onConnected(c)
	}
	time.Sleep(20 * time.Millisecond)
	for _, c := range []*rpHubConn{x, y} {
		h := s.invocationTarget(c).(*rpHub17)
		h.Items().Store("k", c.id)
		if v, _ := c.items.Load("k"); v != c.id {
			t.Error("items of another connection")
		}
		if h.ConnectionID() != c.id || h.Context() != c.ctx {
			t.Error("context of another connection", h.ConnectionID())
		}
		h.Clients().Caller().Send("hi", c.id)
		_ = h.Close("bye", true)
		if !rpEventually(time.Second, func() bool { return len(c.all()) == 2 }) {
			t.Error("the caller is not the own client", c.all())
		}
		closed := false
		for _, m := range c.all() {
			if m, ok := m.(closeMessage); ok {
				closed = m.Error == "bye" && m.AllowReconnect
			}
		}
		if !closed {
			t.Error("the hub does not close its connection", c.all())
		}
	}
	s.invocationTarget(x).(*rpHub17).Abort()
	if x.ctx.Err() == nil || y.ctx.Err() != nil {
		t.Error("the hub does not abort its connection")
	}
	// without a per-connection factory every invocation gets a new hub
	var mx sync.Mutex
	seen := map[*rpHub20c]bool{}
	l, hc := rpServerLoop(t, func() HubInterface {
		h := &rpHub20c{}
		mx.Lock()
		defer mx.Unlock()
		seen[h] = true
		return h
	})
	got := map[*rpHub20c]bool{}
	for i := 0; i < 5; i++ {
		h := l.party.invocationTarget(hc).(*rpHub20c)
		if got[h] {
			t.Error("a hub is reused")
		}
		if h.context == nil || h.ConnectionID() != "rp" {
			t.Error("a hub is not initialized")
		}
		got[h] = true
	}
}

type rpHub20c struct {
	Hub
	x int
}

func rpInvoke(name string, k int) invocationMessage {
	return invocationMessage{Type: 1, Target: name, InvocationID: fmt.Sprint("k", k), Arguments: []interface{}{json.RawMessage(fmt.Sprint(k))}}
}
