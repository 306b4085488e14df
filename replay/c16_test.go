package signalr

// replay: race

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sync"
	"testing"
	"time"
)

func rpHammer(t *testing.T, what string, ops ...func(i int)) {
	t.Helper()
	rpWithin(t, 20*time.Second, what, func() {
		var wg sync.WaitGroup
		for _, op := range ops {
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 200; i++ {
						op(i)
					}
				}()
			}
		}
		wg.Wait()
	})
}

type c16Hub struct{ Hub }

func TestReplayC16(t *testing.T) {
	p := &jsonHubProtocol{dbg: rpLog()}
	id := func(i int) string { return fmt.Sprint(i % 7) }
	ic := newInvokeClient(p, 20*time.Millisecond)
	rpHammer(t, "invoke client",
		func(i int) { ic.newInvocation(fmt.Sprint(i)) }, func(i int) { ic.deleteInvocation(fmt.Sprint(i)) },
		func(i int) { ic.handlesInvocationID(id(i)) }, func(i int) { _ = ic.receiveCompletionItem(completionMessage{InvocationID: "x" + id(i)}) },
		func(i int) {
			if i%50 == 0 {
				ic.cancelAllInvokes()
			}
		})
	sc := newStreamClient(p, 20*time.Millisecond, 1000, 0)
	rpHammer(t, "stream client",
		func(i int) { sc.newUpstreamChannel("a" + fmt.Sprint(i)) }, func(i int) { sc.handlesInvocationID(id(i)) },
		func(i int) { _ = sc.receiveStreamItem(streamItemMessage{InvocationID: "a" + id(i), Item: []byte("1")}) },
		func(i int) {
			_, _, _ = sc.buildChannelArgument(invocationMessage{StreamIds: []string{"b" + id(i)}}, reflect.TypeOf(make(chan int)), 0)
		},
		func(i int) { _ = sc.receiveCompletionItem(completionMessage{InvocationID: "zz" + id(i)}, ic) },
		func(i int) { sc.deleteUpstreamChannel("zz" + id(i)) })
	sc.newUpstreamChannel("fin")
	rpWithin(t, 5*time.Second, "stream completion", func() {
		_ = sc.receiveStreamItem(streamItemMessage{InvocationID: "fin", Item: []byte("{")})
		_ = sc.receiveCompletionItem(completionMessage{InvocationID: "fin"}, ic)
		sc.handlesInvocationID("fin")
		_, _, _ = sc.buildChannelArgument(invocationMessage{}, reflect.TypeOf(make(chan int)), 0)
		_, _, _ = sc.buildChannelArgument(invocationMessage{}, reflect.TypeOf(1), 0)
		sc.handlesInvocationID("fin")
		sc.deleteUpstreamChannel("fin")
		_ = sc.receiveStreamItem(streamItemMessage{InvocationID: "fin"})
		sc.handlesInvocationID("fin")
	})
	m := newLifeTimeManager(rpLog())
	var conns []*rpHubConn
	for i := 0; i < 7; i++ {
		conns = append(conns, newRpHubConn(fmt.Sprint(i)))
	}
	rpHammer(t, "groups",
		func(i int) { m.OnConnected(conns[i%7]) }, func(i int) { m.AddToGroup("g", id(i)) },
		func(i int) { m.RemoveFromGroup("g", id(i)) }, func(i int) { m.InvokeGroup("g", "t", nil) },
		func(i int) { m.OnDisconnected(conns[i%7]) }, func(i int) {
			if i%20 == 0 {
				m.InvokeAll("t", nil)
			}
		}, func(i int) { m.InvokeClient(id(i), "t", nil) })
	time.Sleep(50 * time.Millisecond)

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	srv, err := NewServer(ctx, PerConnectionHubFactory(func(string) HubInterface { return &c16Hub{} }), Logger(rpLog(), false), HandshakeTimeout(30*time.Millisecond), MaxNegotiationConnections(3))
	if err != nil {
		t.Skip(err)
	}
	s := srv.(*server)
	rpHammer(t, "per connection hubs", func(i int) { s.invocationTarget(conns[i%7]) }, func(i int) { s.removeConnectionHub(id(i)) },
		func(i int) { s.onConnected(conns[i%7]) }, func(i int) { s.onDisconnected(conns[i%7]) })
	mux := newHTTPMux(srv)
	negotiate := func() { mux.negotiate(httptest.NewRecorder(), httptest.NewRequest("POST", "/negotiate", nil)) }
	rpHammer(t, "http connection table", func(i int) { negotiate() },
		func(i int) { mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/?id=nope", nil)) },
		func(i int) {
			r := httptest.NewRequest("GET", "/?id=nope", nil)
			r.Header.Set("Accept", "text/event-stream")
			mux.ServeHTTP(httptest.NewRecorder(), r)
		},
		func(i int) {
			if i%20 == 0 {
				c := newRpConn(fmt.Sprint("c", i))
				close(c.in)
				_ = mux.serveConnection(c)
			}
		})
	time.Sleep(100 * time.Millisecond) // let the reaper run
	rpWithin(t, 5*time.Second, "negotiate after the reaper", negotiate)

	cl, err := NewClient(ctx, WithConnection(newRpConn("c")), Logger(rpLog(), false))
	if err == nil {
		c := cl.(*client)
		for i := 0; i < 5; i++ {
			c.ObserveStateChanged(make(chan ClientState, 10000))
		}
		rpHammer(t, "client state", func(i int) { c.State() },
			func(i int) {
				if i%10 == 0 {
					c.setState(ClientConnecting)
				}
			},
			func(i int) { _ = c.Err(); c.setErr(errRp) },
			func(i int) {
				ch := make(chan ClientState, 1000)
				stop := c.ObserveStateChanged(ch)
				stop()
			},
			func(i int) { x, end := context.WithCancel(ctx); c.WaitForState(x, ClientConnected); end() })
	}
	cb := NewConnectionBase(ctx, "x")
	rpHammer(t, "connection id", func(i int) { cb.SetConnectionID(id(i)) }, func(i int) { cb.ConnectionID() }, func(i int) { cb.Context() })
	rc := newRpConn("h")
	hc := newHubConnection(rc, p, 1000, rpLog())
	rpHammer(t, "last write", func(i int) { _ = hc.Ping() }, func(i int) { hc.LastWriteStamp() })
	c16sse(t)
}

type c16BadBody struct{}

func (c16BadBody) Read([]byte) (int, error) { return 0, errors.New("bad body") }
func (c16BadBody) Close() error             { return nil }

// c16LateCtx reports cancellation only from the second look on.
type c16LateCtx struct {
	context.Context
	mx sync.Mutex
	n  int
}

func (c *c16LateCtx) Err() error {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.n++
	if c.n > 1 {
		return context.Canceled
	}
	return nil
}

func c16sse(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, jobs, results, err := newServerSSEConnection(ctx, "i")
	if err != nil {
		return
	}
	go func() {
		for range jobs {
			results <- RWJobResult{n: 1}
		}
	}()
	go func() {
		b := make([]byte, 100)
		for {
			if _, err := s.Read(b); err != nil {
				return
			}
		}
	}()
	post := func(b io.ReadCloser) int {
		r, _ := http.NewRequest("POST", "/", nil)
		r.Body = b
		return s.consumeRequest(r)
	}
	rpWithin(t, 5*time.Second, "POSTs", func() {
		post(c16BadBody{})
		for i := 0; i < 3; i++ {
			if c := post(io.NopCloser(bytes.NewReader([]byte("x")))); c != 200 {
				t.Errorf("POST after a failed one answered %d", c)
			}
		}
	})
	late, _, _, err := newServerSSEConnection(&c16LateCtx{Context: ctx}, "j")
	if err == nil {
		rpWithin(t, 2*time.Second, "write after cancellation", func() {
			_, _ = late.Write([]byte("x"))
			_, _ = late.Write([]byte("x"))
			late.mx.Lock()
			late.mx.Unlock()
		})
	}
}
