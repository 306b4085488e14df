package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/go-kit/log"
)

// rpSlowConn never finishes its writes before it is cancelled
type rpSlowConn struct{ *rpConn }

func (c *rpSlowConn) Write(p []byte) (int, error) {
	<-c.Context().Done()
	return 0, c.Context().Err()
}

type rpHandshakeHub struct {
	Hub
	calls chan string
}

func (h *rpHandshakeHub) Mark(s string) { h.calls <- s }

func TestReplayC14(t *testing.T) {
	const wait = 5 * time.Second
	serve := func(conn Connection, options ...func(Party) error) (chan error, chan string, context.CancelFunc) {
		calls := make(chan string, 100)
		ctx, cancel := context.WithCancel(context.Background())
		s, err := NewServer(ctx, append([]func(Party) error{HubFactory(func() HubInterface { return &rpHandshakeHub{calls: calls} }),
			Logger(log.NewNopLogger(), false), HandshakeTimeout(500 * time.Millisecond), KeepAliveInterval(time.Hour), TimeoutInterval(time.Hour)}, options...)...)
		if err != nil {
			t.Fatal(err)
		}
		result := make(chan error, 1)
		go func() { result <- s.Serve(conn) }()
		return result, calls, cancel
	}
	ended := func(name string, result chan error) {
		select {
		case err := <-result:
			if err == nil {
				t.Errorf("%v: Serve returned no error", name)
			}
		case <-time.After(wait):
			t.Errorf("%v: Serve did not return", name)
		}
	}
	// refused requests
	for _, request := range []string{
		`{"protocol":"json","version":1`, `{"protocol":1,"version":1}`, `{"protocol":"json","version":"1"}`, `{"version":[],"protocol":"json"}`, `[]`, ``, `x`, `"json"`,
		`{"protocol":"","version":1}`, `{}`, `{"protocol":"JSON","version":1}`, `{"protocol":"msgpack","version":1}`, `{"protocol":"messagePack"}`,
		`{"protocol":"a\"b","version":1}`, `{"protocol":"a\\b\u001e\n","version":1}`, `{"protocol":"` + strings.Repeat("x", 3000) + `"}`,
	} {
		for _, after := range []string{"", `{"type":1,"target":"mark","arguments":["no"]}` + "\x1e"} {
			conn := newRpConn("a")
			conn.in <- []byte(request + "\x1e" + after)
			result, calls, cancel := serve(conn)
			ended(rpText([]byte(request)), result)
			request_ := handshakeRequest{}
			if json.Unmarshal([]byte(request), &request_) == nil {
				w := conn.written()
				answer := map[string]interface{}{}
				if len(w) != 1 || len(w[0]) == 0 || w[0][len(w[0])-1] != 0x1e || json.Unmarshal(w[0][:len(w[0])-1], &answer) != nil || answer["error"] == nil || answer["error"] == "" {
					t.Errorf("request %v was answered with %q", rpText([]byte(request)), w)
				}
			} else if len(conn.written()) > 0 {
				t.Errorf("request %v was answered with %q", rpText([]byte(request)), conn.written())
			}
			if len(calls) > 0 {
				t.Errorf("request %v: hub method called", rpText([]byte(request)))
			}
			cancel()
			conn.cancel()
		}
	}
	// failing and slow connections
	conn := newRpConn("a")
	conn.fail(errRp)
	conn.in <- []byte(`{"protocol":"json","version":1}` + "\x1e" + `{"type":1,"target":"mark","arguments":["no"]}` + "\x1e")
	result, calls, cancel := serve(conn)
	ended("write error", result)
	if len(calls) > 0 {
		t.Error("hub method called without response")
	}
	cancel()
	for _, start := range []string{"", `{"protocol":"json","ver`} {
		conn = newRpConn("a")
		conn.in <- []byte(start)
		result, _, cancel = serve(conn, TimeoutInterval(time.Hour))
		ended(fmt.Sprintf("silence after %q", start), result)
		cancel()
		conn = newRpConn("a")
		conn.in <- []byte(start)
		conn.cancel()
		result, _, cancel = serve(conn, HandshakeTimeout(time.Hour))
		ended(fmt.Sprintf("closed after %q", start), result)
		cancel()
	}
	for _, name := range []string{"json", "none"} {
		slow := &rpSlowConn{newRpConn("a")}
		slow.in <- []byte(`{"protocol":"` + name + `","version":1}` + "\x1e")
		result, _, cancel = serve(slow)
		ended("slow write for "+name, result)
		cancel()
		slow.cancel()
	}
	// accepted requests
	msgpack := func(s string) []byte {
		p := &messagePackHubProtocol{}
		p.setDebugLogger(rpLog())
		c := newRpConn("x")
		if err := p.WriteMessage(invocationMessage{Type: 1, Target: "mark", Arguments: []interface{}{s}}, c); err != nil {
			t.Fatal(err)
		}
		return c.written()[0]
	}
	for _, name := range []string{"json", "messagepack"} {
		first, second := []byte(`{"type":1,"target":"mark","arguments":["first"]}`+"\x1e"), []byte(`{"type":1,"target":"mark","arguments":["second"]}`+"\x1e")
		if name == "messagepack" {
			first, second = msgpack("first"), msgpack("second")
		}
		all := append([]byte(`{"protocol":"`+name+`","version":1}`+"\x1e"), append(first, second...)...)
		for _, size := range []int{1, 7, 40, len(all)} {
			conn := newRpConn("a")
			for b := all; len(b) > 0; {
				n := min(size, len(b))
				conn.in <- b[:n]
				b = b[n:]
			}
			_, calls, cancel := serve(conn)
			for _, want := range []string{"first", "second"} {
				select {
				case got := <-calls:
					if got != "first" && got != "second" {
						t.Errorf("%v in pieces of %v bytes: got %v", name, size, got)
					}
				case <-time.After(wait):
					t.Errorf("%v in pieces of %v bytes: the %v message after the handshake is lost", name, size, want)
				}
			}
			answer := map[string]interface{}{}
			w := conn.written()
			if len(w) != 1 || w[0][len(w[0])-1] != 0x1e || json.Unmarshal(w[0][:len(w[0])-1], &answer) != nil || answer["error"] != nil {
				t.Errorf("%v: answered with %q", name, w)
			}
			cancel()
			conn.cancel()
		}
	}
	// clients
	type client_ struct {
		Client
		conns chan *rpConn
		calls chan string
	}
	start := func(format TransferFormatType, options ...func(Party) error) (*client_, context.CancelFunc) {
		ctx, cancel := context.WithCancel(context.Background())
		r := &client_{conns: make(chan *rpConn, 1000), calls: make(chan string, 100)}
		c, err := NewClient(ctx, append([]func(Party) error{WithConnector(func() (Connection, error) {
			conn := newRpConn("c")
			r.conns <- conn
			return conn, nil
		}), WithReceiver(&rpClientReceiver{r.calls}), WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Millisecond) }),
			TransferFormat(format), Logger(log.NewNopLogger(), false), HandshakeTimeout(500 * time.Millisecond), KeepAliveInterval(time.Hour), TimeoutInterval(time.Hour)}, options...)...)
		if err != nil {
			t.Fatal(err)
		}
		r.Client = c
		c.Start()
		return r, cancel
	}
	next := func(name string, c *client_) *rpConn {
		select {
		case conn := <-c.conns:
			return conn
		case <-time.After(wait):
			t.Errorf("%v: the client does not connect again", name)
			return newRpConn("none")
		}
	}
	for format, name := range map[TransferFormatType]string{"Text": "json", "Binary": "messagepack"} {
		for _, response := range []string{`{"error":"no"}`, `{"error":"no","x":1}`, `x`, `[]`, ``, `{"error":1}`, "silence"} {
			c, cancel := start(format)
			conn := next(response, c)
			if response != "silence" {
				conn.in <- []byte(response + "\x1e")
			}
			again := next(fmt.Sprintf("%v after response %q", name, response), c)
			if again == conn {
				t.Errorf("%v: connection used again after response %q", name, response)
			}
			if w := conn.written(); len(w) > 1 {
				t.Errorf("%v: messages after response %q: %q", name, response, w)
			}
			// the next handshake works
			again.in <- []byte("{}\x1e")
			if response == "x" {
				waitFor := c.WaitForState(context.Background(), ClientConnected)
				select {
				case err := <-waitFor:
					if err != nil {
						t.Errorf("%v: after response %q: %v", name, response, err)
					}
				case <-time.After(wait):
					t.Errorf("%v: no connection after response %q", name, response)
				}
			}
			cancel()
		}
		// a good response, the first message comes with it
		c, cancel := start(format)
		conn := next("good", c)
		message := []byte(`{"type":1,"target":"mark","arguments":["first"]}` + "\x1e")
		if name == "messagepack" {
			message = msgpack("first")
		}
		conn.in <- append([]byte("{}\x1e"), message...)
		select {
		case <-c.calls:
		case <-time.After(wait):
			t.Errorf("%v: the message after the handshake response is lost or not understood", name)
		}
		request := handshakeRequest{}
		w := conn.written()
		if len(w) != 1 || w[0][len(w[0])-1] != 0x1e || json.Unmarshal(w[0][:len(w[0])-1], &request) != nil || request.Protocol != name || request.Version != 1 {
			t.Errorf("%v: the client requested %q", name, w)
		}
		cancel()
	}
	// a client whose request can not be written does not start
	for _, slow := range []bool{false, true} {
		ctx, cancel := context.WithCancel(context.Background())
		conn := newRpConn("c")
		conn.in <- []byte("{}\x1e")
		var used Connection = conn
		if slow {
			used = &rpSlowConn{conn}
		}
		conn.fail(errRp)
		c, err := NewClient(ctx, WithConnection(used), Logger(log.NewNopLogger(), false), HandshakeTimeout(200*time.Millisecond))
		if err != nil {
			t.Fatal(err)
		}
		c.Start()
		select {
		case <-c.WaitForState(context.Background(), ClientClosed):
		case <-time.After(wait):
			t.Errorf("slow %v: the client did not give up, state %v", slow, c.State())
		}
		if c.Err() == nil {
			t.Errorf("slow %v: no error", slow)
		}
		cancel()
		conn.cancel()
	}
}

type rpClientReceiver struct{ calls chan string }

func (r *rpClientReceiver) Mark(s string) { r.calls <- s }
