package signalr

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/coder/websocket"
	"github.com/go-kit/log"
)

// rpSized is a message of the given size, with what is around it.
func rpSized(protocol string, size int) []byte {
	if protocol == "json" {
		if size < 28 {
			return []byte(`{"type":6}` + strings.Repeat(" ", max(size-10, 0)) + "\x1e")
		}
		return []byte(`{"type":3,"invocationId":"` + strings.Repeat("x", size-28) + "\"}\x1e")
	}
	b := []byte("\x91\x06")
	b = append(b, make([]byte, max(size-2, 0))...)
	p := make([]byte, 10)
	return append(p[:binary.PutUvarint(p, uint64(len(b)))], b...)
}

type rpHub03 struct{ Hub }

var rpCalls03 = make(chan string, 10000)

func (h *rpHub03) Put(s string) { rpCalls03 <- s }

func TestReplayC03(t *testing.T) {
	rpWithin(t, 100*time.Second, "parsing", func() {
		for _, protocol := range []string{"json", "messagepack"} {
			for _, limit := range []int{10, 11, 100, 127, 128, 129, 1000, 32767, 32768, 32769, 100000} {
				for _, size := range []int{limit - 1, limit, limit + 1, limit + 2, limit + 12, 2 * limit, 10} {
					if size < 10 {
						continue
					}
					for _, before := range []int{0, 1, 2, 5} {
						for _, small := range []int{10, limit} {
							if before == 0 && small > 10 {
								continue
							}
							for _, reads := range []int{1, 7, 100, 32768, 1 << 20} {
								if limit > 1000 && reads < 100 {
									continue
								}
								var text []byte
								for i := 0; i < before; i++ {
									text = append(text, rpSized(protocol, small)...)
								}
								text = append(append(text, rpSized(protocol, size)...), rpSized(protocol, 10)...)
								p := hubProtocol(&jsonHubProtocol{})
								if protocol == "messagepack" {
									p = &messagePackHubProtocol{}
								}
								p.setDebugLogger(rpLog())
								p.setMaxReceiveMessageSize(uint(limit))
								got, _, err := rpReadAll(p, &rpChunks{chunks: rpCuts(string(text), reads)})
								want := before + 2
								if size > limit {
									want = before
								}
								if len(got) != want || errors.Is(err, errRpEnd) != (size <= limit) {
									t.Errorf("%s: limit %d, %d messages of %d bytes, then one of %d, reads of %d: %d messages instead of %d, error %v", protocol, limit, before, small, size, reads, len(got), want, err)
									return
								}
							}
						}
					}
				}
				// a message which never ends
				p := hubProtocol(&jsonHubProtocol{})
				endless := bytes.Repeat([]byte(" "), limit+20)
				if protocol == "messagepack" {
					p, endless = &messagePackHubProtocol{}, rpSized(protocol, limit+20)[:10]
				}
				p.setDebugLogger(rpLog())
				p.setMaxReceiveMessageSize(uint(limit))
				if _, _, err := rpReadAll(p, &rpChunks{chunks: [][]byte{endless}}); errors.Is(err, errRpEnd) {
					t.Errorf("%s: limit %d, a message which never ends is not refused", protocol, limit)
				}
			}
		}
	})
	// the limit of the party is used
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	for _, limit := range []uint{1, 50, 40000, 100000} {
		s, err := NewServer(ctx, HubFactory(func() HubInterface { return &rpHub03{} }), Logger(log.NewNopLogger(), false), MaximumReceiveMessageSize(limit))
		if err != nil {
			t.Fatal(err)
		}
		c, err := NewClient(ctx, WithConnection(newRpConn("c")), Logger(log.NewNopLogger(), false), MaximumReceiveMessageSize(limit))
		if err != nil {
			t.Fatal(err)
		}
		for _, p := range []Party{s.(*server), c.(*client)} {
			j, ok := newLoop(p, newRpConn("j"), &jsonHubProtocol{}).protocol.(*jsonHubProtocol)
			m, ok2 := newLoop(p, newRpConn("m"), &messagePackHubProtocol{}).protocol.(*messagePackHubProtocol)
			if !ok || !ok2 || j.maximumReceiveMessageSize != limit || m.maximumReceiveMessageSize != limit {
				t.Errorf("limit %d: the protocols have %v %v", limit, j, m)
			}
		}
	}
	// messages over a web socket and requests
	const limit = 40000
	s, err := NewServer(ctx, HubFactory(func() HubInterface { return &rpHub03{} }), Logger(log.NewNopLogger(), false), MaximumReceiveMessageSize(limit))
	if err != nil {
		t.Fatal(err)
	}
	h := newHTTPMux(s.(*server))
	srv := httptest.NewServer(h)
	defer srv.Close()
	rpWithin(t, 30*time.Second, "web socket", func() {
		ws, _, err := websocket.Dial(ctx, "ws"+strings.TrimPrefix(srv.URL, "http"), nil)
		if err != nil {
			t.Skip(err)
		}
		ws.SetReadLimit(-1)
		_ = ws.Write(ctx, websocket.MessageText, []byte("{\"protocol\":\"json\",\"version\":1}\x1e"))
		_, _, _ = ws.Read(ctx)
		call := func(size int) string {
			a := `{"type":1,"target":"Put","arguments":["`
			return a + strings.Repeat("x", size-len(a)-3) + "\"]}\x1e"
		}
		for _, ns := range [][]int{{limit}, {limit - 1}, {32768}, {32767}, {limit, limit, limit}, {100, limit}, {50, 32768, 50}} {
			text := ""
			for _, n := range ns {
				text += call(n)
			}
			if err := ws.Write(ctx, websocket.MessageText, []byte(text)); err != nil {
				t.Errorf("messages of %v bytes: %v", ns, err)
				return
			}
			for range ns {
				select {
				case <-rpCalls03:
				case <-time.After(5 * time.Second):
					t.Errorf("web socket message with messages of %v bytes, the limit is %d: refused", ns, limit)
					return
				}
			}
		}
		_ = ws.Write(ctx, websocket.MessageText, []byte(call(limit+1)))
		select {
		case <-rpCalls03:
			t.Errorf("a message larger than the limit is delivered")
		case <-time.After(200 * time.Millisecond):
		}
	})
	rpWithin(t, 30*time.Second, "post", func() {
		for _, size := range []int{100, limit - 1, limit} {
			conn, _, _, _ := newServerSSEConnection(ctx, "sse")
			h.mx.Lock()
			h.connectionMap["sse"] = conn
			h.mx.Unlock()
			got := 0
			go func() {
				p := make([]byte, 1000)
				for {
					n, err := conn.Read(p)
					if err != nil {
						return
					}
					got += n
				}
			}()
			resp, err := http.Post(srv.URL+"?id=sse", "text/plain", strings.NewReader(strings.Repeat("x", size)+"\x1e"))
			if err != nil || resp.StatusCode != 200 || got != size+1 {
				t.Errorf("request with a message of %d bytes, the limit is %d: %v %v, %d read", size, limit, fmt.Sprint(resp), err, got)
			}
		}
	})
}
