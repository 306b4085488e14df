package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/coder/websocket"
	"github.com/go-kit/log"
)

// replay: race

// rpResponse is a response that is read by nobody
type rpResponse struct {
	mx     sync.Mutex
	header http.Header
	code   int
	body   strings.Builder
}

func (w *rpResponse) Header() http.Header {
	if w.header == nil {
		w.header = http.Header{}
	}
	return w.header
}

func (w *rpResponse) WriteHeader(code int) {
	w.mx.Lock()
	defer w.mx.Unlock()
	if w.code == 0 {
		w.code = code
	}
}

func (w *rpResponse) Write(p []byte) (int, error) {
	w.mx.Lock()
	defer w.mx.Unlock()
	if w.code == 0 {
		w.code = http.StatusOK
	}
	return w.body.Write(p)
}

func (w *rpResponse) Flush() {}

func (w *rpResponse) status() int {
	w.mx.Lock()
	defer w.mx.Unlock()
	return w.code
}

// rpNoFlush is a response that cannot be flushed
type rpNoFlush struct{ w *rpResponse }

func (w rpNoFlush) Header() http.Header         { return w.w.Header() }
func (w rpNoFlush) WriteHeader(code int)        { w.w.WriteHeader(code) }
func (w rpNoFlush) Write(p []byte) (int, error) { return w.w.Write(p) }

type rpMux struct {
	t      *testing.T
	h      *httpMux
	cancel context.CancelFunc
	header bool
}

func newRpMux(t *testing.T, options ...func(Party) error) *rpMux {
	ctx, cancel := context.WithCancel(context.Background())
	s, err := NewServer(ctx, append([]func(Party) error{SimpleHubFactory(&Hub{}), Logger(log.NewNopLogger(), false),
		KeepAliveInterval(time.Hour), TimeoutInterval(time.Hour)}, options...)...)
	if err != nil {
		t.Fatal(err)
	}
	return &rpMux{t, newHTTPMux(s), cancel, false}
}

// negotiate returns the status, the key and the id
func (m *rpMux) negotiate(version int) (int, string, string) {
	w := &rpResponse{}
	r := httptest.NewRequest("POST", fmt.Sprintf("/negotiate?negotiateVersion=%v", version), nil)
	if m.header = !m.header; m.header {
		r = httptest.NewRequest("POST", "/negotiate", nil)
		r.Header.Set("negotiateVersion", fmt.Sprint(version))
	}
	m.h.negotiate(w, r)
	if w.status() != http.StatusOK {
		return w.status(), "", ""
	}
	var answer negotiateResponse
	if err := json.Unmarshal([]byte(w.body.String()), &answer); err != nil || answer.NegotiateVersion != version {
		m.t.Errorf("negotiate version %v answered %q", version, w.body.String())
	}
	if version == 1 {
		return w.status(), answer.ConnectionToken, answer.ConnectionID
	}
	return w.status(), answer.ConnectionID, answer.ConnectionID
}

// get starts a connection by server sent events, it returns when it is refused or started
func (m *rpMux) get(key string) (status int, end func() bool) {
	ctx, cancel := context.WithCancel(context.Background())
	r := httptest.NewRequest("GET", "/?id="+url.QueryEscape(key), nil).WithContext(ctx)
	r.Header.Set("Accept", "text/event-stream")
	w, done := &rpResponse{}, make(chan struct{})
	go func() { m.h.ServeHTTP(w, r); close(done) }()
	rpEventually(10*time.Second, func() bool { return w.status() != 0 })
	return w.status(), func() bool {
		cancel()
		return rpEventually(10*time.Second, func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
	}
}

func (m *rpMux) post(key string) int {
	w := &rpResponse{}
	m.h.ServeHTTP(w, httptest.NewRequest("POST", "/?id="+url.QueryEscape(key), strings.NewReader("{}\x1e")))
	return w.status()
}

func (m *rpMux) entry(key string) Connection {
	m.h.mx.Lock()
	defer m.h.mx.Unlock()
	return m.h.connectionMap[key]
}

func (m *rpMux) pending() (n int) {
	m.h.mx.Lock()
	defer m.h.mx.Unlock()
	for _, c := range m.h.connectionMap {
		if _, ok := c.(*negotiateConnection); ok {
			n++
		}
	}
	return n
}

func TestReplayC15(t *testing.T) {
	m := newRpMux(t, HandshakeTimeout(500*time.Millisecond))
	defer m.cancel()
	// one connection for each negotiation
	seen := map[string]bool{}
	for i := 0; i < 6; i++ {
		version := i / 2
		status, key, id := m.negotiate(version)
		if status != http.StatusOK {
			t.Fatalf("negotiate version %v: %v", version, status)
		}
		if version == 2 {
			continue
		}
		if seen[key] || seen[id] || key == "" || id == "" {
			t.Errorf("negotiate version %v: id %q, token %q were used before", version, id, key)
		}
		seen[key], seen[id] = true, true
		if nc, ok := m.entry(key).(*negotiateConnection); !ok || nc.ConnectionID() != id {
			t.Errorf("negotiate version %v: no negotiation for %q", version, key)
		}
		if version == 1 {
			if status, _ := m.get(id); status != http.StatusNotFound {
				t.Errorf("connecting with the id instead of the token: %v", status)
			}
		}
		status, end := m.get(key)
		if status != http.StatusOK {
			t.Errorf("connecting: %v", status)
		}
		first := m.entry(key)
		if _, ok := first.(*serverSSEConnection); !ok {
			t.Errorf("connecting stored %T", first)
		}
		for i := 0; i < 2; i++ {
			if status, _ := m.get(key); status != http.StatusConflict || m.entry(key) != first {
				t.Errorf("second connection: %v, stored %T", status, m.entry(key))
			}
		}
		if !end() || !rpEventually(10*time.Second, func() bool { return m.entry(key) == nil }) {
			t.Errorf("the id is usable after its connection: %T", m.entry(key))
		}
		if status, _ := m.get(key); status != http.StatusNotFound {
			t.Errorf("connecting after the connection: %v", status)
		}
		if status := m.post(key); status != http.StatusNotFound {
			t.Errorf("post after the connection: %v", status)
		}
	}
	if status, _ := m.get("unknown"); status != http.StatusNotFound || m.entry("unknown") != nil {
		t.Errorf("unknown id: %v, %T", status, m.entry("unknown"))
	}
	if status, _ := m.get(""); status != http.StatusBadRequest || m.entry("") != nil {
		t.Errorf("no id: %v, %T", status, m.entry(""))
	}
	if status := m.post("unknown"); status != http.StatusNotFound {
		t.Errorf("post to an unknown id: %v", status)
	}
	// a request which cannot be answered
	_, key, _ := m.negotiate(0)
	r := httptest.NewRequest("GET", "/?id="+url.QueryEscape(key), nil)
	r.Header.Set("Accept", "text/event-stream")
	w := &rpResponse{}
	rpWithin(t, 10*time.Second, "a response which cannot be flushed", func() { m.h.ServeHTTP(rpNoFlush{w}, r) })
	if c := m.entry(key); w.status() != http.StatusInternalServerError || c != nil && !rpIs[*negotiateConnection](c) {
		t.Errorf("a response which cannot be flushed: %v, stored %T", w.status(), c)
	}
	// racing requests
	for i := 0; i < 60; i++ {
		_, key, _ := m.negotiate(0)
		var mx sync.Mutex
		var wg sync.WaitGroup
		started, go_ := 0, make(chan struct{})
		var ends []func() bool
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go_
				status, end := m.get(key)
				mx.Lock()
				defer mx.Unlock()
				if status == http.StatusOK {
					started++
				}
				ends = append(ends, end)
			}()
		}
		close(go_)
		wg.Wait()
		for _, end := range ends {
			end()
		}
		if started != 1 {
			t.Errorf("%v connections were started by one negotiation", started)
			break
		}
	}
	// posts wait for the connection and start none
	_, key, _ = m.negotiate(0)
	if status := m.post(key); status != http.StatusTooEarly && status != http.StatusNotFound {
		t.Errorf("post to a pending negotiation: %v", status)
	}
	if c := m.entry(key); c != nil && !rpIs[*negotiateConnection](c) {
		t.Errorf("a post has stored %T", c)
	}
	rpMuxWebSockets(t)
	rpMuxLimit(t)
	rpMuxExpiry(t)
}

func rpIs[T any](v any) bool { _, ok := v.(T); return ok }

func rpMuxWebSockets(t *testing.T) {
	m := newRpMux(t, HandshakeTimeout(2*time.Second), InsecureSkipVerify(true))
	defer m.cancel()
	server := httptest.NewServer(m.h)
	defer server.Close()
	dial := func(key string) (*websocket.Conn, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		c, _, err := websocket.Dial(ctx, "ws"+strings.TrimPrefix(server.URL, "http")+"/?id="+url.QueryEscape(key), nil)
		return c, err
	}
	refused := func(c *websocket.Conn) bool {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		_, _, err := c.Read(ctx)
		return websocket.CloseStatus(err) == 1002
	}
	for version := 0; version < 2; version++ {
		_, key, id := m.negotiate(version)
		c, err := dial(key)
		if err != nil {
			t.Fatal(err)
		}
		if !rpEventually(5*time.Second, func() bool { return rpIs[*webSocketConnection](m.entry(key)) }) {
			t.Errorf("a negotiated web socket is not connected: %T", m.entry(key))
			continue
		}
		first := m.entry(key)
		if first.ConnectionID() != id {
			t.Errorf("id of a web socket: %q, negotiated %q", first.ConnectionID(), id)
		}
		if d, err := dial(key); err != nil || !refused(d) || m.entry(key) != first {
			t.Errorf("second web socket was not refused, stored %T", m.entry(key))
		}
		if status, _ := m.get(key); status != http.StatusConflict || m.entry(key) != first {
			t.Errorf("server sent events after web socket: %v, stored %T", status, m.entry(key))
		}
		if status := m.post(key); status != http.StatusConflict || m.entry(key) != first {
			t.Errorf("post to a web socket: %v", status)
		}
		_ = c.CloseNow()
		if !rpEventually(10*time.Second, func() bool { return m.entry(key) == nil }) {
			t.Errorf("the id is usable after its web socket: %T", m.entry(key))
		}
		if d, err := dial(key); err != nil || !refused(d) {
			t.Errorf("web socket after the connection was not refused")
		}
	}
	if d, err := dial("unknown"); err != nil || !refused(d) || m.entry("unknown") != nil {
		t.Errorf("web socket with an unknown id was not refused")
	}
	// without negotiation: each one gets its own id
	var conns []*websocket.Conn
	for i := 0; i < 3; i++ {
		c, err := dial("")
		if err != nil {
			t.Fatal(err)
		}
		conns = append(conns, c)
	}
	count := func() (n int) {
		m.h.mx.Lock()
		defer m.h.mx.Unlock()
		for k, c := range m.h.connectionMap {
			if rpIs[*webSocketConnection](c) && k == c.ConnectionID() && k != "" {
				n++
			}
		}
		return n
	}
	if !rpEventually(5*time.Second, func() bool { return count() == 3 }) {
		t.Errorf("web sockets without negotiation: %v of 3", count())
	}
	for _, c := range conns {
		_ = c.CloseNow()
	}
	if !rpEventually(10*time.Second, func() bool { return count() == 0 }) {
		t.Errorf("web sockets without negotiation are stored after their connection: %v", count())
	}
}

func rpMuxLimit(t *testing.T) {
	const max = 3
	m := newRpMux(t, HandshakeTimeout(time.Hour), MaxNegotiationConnections(max))
	defer m.cancel()
	for i := 0; i < 6; i++ {
		status, key, _ := m.negotiate(i % 2)
		if want := 200 + 229*(i/max); status != want {
			t.Errorf("negotiation %v of %v: %v", i+1, max, status)
		}
		if n := m.pending(); n > max {
			t.Errorf("%v pending negotiations, limit %v", n, max)
		}
		// connections are no negotiations
		if i == 0 {
			status, end := m.get(key)
			if status != http.StatusOK {
				t.Errorf("connecting: %v", status)
			}
			defer end()
			if status, _, _ := m.negotiate(0); status != http.StatusOK {
				t.Errorf("negotiation besides a connection: %v", status)
			}
		}
	}
	for i := 0; i < 200; i++ {
		m := newRpMux(t, HandshakeTimeout(time.Hour), MaxNegotiationConnections(max))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 50; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.h.negotiate(&rpResponse{}, httptest.NewRequest("POST", "/negotiate", nil))
			}()
		}
		close(start)
		wg.Wait()
		m.cancel()
		if n := m.pending(); n != max {
			t.Errorf("%v pending negotiations, limit %v", n, max)
			break
		}
	}
	// no limit
	m = newRpMux(t, HandshakeTimeout(time.Hour))
	defer m.cancel()
	for i := 0; i < 50; i++ {
		if status, _, _ := m.negotiate(0); status != http.StatusOK {
			t.Errorf("negotiation %v without limit: %v", i, status)
		}
	}
	// other methods do not negotiate
	w := &rpResponse{}
	m.h.negotiate(w, httptest.NewRequest("GET", "/negotiate", nil))
	if w.status() != http.StatusBadRequest || m.pending() != 50 {
		t.Errorf("GET negotiate: %v", w.status())
	}
}

func rpMuxExpiry(t *testing.T) {
	const ttl = 400 * time.Millisecond
	m := newRpMux(t, HandshakeTimeout(ttl))
	defer m.cancel()
	_, key, _ := m.negotiate(0)
	_, used, _ := m.negotiate(1)
	conn := NewNetConnection(context.Background(), nil)
	m.h.mx.Lock()
	m.h.connectionMap[used] = conn
	m.h.mx.Unlock()
	// young ones stay
	time.Sleep(ttl / 3)
	_, young, _ := m.negotiate(0)
	made := time.Now()
	for m.entry(young) != nil && time.Since(made) < ttl*3 {
		time.Sleep(time.Millisecond)
	}
	if age := time.Since(made); age < ttl {
		t.Errorf("a negotiation has expired after %v of %v", age, ttl)
	}
	if !rpEventually(10*time.Second, func() bool { return m.entry(key) == nil && m.entry(young) == nil }) {
		t.Errorf("pending negotiations do not expire")
	}
	if m.entry(used) != conn {
		t.Errorf("a connection has expired")
	}
	if status, _ := m.get(key); status != http.StatusNotFound {
		t.Errorf("connecting with an expired id: %v", status)
	}
}
