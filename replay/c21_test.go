package signalr

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
)

// replay: race

// rpPieces is a body that comes in pieces
type rpPieces struct {
	pieces [][]byte
	err    error
	closed chan struct{}
}

func newRpPieces(s string, size int, err error) *rpPieces {
	b := &rpPieces{err: err, closed: make(chan struct{}, 10)}
	for ; len(s) > size; s = s[size:] {
		b.pieces = append(b.pieces, []byte(s[:size]))
	}
	b.pieces = append(b.pieces, []byte(s))
	return b
}

func (b *rpPieces) Read(p []byte) (int, error) {
	if len(b.pieces) == 0 {
		return 0, b.err
	}
	n := copy(p, b.pieces[0])
	if b.pieces[0] = b.pieces[0][n:]; len(b.pieces[0]) == 0 {
		b.pieces = b.pieces[1:]
	}
	return n, nil
}

func (b *rpPieces) Close() error {
	b.closed <- struct{}{}
	return nil
}

// rpDoer answers requests
type rpDoer struct {
	mx     sync.Mutex
	posts  []string
	urls   []string
	status int
	err    error
}

func (d *rpDoer) Do(r *http.Request) (*http.Response, error) {
	d.mx.Lock()
	defer d.mx.Unlock()
	b, _ := io.ReadAll(r.Body)
	d.posts, d.urls = append(d.posts, string(b)), append(d.urls, r.URL.String())
	if d.err != nil {
		return nil, d.err
	}
	return &http.Response{StatusCode: d.status, Status: fmt.Sprint(d.status), Body: io.NopCloser(strings.NewReader(""))}, nil
}

func TestReplayC21(t *testing.T) {
	for _, f := range []func(*testing.T){rpSSEClient, rpSSEServer, rpSSEPosts, rpSSEEnd, rpSSEResponse, rpSSEFailedEvent, rpSSEConnect} {
		if f(t); t.Failed() {
			return
		}
	}
}

func rpSSEClient(t *testing.T) {
	long := strings.Repeat("0123456789", 12000)
	for _, x := range []struct{ events, want string }{
		{"data: {}\x1e\n\n", "{}\x1e"},
		{"data:{}\x1e\n\n", "{}\x1e"},
		{"data: {}\x1e\r\n\r\n", "{}\x1e"},
		{":\r\n\r\ndata: a\x1e\n\ndata: b\x1e\n\n", "a\x1eb\x1e"},
		{"event: x\nid: data: 1\ndata: a\x1e\n\n: data: c\nretry: 1\n\n", "a\x1e"},
		{"data: a data: b\x1e\n\n", "a data: b\x1e"},
		{"data:  a \x1e\n\n", " a \x1e"},
		{"data: a\ndata: b\x1e\n\ndata: c\x1e\n\n", "a\nb\x1ec\x1e"},
		{"data: {\"a\":\"data: \"}\x1e\n\n", "{\"a\":\"data: \"}\x1e"},
		{"data: " + long + "\x1e\n\ndata: x\x1e\n\n", long + "\x1ex\x1e"},
		{"event: " + long + "data: y\n\ndata: x\x1e\n\n", "x\x1e"},
	} {
		for _, size := range []int{1, 2, 3, 5, 7, 11, 16, 1000, 1 << 15, 1<<15 + 1, 1 << 20} {
			if size < 16 && len(x.events) > 1000 {
				continue
			}
			failure := errors.New("fails")
			body := newRpPieces(x.events, size, failure)
			c, err := newClientSSEConnection("http://x/?id=k", "k", body, &rpDoer{})
			if err != nil {
				t.Fatal(err)
			}
			rpWithin(t, 10*time.Second, "reading events", func() {
				got, err := io.ReadAll(c)
				if string(got) != x.want {
					t.Errorf("%.60q in pieces of %v: read %.60q", x.events, size, got)
				}
				if !errors.Is(err, failure) {
					t.Errorf("end of the events: %v", err)
				}
				<-body.closed
			})
			if t.Failed() {
				return
			}
		}
	}
	for _, status := range []int{200, 201, 400, 404, 409, 410, 500} {
		d := &rpDoer{status: status}
		c, _ := newClientSSEConnection("http://x/?id=k", "k", newRpPieces("", 1, io.EOF), d)
		for i, p := range []string{"a\x1e", "b\x1ec\x1e", long} {
			n, err := c.Write([]byte(p))
			if (err == nil) != (status == 200) || err == nil && n != len(p) {
				t.Errorf("post answered by %v: %v %v", status, n, err)
			}
			if len(d.posts) != i+1 || d.posts[i] != p || d.urls[i] != "http://x/?id=k" {
				t.Errorf("posted %.60q to %q", d.posts, d.urls)
			}
		}
	}
	d := &rpDoer{err: io.ErrUnexpectedEOF}
	c, _ := newClientSSEConnection("http://x/?id=k", "k", newRpPieces("", 1, io.EOF), d)
	if _, err := c.Write([]byte("x")); !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Errorf("failed post: %v", err)
	}
	if len(d.posts) != 1 {
		t.Errorf("a message whose post failed was posted %v times", len(d.posts))
	}
}

func rpSSEServer(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	s, jobs, results, err := newServerSSEConnection(ctx, "id")
	if err != nil {
		t.Fatal(err)
	}
	all, want := "", ""
	for i, p := range []string{"{}\x1e", "a\nb\x1e", "a\n\n\nb\x1e", " data: x \x1e", "\nx\x1e", "data:\x1e", strings.Repeat("x", 100000) + "\x1e"} {
		var failure error
		if i%2 == 1 {
			failure = io.ErrShortWrite
		}
		go func() {
			job := <-jobs
			all += string(job)
			results <- RWJobResult{n: i, err: failure}
		}()
		rpWithin(t, 10*time.Second, "writing", func() {
			if n, err := s.Write([]byte(p)); n != i || err != failure {
				t.Errorf("write returned %v %v, the response %v %v", n, err, i, failure)
			}
		})
		want += p
	}
	for _, size := range []int{1, 7, 1 << 20} {
		c, _ := newClientSSEConnection("http://x/?id=k", "k", newRpPieces(all, size, io.EOF), &rpDoer{})
		rpWithin(t, 20*time.Second, "reading", func() {
			if got, _ := io.ReadAll(c); string(got) != want {
				t.Errorf("wrote %.80q, read %.80q", want, got)
			}
		})
	}
	// nobody answers
	done := make(chan error, 1)
	go func() {
		_, err := s.Write([]byte("x"))
		done <- err
	}()
	time.Sleep(20 * time.Millisecond)
	cancel()
	rpWithin(t, 10*time.Second, "a write when the connection ends", func() {
		if err := <-done; err == nil {
			t.Errorf("a write succeeded without being answered")
		}
	})
	rpWithin(t, 10*time.Second, "a write after the connection", func() {
		for i := 0; i < 5; i++ {
			if _, err := s.Write([]byte("x")); err == nil {
				t.Errorf("a write succeeded after the connection")
			}
		}
	})
	rpWithin(t, 10*time.Second, "the end of the response", func() {
		for range jobs {
		}
	})
}

func rpPost(s *serverSSEConnection, body io.Reader) int {
	return s.consumeRequest(httptest.NewRequest("POST", "/", body))
}

type rpFails struct{ io.Reader }

func (r rpFails) Read(p []byte) (int, error) {
	if n, err := r.Reader.Read(p); err == nil {
		return n, nil
	}
	return 0, io.ErrUnexpectedEOF
}

func rpSSEPosts(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, _, _, _ := newServerSSEConnection(ctx, "id")
	var mx sync.Mutex
	var got []byte
	go func() {
		p := make([]byte, 5)
		for {
			n, err := s.Read(p)
			mx.Lock()
			got = append(got, p[:n]...)
			mx.Unlock()
			if err != nil {
				return
			}
		}
	}()
	want := ""
	for i, body := range []string{"{}\x1e", strings.Repeat("0123456789", 20) + "\x1e", "x", "a\n\nb\x1e"} {
		rpWithin(t, 10*time.Second, "posting", func() {
			if status := rpPost(s, rpFails{strings.NewReader("broken")}); status != http.StatusBadRequest {
				t.Errorf("post of a broken body: %v", status)
			}
			if status := rpPost(s, strings.NewReader(body)); status != http.StatusOK {
				t.Errorf("post %v: %v", i, status)
			}
		})
		want += body
		mx.Lock()
		if string(got) != want {
			t.Errorf("posted %.80q, read %.80q", want, got)
		}
		mx.Unlock()
	}
	// a post in the middle of another one is rejected, the later ones are not
	r, w := io.Pipe()
	slow := make(chan int, 1)
	go func() { slow <- rpPost(s, r) }()
	_, _ = w.Write([]byte("slow"))
	for i := 0; i < 3; i++ {
		if status := rpPost(s, strings.NewReader("too early")); status != http.StatusConflict {
			t.Errorf("post in the middle of another one: %v", status)
		}
	}
	_ = w.Close()
	rpWithin(t, 10*time.Second, "a slow post", func() {
		if status := <-slow; status != http.StatusOK {
			t.Errorf("a slow post: %v", status)
		}
		if status := rpPost(s, strings.NewReader("later")); status != http.StatusOK {
			t.Errorf("a later post: %v", status)
		}
	})
	mx.Lock()
	if want += "slowlater"; string(got) != want {
		t.Errorf("posted %.80q, read %.80q", want, got)
	}
	mx.Unlock()
}

func rpSSEEnd(t *testing.T) {
	// nobody reads what was posted
	ctx, cancel := context.WithCancel(context.Background())
	s, _, _, _ := newServerSSEConnection(ctx, "id")
	status := make(chan int, 1)
	go func() { status <- rpPost(s, strings.NewReader("x")) }()
	time.Sleep(20 * time.Millisecond)
	cancel()
	rpWithin(t, 10*time.Second, "a post when the connection ends", func() {
		if code := <-status; code == http.StatusOK {
			t.Errorf("a post succeeded without being read")
		}
		if code := rpPost(s, strings.NewReader("x")); code != http.StatusGone {
			t.Errorf("a post after the connection: %v", code)
		}
	})
	// reads which end while the connection ends
	for i := 0; i < 300; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		s, _, _, _ := newServerSSEConnection(ctx, "id")
		go rpPost(s, strings.NewReader("ab"))
		done := make(chan struct{})
		go func() {
			defer close(done)
			p := make([]byte, 1)
			for {
				if _, err := s.Read(p); err != nil {
					return
				}
			}
		}()
		time.Sleep(time.Duration(i%20) * 5 * time.Microsecond)
		cancel()
		if !rpWithin(t, 5*time.Second, "a read when the connection ends", func() { <-done }) {
			return
		}
	}
}

func rpSSEResponse(t *testing.T) {
	m := newRpSSEMux(t)
	defer m.cancel()
	// a connection that ends ends its response
	_, key := m.negotiate()
	r := httptest.NewRequest("GET", "/?id="+key, nil)
	r.Header.Set("Accept", "text/event-stream")
	w := &rpEvents{}
	done := make(chan struct{})
	go func() { m.h.ServeHTTP(w, r); close(done) }()
	if !rpEventually(10*time.Second, func() bool { return strings.HasPrefix(w.text(), ":") }) {
		t.Errorf("the response does not start")
	}
	post := func(s string) int {
		w := httptest.NewRecorder()
		m.h.ServeHTTP(w, httptest.NewRequest("POST", "/?id="+key, strings.NewReader(s)))
		return w.Code
	}
	rpWithin(t, 10*time.Second, "an invocation", func() {
		if status := post(`{"protocol":"json","version":1}` + "\x1e"); status != 200 {
			t.Errorf("post: %v", status)
		}
		if status := post(`{"type":1,"invocationId":"1","target":"echo","arguments":["x"]}` + "\x1e"); status != 200 {
			t.Errorf("post: %v", status)
		}
	})
	if !rpEventually(10*time.Second, func() bool {
		return strings.Contains(w.sent(), "data: {}\x1e\n\n") && strings.Contains(w.sent(), `data: {"type":3,"invocationId":"1","result":"x"}`+"\x1e\n\n")
	}) {
		t.Errorf("the answer was not sent: %q", w.sent())
	}
	post(`{"type":7}` + "\x1e")
	rpWithin(t, 10*time.Second, "the response of a closed connection", func() { <-done })
	// a response which fails ends its connection
	_, key = m.negotiate()
	r = httptest.NewRequest("GET", "/?id="+key, nil)
	r.Header.Set("Accept", "text/event-stream")
	w = &rpEvents{}
	w.failing = io.ErrClosedPipe
	done = make(chan struct{})
	go func() { m.h.ServeHTTP(w, r); close(done) }()
	rpEventually(10*time.Second, func() bool { return w.text() != "" })
	post(`{"protocol":"json","version":1}` + "\x1e")
	rpWithin(t, 10*time.Second, "the response which cannot be written", func() { <-done })
}

// rpWritingServer writes an event
type rpWritingServer struct {
	Server
	written chan error
}

func (s rpWritingServer) Serve(c Connection) error {
	_, err := c.Write([]byte("{}\x1e"))
	s.written <- err
	return err
}

func rpSSEFailedEvent(t *testing.T) {
	for i := 0; i < 20 && !t.Failed(); i++ {
		m := newRpSSEMux(t)
		server := rpWritingServer{m.h.server, make(chan error, 1)}
		m.h = newHTTPMux(server)
		_, key := m.negotiate()
		r := httptest.NewRequest("GET", "/?id="+key, nil)
		r.Header.Set("Accept", "text/event-stream")
		w := &rpEvents{failing: io.ErrClosedPipe, slow: 20 * time.Millisecond}
		rpWithin(t, 10*time.Second, "an event which cannot be sent", func() {
			go m.h.ServeHTTP(w, r)
			if err := <-server.written; err == nil {
				t.Errorf("the write of an event succeeded which could not be sent")
			}
		})
		m.cancel()
	}
}

// rpEvents remembers what was flushed
type rpEvents struct {
	rpEventsHeader
	mx      sync.Mutex
	buf     bytes.Buffer
	flushed int
	failing error
	slow    time.Duration
}

type rpEventsHeader struct{ header http.Header }

func (w *rpEventsHeader) Header() http.Header {
	if w.header == nil {
		w.header = http.Header{}
	}
	return w.header
}
func (w *rpEventsHeader) WriteHeader(int) {}
func (w *rpEvents) Write(p []byte) (int, error) {
	w.mx.Lock()
	defer w.mx.Unlock()
	time.Sleep(w.slow)
	w.buf.Write(p)
	if w.failing != nil {
		return 0, w.failing
	}
	return len(p), nil
}
func (w *rpEvents) Flush() {
	w.mx.Lock()
	defer w.mx.Unlock()
	w.flushed = w.buf.Len()
}
func (w *rpEvents) text() string {
	w.mx.Lock()
	defer w.mx.Unlock()
	return w.buf.String()
}
func (w *rpEvents) sent() string {
	w.mx.Lock()
	defer w.mx.Unlock()
	return w.buf.String()[:w.flushed]
}

type rpEchoHub struct{ Hub }

func (h *rpEchoHub) Echo(s string) string { return s }

type rpSSEMux struct {
	h      *httpMux
	cancel context.CancelFunc
}

func newRpSSEMux(t *testing.T) *rpSSEMux {
	ctx, cancel := context.WithCancel(context.Background())
	s, err := NewServer(ctx, SimpleHubFactory(&rpEchoHub{}), Logger(log.NewNopLogger(), false), HTTPTransports(TransportServerSentEvents))
	if err != nil {
		t.Fatal(err)
	}
	return &rpSSEMux{newHTTPMux(s), cancel}
}

func (m *rpSSEMux) negotiate() (string, string) {
	m.h.negotiate(httptest.NewRecorder(), httptest.NewRequest("POST", "/negotiate", nil))
	m.h.mx.Lock()
	defer m.h.mx.Unlock()
	for key, c := range m.h.connectionMap {
		if _, ok := c.(*negotiateConnection); ok {
			return "", key
		}
	}
	return "", ""
}

func rpSSEConnect(t *testing.T) {
	m := newRpSSEMux(t)
	defer m.cancel()
	routes := http.NewServeMux()
	routes.HandleFunc("/hub/negotiate", m.h.negotiate)
	routes.Handle("/hub", m.h)
	server := httptest.NewServer(routes)
	defer server.CloseClientConnections()
	for version := 0; version < 2; version++ {
		ctx, cancel := context.WithCancel(context.Background())
		conn, err := NewHTTPConnection(ctx, server.URL+"/hub", WithTransports(TransportServerSentEvents), WithNegotiateVersion(version))
		if err != nil {
			t.Errorf("version %v: %v", version, err)
			cancel()
			continue
		}
		client, err := NewClient(ctx, WithConnection(conn), Logger(log.NewNopLogger(), false))
		if err != nil {
			t.Fatal(err)
		}
		client.Start()
		rpWithin(t, 20*time.Second, "an invocation by server sent events", func() {
			if err := <-client.WaitForState(ctx, ClientConnected); err != nil {
				t.Errorf("version %v: %v", version, err)
				return
			}
			for _, s := range []string{"x", strings.Repeat("long", 7000), "two\nlines data: y"} {
				if r := <-client.Invoke("echo", s); r.Error != nil || r.Value != s {
					t.Errorf("version %v: %.60q was echoed as %.60q, %v", version, s, r.Value, r.Error)
				}
			}
		})
		cancel()
	}
}
