package signalr

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/coder/websocket"
)

// rpLastWords is a connection which returns its last bytes together with an error.
type rpLastWords struct {
	*rpConn
	text string
}

func (c *rpLastWords) Read(p []byte) (int, error) {
	if c.text == "" {
		<-c.Context().Done()
		return 0, c.Context().Err()
	}
	n := copy(p, c.text)
	if c.text = c.text[n:]; c.text == "" {
		return n, errRpEnd
	}
	return n, nil
}

func TestReplayC01(t *testing.T) {
	rs := rpRecords()
	text, want := "", []string{}
	for _, r := range rs {
		text += r.text + "\x1e"
		want = append(want, r.want)
	}
	rpWithin(t, 100*time.Second, "parsing", func() {
		// all records with reads of each size
		for _, size := range []int{1, 2, 3, 7, 10, 11, 64, 1000, 32767, 32768, 32769, 1 << 20} {
			for _, mode := range []string{"", "eof", "zero"} {
				got, _, err := rpReadAll(rpJSON(), &rpChunks{chunks: rpCuts(text, size), eof: mode == "eof", zero: mode == "zero"})
				if !rpDiff(t, fmt.Sprintf("reads of %d bytes %s", size, mode), got, want) || !errors.Is(err, errRpEnd) {
					t.Errorf("reads of %d bytes %s: error %v", size, mode, err)
					return
				}
			}
		}
		// each pair of records, each cut
		for i, a := range rs {
			for j, b := range rs {
				if len(a.text) > 1000 || len(b.text) > 1000 {
					continue
				}
				s := a.text + "\x1e" + b.text + "\x1e"
				for c := 0; c < len(s); c++ {
					got, _, _ := rpReadAll(rpJSON(), &rpChunks{chunks: [][]byte{[]byte(s[:c]), []byte(s[c:])}})
					if !rpDiff(t, fmt.Sprintf("records %d, %d cut at %d", i, j, c), got, []string{a.want, b.want}) {
						return
					}
				}
			}
		}
		// many records in one read, and the last one incomplete
		for _, n := range []int{2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 3000} {
			s, w := "", []string{}
			for i := 0; i < n; i++ {
				s += fmt.Sprintf(`{"type":2,"invocationId":"%d"}`, i) + "\x1e"
				w = append(w, fmt.Sprintf(`item 2 "%d" raw:`, i))
			}
			for _, tail := range []string{"", `{"type":3,"invocationId":"tail"}`} {
				w, chunks := w, [][]byte{[]byte(s + tail)}
				if tail != "" {
					w = append(w[:len(w):len(w)], `completion 3 "tail" "" <nil>`)
					chunks = append(chunks, []byte("\x1e"))
				}
				got, _, _ := rpReadAll(rpJSON(), &rpChunks{chunks: chunks})
				if !rpDiff(t, fmt.Sprintf("%d records at once", n), got, w) {
					return
				}
			}
		}
		// messages keep their values when more are parsed
		p, b := rpJSON(), &bytes.Buffer{}
		r := &rpChunks{chunks: rpCuts(text, 50)}
		var all []interface{}
		for {
			ms, err := p.ParseMessages(r, b)
			all = append(all, ms...)
			if err != nil {
				break
			}
		}
		got := []string{}
		for _, m := range all {
			got = append(got, rpMessage(m))
		}
		rpDiff(t, "messages kept", got, want)
		// an invalid record
		for _, bad := range []string{`{"type":1,"target":5}`, `nonsense`, `{"type":"x"}`, `[]`, `{"type":3,"error":1}`} {
			s := `{"type":6}` + "\x1e" + `{"type":5,"invocationId":"7"}` + "\x1e" + bad + "\x1e"
			got, _, err := rpReadAll(rpJSON(), &rpChunks{chunks: [][]byte{[]byte(s)}})
			rpDiff(t, "before an invalid record", got, []string{"hub 6", `cancel 5 "7"`})
			if err == nil || errors.Is(err, errRpEnd) {
				t.Errorf("invalid record %s: error %v", bad, err)
			}
		}
	})
	// the way through a hub connection
	for _, size := range []int{1, 13, 1000, 1 << 20} {
		size := size
		rpWithin(t, 20*time.Second, "hub connection", func() {
			conn := newRpConn("c")
			defer conn.cancel()
			go func() {
				for _, c := range rpCuts(text, size) {
					conn.in <- c
				}
			}()
			hc := newHubConnection(conn, rpJSON(), 1<<20, rpLog())
			got := []string{}
			ch := hc.Receive()
			for range want {
				select {
				case m := <-ch:
					if m.err != nil {
						t.Errorf("reads of %d: %v", size, m.err)
						return
					}
					got = append(got, rpMessage(m.message))
				case <-time.After(3 * time.Second):
					t.Errorf("reads of %d: message %d is missing", size, len(got))
					return
				}
			}
			rpDiff(t, fmt.Sprintf("hub connection, reads of %d", size), got, want)
		})
	}
	// bytes which come together with an error
	rpWithin(t, 20*time.Second, "hub connection", func() {
		conn := &rpLastWords{newRpConn("c"), text}
		defer conn.cancel()
		got, failed := []string{}, false
		ch := newHubConnection(conn, rpJSON(), 1<<20, rpLog()).Receive()
		for len(got) < len(want) || !failed {
			select {
			case m := <-ch:
				if m.err != nil {
					failed = true
				} else {
					got = append(got, rpMessage(m.message))
				}
			case <-time.After(3 * time.Second):
				t.Errorf("bytes with an error: message %d is missing", len(got))
				return
			}
		}
		rpDiff(t, "bytes with an error", got, want)
	})
	// the way through a WebSocket
	rpWithin(t, 20*time.Second, "websocket", func() {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			ws, err := websocket.Accept(w, r, nil)
			if err != nil {
				return
			}
			for _, c := range rpCuts(text, 1300) {
				_ = ws.Write(context.Background(), websocket.MessageText, c)
			}
			_ = ws.Write(context.Background(), websocket.MessageText, []byte(text))
			// fragments of one message
			if wr, err := ws.Writer(context.Background(), websocket.MessageText); err == nil {
				for _, c := range rpCuts(text, 777) {
					_, _ = wr.Write(c)
				}
				_ = wr.Close()
			}
			_, _, _ = ws.Read(context.Background())
		}))
		defer srv.Close()
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		ws, _, err := websocket.Dial(ctx, "ws"+strings.TrimPrefix(srv.URL, "http"), nil)
		if err != nil {
			t.Skip(err)
		}
		conn := newWebSocketConnection(ctx, "id", ws)
		p, b := rpJSON(), &bytes.Buffer{}
		got := []string{}
		for len(got) < 3*len(want) {
			ms, err := p.ParseMessages(conn, b)
			for _, m := range ms {
				got = append(got, rpMessage(m))
			}
			if err != nil {
				t.Errorf("websocket: %v", err)
				return
			}
		}
		rpDiff(t, "websocket", got, append(append(append([]string{}, want...), want...), want...))
	})
}
