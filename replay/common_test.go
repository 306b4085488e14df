package signalr

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
)

// helpers of the replay batteries: they run the real code and look at what it does

func rpLog() StructuredLogger { return log.NewNopLogger() }

// rpWithin fails the test if f does not return in time.
func rpWithin(t *testing.T, d time.Duration, what string, f func()) bool {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		t.Errorf("%s: blocked for more than %v", what, d)
		return false
	}
}

func rpEventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if f() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return f()
}

// rpConn is a Connection whose reads come from chunks and whose writes are recorded.
type rpConn struct {
	*ConnectionBase
	mx      sync.Mutex
	in      chan []byte
	rest    []byte
	writes  [][]byte
	failing error
	cancel  context.CancelFunc
}

func newRpConn(id string) *rpConn {
	ctx, cancel := context.WithCancel(context.Background())
	return &rpConn{ConnectionBase: NewConnectionBase(ctx, id), in: make(chan []byte, 1000), cancel: cancel}
}

func (c *rpConn) Read(p []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.rest = b
		case <-c.Context().Done():
			return 0, c.Context().Err()
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *rpConn) Write(p []byte) (int, error) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.failing != nil {
		return 0, c.failing
	}
	c.writes = append(c.writes, append([]byte{}, p...))
	return len(p), nil
}

func (c *rpConn) written() [][]byte {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([][]byte{}, c.writes...)
}

func (c *rpConn) fail(err error) {
	c.mx.Lock()
	defer c.mx.Unlock()
	c.failing = err
}

// rpHubConn is a HubConnection that records what is sent.
type rpHubConn struct {
	id     string
	ctx    context.Context
	cancel context.CancelFunc
	mx     sync.Mutex
	sent   []interface{}
	recv   chan receiveResult
	stamp  time.Time
	items  sync.Map
	fail   map[string]error
	onSend func(m interface{})
}

func newRpHubConn(id string) *rpHubConn {
	ctx, cancel := context.WithCancel(context.Background())
	return &rpHubConn{id: id, ctx: ctx, cancel: cancel, recv: make(chan receiveResult, 100), stamp: time.Now(), fail: map[string]error{}}
}

func (c *rpHubConn) add(kind string, m interface{}) error {
	c.mx.Lock()
	defer c.mx.Unlock()
	if c.onSend != nil {
		c.onSend(m)
	}
	c.sent = append(c.sent, m)
	if kind != "close" {
		c.stamp = time.Now()
	}
	return c.fail[kind]
}

func (c *rpHubConn) all() []interface{} {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([]interface{}{}, c.sent...)
}

func (c *rpHubConn) completions(id string) (r []completionMessage) {
	for _, m := range c.all() {
		if x, ok := m.(completionMessage); ok && x.InvocationID == id {
			r = append(r, x)
		}
	}
	return
}

func (c *rpHubConn) ConnectionID() string          { return c.id }
func (c *rpHubConn) Receive() <-chan receiveResult { return c.recv }
func (c *rpHubConn) SendInvocation(id string, target string, args []interface{}) error {
	return c.add("invocation", invocationMessage{Type: 1, InvocationID: id, Target: target, Arguments: args})
}
func (c *rpHubConn) SendStreamInvocation(id string, target string, args []interface{}) error {
	return c.add("invocation", invocationMessage{Type: 4, InvocationID: id, Target: target, Arguments: args})
}
func (c *rpHubConn) SendInvocationWithStreamIds(id string, target string, args []interface{}, streamIds []string) error {
	return c.add("invocation", invocationMessage{Type: 1, InvocationID: id, Target: target, Arguments: args, StreamIds: streamIds})
}
func (c *rpHubConn) StreamItem(id string, item interface{}) error {
	return c.add("item", streamItemMessage{Type: 2, InvocationID: id, Item: item})
}
func (c *rpHubConn) Completion(id string, result interface{}, error string) error {
	return c.add("completion", completionMessage{Type: 3, InvocationID: id, Result: result, Error: error})
}
func (c *rpHubConn) Close(error string, allowReconnect bool) error {
	return c.add("close", closeMessage{Type: 7, Error: error, AllowReconnect: allowReconnect})
}
func (c *rpHubConn) Ping() error { return c.add("ping", hubMessage{Type: 6}) }
func (c *rpHubConn) LastWriteStamp() time.Time {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.stamp
}
func (c *rpHubConn) Items() *sync.Map         { return &c.items }
func (c *rpHubConn) Context() context.Context { return c.ctx }
func (c *rpHubConn) Abort()                   { c.cancel() }

var errRp = errors.New("replay error")
var _ = fmt.Sprint

// rpServerLoop is a loop of a real server on a recording connection.
func rpServerLoop(t *testing.T, hub func() HubInterface, options ...func(Party) error) (*loop, *rpHubConn) {
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	s, err := NewServer(ctx, append([]func(Party) error{HubFactory(hub), Logger(log.NewNopLogger(), false)}, options...)...)
	if err != nil {
		t.Fatal(err)
	}
	hc := newRpHubConn("rp")
	p := &jsonHubProtocol{}
	p.setDebugLogger(rpLog())
	return &loop{party: s, protocol: p, hubConn: hc, info: rpLog(), dbg: rpLog(),
		invokeClient: newInvokeClient(p, s.chanReceiveTimeout()),
		streamClient: newStreamClient(p, s.chanReceiveTimeout(), s.streamBufferCapacity(), s.maxConcurrentStreams()),
		streamer:     &streamer{conn: hc, maxCancels: s.maxConcurrentStreams()}}, hc
}

// rpChunks is a reader which returns one chunk per read, then an error.
type rpChunks struct {
	chunks [][]byte
	eof    bool // the last chunk comes together with io.EOF
	zero   bool // every chunk comes after a read of nothing
	was    bool
}

var errRpEnd = errors.New("connection lost")

func (r *rpChunks) Read(p []byte) (int, error) {
	if r.zero && !r.was {
		r.was = true
		return 0, nil
	}
	r.was = false
	if len(r.chunks) == 0 {
		return 0, errRpEnd
	}
	n := copy(p, r.chunks[0])
	if r.chunks[0] = r.chunks[0][n:]; len(r.chunks[0]) == 0 {
		r.chunks = r.chunks[1:]
	}
	if r.eof {
		return n, io.EOF
	}
	return n, nil
}

func rpJSON() *jsonHubProtocol {
	p := &jsonHubProtocol{}
	p.setDebugLogger(rpLog())
	return p
}

func rpText(x interface{}) string {
	switch x := x.(type) {
	case nil:
		return "<nil>"
	case json.RawMessage:
		return "raw:" + string(x)
	}
	return fmt.Sprintf("%T:%v", x, x)
}

func rpMessage(m interface{}) string {
	switch m := m.(type) {
	case invocationMessage:
		s := fmt.Sprintf("invocation %d %q %q %q", m.Type, m.Target, m.InvocationID, m.StreamIds)
		for _, a := range m.Arguments {
			s += " " + rpText(a)
		}
		return s
	case streamItemMessage:
		return fmt.Sprintf("item %d %q %s", m.Type, m.InvocationID, rpText(m.Item))
	case completionMessage:
		return fmt.Sprintf("completion %d %q %q %s", m.Type, m.InvocationID, m.Error, rpText(m.Result))
	case cancelInvocationMessage:
		return fmt.Sprintf("cancel %d %q", m.Type, m.InvocationID)
	case closeMessage:
		return fmt.Sprintf("close %d %q %v", m.Type, m.Error, m.AllowReconnect)
	case hubMessage:
		return fmt.Sprintf("hub %d", m.Type)
	}
	return fmt.Sprintf("%T %v", m, m)
}

// rpRecord is a record and the message it stands for.
type rpRecord struct{ text, want string }

func rpRecords() []rpRecord {
	long := strings.Repeat("x", 40000)
	return []rpRecord{
		{`{"type":1,"target":"Add","invocationId":"1","arguments":[1,"a",{"b":[2]}],"streamIds":["s1","s2"]}`, `invocation 1 "Add" "1" ["s1" "s2"] raw:1 raw:"a" raw:{"b":[2]}`},
		{`{"type":6}`, `hub 6`},
		{`{"target":"NoType"}`, `hub 0`},
		{`{"type":3,"invocationId":"2","result":{"x":1}}`, `completion 3 "2" "" raw:{"x":1}`},
		{`{"type":3,"invocationId":"3"}`, `completion 3 "3" "" <nil>`},
		{`{"type":3,"invocationId":"4","error":"no"}`, `completion 3 "4" "no" <nil>`},
		{`{"type":2,"invocationId":"5","item":[1,2]}`, `item 2 "5" raw:[1,2]`},
		{`{"type":1,"target":"None"}`, `invocation 1 "None" "" []`},
		{`{}`, `hub 0`},
		{`{"type":4,"target":"Str","invocationId":"6","arguments":["\u001e"]}`, `invocation 4 "Str" "6" [] raw:"\u001e"`},
		{`{"type":5,"invocationId":"7"}`, `cancel 5 "7"`},
		{`{"type":1,"target":"Long","arguments":["` + long + `"]}`, `invocation 1 "Long" "" [] raw:"` + long + `"`},
		{`{"type":1,"target":"` + "\u00fc\u20ac" + `","arguments":[true]}`, `invocation 1 "` + "\u00fc\u20ac" + `" "" [] raw:true`},
		{`{"type":7,"error":"e","allowReconnect":true}`, `close 7 "e" true`},
		{`{"type":99}`, `hub 99`},
		{" { \"type\" : 1 ,\t\"target\" : \"one two \" ,\r\n \"arguments\" : [ \" a  b\\t\" ] } ", `invocation 1 "one two " "" [] raw:" a  b\t"`},
	}
}

// rpReadAll parses until the reader fails.
func rpReadAll(p hubProtocol, r io.Reader) (ms []string, rest []byte, err error) {
	b := &bytes.Buffer{}
	for n := 0; n < 100000; n++ {
		m, err := p.ParseMessages(r, b)
		for _, x := range m {
			ms = append(ms, rpMessage(x))
		}
		if err != nil {
			return ms, b.Bytes(), err
		}
	}
	return ms, b.Bytes(), errors.New("endless")
}

func rpCuts(s string, size int) (r [][]byte) {
	for len(s) > size {
		r = append(r, []byte(s[:size]))
		s = s[size:]
	}
	return append(r, []byte(s))
}

func rpDiff(t *testing.T, what string, got, want []string) bool {
	t.Helper()
	if reflect.DeepEqual(got, want) || len(got) == 0 && len(want) == 0 {
		return true
	}
	for i := range want {
		if i >= len(got) {
			t.Errorf("%s: %d messages instead of %d", what, len(got), len(want))
			return false
		}
		if got[i] != want[i] {
			t.Errorf("%s: message %d is %.100q instead of %.100q", what, i, got[i], want[i])
			return false
		}
	}
	t.Errorf("%s: %d messages instead of %d", what, len(got), len(want))
	return false
}
