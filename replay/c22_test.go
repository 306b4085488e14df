package signalr

import (
	"bytes"
	"context"
	"errors"
	"io"
	"reflect"
	"sync"
	"testing"
	"time"
)

// rpProtocol records what it is asked to write.
type rpProtocol struct {
	hubProtocol
	mx    sync.Mutex
	msgs  []interface{}
	err   error
	block chan struct{}
	conn  io.Writer
	modes int
}

func (p *rpProtocol) WriteMessage(m interface{}, w io.Writer) error {
	p.mx.Lock()
	p.msgs = append(p.msgs, m)
	p.conn = w
	err, b := p.err, p.block
	p.mx.Unlock()
	if b != nil {
		<-b
	}
	return err
}
func (p *rpProtocol) written() []interface{} {
	p.mx.Lock()
	defer p.mx.Unlock()
	return append([]interface{}{}, p.msgs...)
}
func (p *rpProtocol) transferMode() TransferMode { return BinaryTransferMode }
func (p *rpProtocol) ParseMessages(io.Reader, *bytes.Buffer) ([]interface{}, error) {
	return nil, io.EOF
}

type rpModeConn struct {
	*rpConn
	mode TransferMode
}

func (c *rpModeConn) TransferMode() TransferMode     { return c.mode }
func (c *rpModeConn) SetTransferMode(m TransferMode) { c.mode = m }

func TestReplayC22(t *testing.T) {
	args := []interface{}{1, "a"}
	ids := []string{"s1", "s2"}
	sends := []struct {
		name string
		f    func(h HubConnection) error
		want interface{}
	}{
		{"SendInvocation", func(h HubConnection) error { return h.SendInvocation("i", "t", args) }, invocationMessage{Type: 1, InvocationID: "i", Target: "t", Arguments: args}},
		{"SendInvocation without id", func(h HubConnection) error { return h.SendInvocation("", "t", args) }, invocationMessage{Type: 1, Target: "t", Arguments: args}},
		{"SendInvocation without args", func(h HubConnection) error { return h.SendInvocation("i", "t", nil) }, invocationMessage{Type: 1, InvocationID: "i", Target: "t", Arguments: []interface{}{}}},
		{"SendStreamInvocation", func(h HubConnection) error { return h.SendStreamInvocation("i", "t", args) }, invocationMessage{Type: 4, InvocationID: "i", Target: "t", Arguments: args}},
		{"SendInvocationWithStreamIds", func(h HubConnection) error { return h.SendInvocationWithStreamIds("i", "t", args, ids) }, invocationMessage{Type: 1, InvocationID: "i", Target: "t", Arguments: args, StreamIds: ids}},
		{"StreamItem", func(h HubConnection) error { return h.StreamItem("i", 7) }, streamItemMessage{Type: 2, InvocationID: "i", Item: 7}},
		{"StreamItem nil", func(h HubConnection) error { return h.StreamItem("i", nil) }, streamItemMessage{Type: 2, InvocationID: "i"}},
		{"Completion", func(h HubConnection) error { return h.Completion("i", 7, "") }, completionMessage{Type: 3, InvocationID: "i", Result: 7}},
		{"Completion error", func(h HubConnection) error { return h.Completion("i", nil, "e") }, completionMessage{Type: 3, InvocationID: "i", Error: "e"}},
		{"Ping", func(h HubConnection) error { return h.Ping() }, hubMessage{Type: 6}},
	}
	for _, s := range sends {
		for _, failing := range []error{nil, errRp, io.EOF, io.ErrShortWrite, context.Canceled, context.DeadlineExceeded} {
			conn := &rpModeConn{rpConn: newRpConn("cid")}
			p := &rpProtocol{err: failing}
			h := newHubConnection(conn, p, 1000, rpLog())
			if conn.mode != BinaryTransferMode || h.ConnectionID() != "cid" || h.Items() == nil {
				t.Errorf("new hub connection: mode %v id %v", conn.mode, h.ConnectionID())
			}
			before := time.Now()
			time.Sleep(time.Millisecond)
			var err error
			rpWithin(t, 3*time.Second, s.name, func() { err = s.f(h) })
			if m := p.written(); len(m) != 1 || !reflect.DeepEqual(m[0], s.want) || p.conn != io.Writer(conn) {
				t.Errorf("%s wrote %#v, want %#v", s.name, m, s.want)
			}
			if h.LastWriteStamp().Before(before) {
				t.Errorf("%s was not recorded", s.name)
			}
			if failing == nil {
				if err != nil || h.Context().Err() != nil {
					t.Errorf("%s: %v", s.name, err)
				}
			} else {
				if !errors.Is(err, failing) && h.Context().Err() == nil || err == nil {
					t.Errorf("%s hides a failed write: %v", s.name, err)
				}
				if h.Context().Err() == nil {
					t.Errorf("%s: a failed write does not cancel the connection", s.name)
				}
			}
			// cancelled by a failure, by Abort or with the transport: nothing more is written
			switch {
			case failing == errRp:
				conn.cancel()
			default:
				h.Abort()
			}
			if h.Context().Err() == nil {
				t.Errorf("the connection is not cancelled")
			}
			for _, s2 := range sends {
				rpWithin(t, 3*time.Second, s2.name, func() { err = s2.f(h) })
				if err == nil {
					t.Errorf("%s on a cancelled connection succeeds", s2.name)
				}
			}
			if m := p.written(); len(m) != 1 {
				t.Errorf("written on a cancelled connection: %v", m)
			}
			if err = h.Close("bye", true); !errors.Is(err, failing) {
				t.Errorf("Close returned %v", err)
			}
			if m := p.written(); len(m) != 2 || m[1] != interface{}(closeMessage{Type: 7, Error: "bye", AllowReconnect: true}) {
				t.Errorf("Close wrote %#v", m)
			}
		}
		// a write that blocks does not outlive the connection
		p := &rpProtocol{block: make(chan struct{})}
		h := newHubConnection(newRpConn("x"), p, 1000, rpLog())
		go func() {
			for len(p.written()) == 0 {
				time.Sleep(time.Millisecond)
			}
			h.Abort()
		}()
		rpWithin(t, 3*time.Second, s.name+" blocked", func() {
			if s.f(h) == nil {
				t.Errorf("%s succeeds though its write was cancelled", s.name)
			}
		})
		close(p.block)
	}
	for _, want := range []error{nil, errRp, io.EOF, io.ErrShortWrite, context.DeadlineExceeded} {
		un := 0
		n, err := ReadWriteWithContext(context.Background(), func() (int, error) { return 5, want }, func() { un++ })
		if n != 5 || err != want || un != 0 {
			t.Errorf("ReadWriteWithContext: %v %v %v", n, err, un)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var un, ran int
	b := make(chan struct{})
	go func() { time.Sleep(10 * time.Millisecond); cancel() }()
	rpWithin(t, 3*time.Second, "ReadWriteWithContext", func() {
		if _, err := ReadWriteWithContext(ctx, func() (int, error) { <-b; return 1, nil }, func() { un++; close(b) }); err == nil || un != 1 {
			t.Errorf("cancelled operation: %v, unblocked %d times", err, un)
		}
	})
	rpWithin(t, 3*time.Second, "ReadWriteWithContext", func() {
		if _, err := ReadWriteWithContext(ctx, func() (int, error) { ran++; return 1, nil }, func() {}); err == nil || ran != 0 {
			t.Errorf("operation on a cancelled context: %v, ran %d times", err, ran)
		}
	})
}
