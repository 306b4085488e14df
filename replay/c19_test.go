package signalr

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/go-kit/log"
	"github.com/vmihailenco/msgpack/v5"
)

type rpHub19 struct {
	Hub
}

func (h *rpHub19) None()                                {}
func (h *rpHub19) Add(a, b int) int                     { return a + b }
func (h *rpHub19) Two(a string) (int, string)           { return 1, a }
func (h *rpHub19) Struct(a struct{ A int }) interface{} { return a }
func (h *rpHub19) Panics(a int) int                     { panic(a) }
func (h *rpHub19) Upload(ch <-chan int) int             { return rpSum(ch) }
func (h *rpHub19) Uploads(a, b <-chan int, c chan string) {
	go rpSum(a)
	go rpSum(b)
	close(make(chan int))
}
func (h *rpHub19) Ignores(a <-chan int)                        {}
func (h *rpHub19) SendOnly(a chan<- int) chan<- int            { return a }
func (h *rpHub19) Gives() chan<- int                           { return make(chan<- int) }
func (h *rpHub19) Error() error                                { return nil }
func (h *rpHub19) Variadic(a ...int) int                       { return len(a) }
func (h *rpHub19) NilChan() <-chan int                         { return nil }
func (h *rpHub19) Map(a map[string]interface{}, b interface{}) {}
func (h *rpHub19) Func(a func(), b []byte)                     {}
func (h *rpHub19) Stream(n int) <-chan int {
	ch := make(chan int, 3)
	ch <- n
	close(ch)
	return ch
}
func (h *rpHub19) Error2() (<-chan int, error) { return nil, nil }

func rpSum(ch <-chan int) (n int) {
	for {
		select {
		case x, ok := <-ch:
			if !ok {
				return
			}
			n += x
		case <-time.After(100 * time.Millisecond):
			return
		}
	}
}

var rpTargets = []string{"none", "add", "two", "struct", "panics", "upload", "uploads", "ignores", "sendonly", "gives", "error", "variadic", "nilchan", "map", "func", "stream", "error2", "", "missing", "context", "initialize"}

func rpFrame(body []byte) []byte {
	var l [binary.MaxVarintLen64]byte
	return append(append([]byte{}, l[:binary.PutUvarint(l[:], uint64(len(body)))]...), body...)
}

func rpPack(x ...interface{}) []byte {
	b := &bytes.Buffer{}
	_ = msgpack.NewEncoder(b).Encode(x)
	return rpFrame(b.Bytes())
}

func rpJSONCases() (r []string) {
	for _, target := range rpTargets {
		for _, typ := range []string{"1", "4"} {
			for _, id := range []string{"", `,"invocationId":"1"`} {
				for _, args := range []string{"", `,"arguments":null`, `,"arguments":[]`, `,"arguments":[1]`, `,"arguments":["a",{}]`, `,"arguments":[null,null,null]`, `,"arguments":[[],{}]`} {
					for _, ids := range []string{"", `,"streamIds":null`, `,"streamIds":["s"]`, `,"streamIds":["s","t","u"]`} {
						r = append(r, `{"type":`+typ+`,"target":"`+target+`"`+id+args+ids+`}`)
					}
				}
			}
		}
	}
	for _, x := range []string{``, `null`, `[]`, `[1]`, `1`, `"a"`, `{}`, `{"type":null}`, `{"type":"1"}`, `{"type":1.5}`, `{"type":-1}`, `{"type":1e400}`, `{"type":6}`,
		`{"type":1,"target":1}`, `{"type":1,"arguments":{}}`, `{"type":1,"target":"upload","streamIds":[1]}`, `{"type":2}`, `{"type":2,"invocationId":"s"}`, `{"type":2,"invocationId":"s","item":{}}`,
		`{"type":2,"invocationId":1}`, `{"type":3}`, `{"type":3,"invocationId":"s","result":{}}`, `{"type":3,"invocationId":"s","error":"e"}`, `{"type":3,"invocationId":"s","result":1,"error":"e"}`, `{"type":5}`,
		`{"type":5,"invocationId":"1"}`, `{"type":5,"invocationId":{}}`, `{"type":8}`, `{"type":99,"a":[[[[]]]]}`, `{"type":7,"error":1}`, `{"type":7,"error":"e","allowReconnect":true}`, `{"type":7}`, "\x00\xff", `{"type":1,`, `{"type":1,"target":"` + "\xff" + `"}`} {
		r = append(r, x)
	}
	return
}

func rpPackCases() (r [][]byte) {
	m := map[string]interface{}{}
	for _, target := range rpTargets {
		for _, typ := range []int{1, 4} {
			for _, id := range []interface{}{nil, "1"} {
				for _, args := range []interface{}{nil, []interface{}{}, []interface{}{1}, []interface{}{"a", m}, []interface{}{nil, nil, nil}, []interface{}{[]int{}, m}} {
					for _, ids := range []interface{}{nil, []string{}, []string{"s"}, []string{"s", "t", "u"}} {
						r = append(r, rpPack(typ, m, id, target, args, ids))
					}
					r = append(r, rpPack(typ, m, id, target, args))
				}
			}
		}
	}
	odd := map[interface{}]interface{}{}
	odd[[1]int{1}] = 1
	odd[1] = "a"
	for _, x := range [][]interface{}{{}, {1}, {"a"}, {nil}, {-1}, {uint64(math.MaxUint64)}, {1, nil}, {1, odd, "1", "add"}, {1, m, "1", "add", 1}, {1, m, "1", "add", m}, {1, m, 1, "add", []int{}, 1}, {1, m, "1", 1, []interface{}{}, []interface{}{}},
		{1, m, "1", "add", []interface{}{odd, 1}, nil}, {1, m, "1", "upload", []interface{}{}, []interface{}{1}}, {2}, {2, m}, {2, m, "s"}, {2, m, "s", nil}, {2, m, "s", odd}, {2, m, nil, m}, {3}, {3, m, "s"}, {3, m, "s", 1}, {3, m, "s", 1, 2}, {3, m, "s", 2},
		{3, m, "s", 3}, {3, m, "s", 3, 1}, {3, m, "1", 3, nil}, {3, m, "s", 4, 1}, {3, m, "s", -1}, {3, m, "s", "a"}, {3, odd, "s", 3, odd}, {5}, {5, m}, {5, m, "1"}, {5, m, 1}, {5, nil, nil}, {6}, {6, 1}, {7}, {7, nil}, {7, "e", true}, {7, m, "e"}, {7, 1, 1}, {8, m}, {99}} {
		r = append(r, rpPack(x...))
	}
	// bodies that are no array, maps with keys that are arrays or maps, lengths without content
	for _, x := range []string{"", "\xc0", "\xc1", "\x01", "\xa1", "\x80", "\xdc", "\xdd\xff\xff\xff\xff", "\xdd\xff\xff\xff\xff\x01", "\x96\x01\x80\xa1\x31\xa3add\xdd\xff\xff\xff\xff", "\x95\x01\x80\xa1\x31\xa3add\xdd\x7f\xff\xff\xff",
		"\x95\x01\x81\x90\x01\xa1\x31\xa3add\x92\x01\x01", "\x95\x01\x80\xa1\x31\xa3add\x92\x81\x80\x01\x01", "\x94\x02\x80\xa1s\x81\x90\x01", "\x95\x03\x80\xa1s\x03\x81\x91\x01\x01", "\x95\x01\x80\xa1\x31\xa3add\xc0", "\x96\x01\x80\xa1\x31\xa6upload\xc0\xc0", "\x96\x01\x80\xa1\x31\xa6upload\x90\x91\xc0",
		"\x95\x01\xdf\xff\xff\xff\xff", "\x94\x02\xdf\xff\xff\xff\xff\x80", "\x95\x01\x80\xdb\xff\xff\xff\xff", "\x95\x01\x80\xa1\x31\xa3add\x91\xc9\xff\xff\xff\xff", "\x95\x01\x80\xa1\x31\xa3add\x91\xd4\x01\x01", "\x95\x01\x80\xa1\x31\xa3add\x92\xd6\xff\x00\x00\x00\x00\x01"} {
		r = append(r, rpFrame([]byte(x)))
	}
	// lengths
	for _, n := range []uint64{0, 1, 5, 127, 128, 1 << 15, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64} {
		var l [binary.MaxVarintLen64]byte
		r = append(r, append(append([]byte{}, l[:binary.PutUvarint(l[:], n)]...), 0x91, 0x06))
	}
	r = append(r, bytes.Repeat([]byte{0x80}, 9), bytes.Repeat([]byte{0x80}, 10), bytes.Repeat([]byte{0xff}, 12), []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02, 1})
	return
}

func TestReplayC19(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sem := make(chan struct{}, 32)
	var wg sync.WaitGroup
	each := func(what string, f func()) {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%s: %v", what, r)
				}
			}()
			f()
		}()
	}
	serve := func(protocol string, msgs ...[]byte) {
		name := "add"
		if len(msgs) > 0 {
			name = string(msgs[len(msgs)-1])
		}
		each(fmt.Sprintf("server, %s, %q", protocol, name), func() {
			s, err := NewServer(ctx, HubFactory(func() HubInterface { return &rpHub19{} }), Logger(log.NewNopLogger(), false), ChanReceiveTimeout(10*time.Millisecond), StreamBufferCapacity(1), HandshakeTimeout(100*time.Millisecond), MaximumReceiveMessageSize(1<<16))
			if err != nil {
				t.Error(err)
				return
			}
			conn := newRpConn("c")
			conn.in <- []byte(`{"protocol":"` + protocol + `","version":1}` + "\x1e")
			for _, m := range msgs {
				conn.in <- m
			}
			done := make(chan struct{})
			go func() {
				time.Sleep(50 * time.Millisecond)
				conn.cancel()
				close(done)
			}()
			_ = s.Serve(conn)
			conn.cancel()
			<-done
		})
	}
	// every message alone, and where streams and calls run
	rec := func(s string) []byte { return []byte(s + "\x1e") }
	jsonUp := rec(`{"type":1,"target":"ignores","invocationId":"9","arguments":[],"streamIds":["s"]}`)
	packUp := rpPack(1, map[string]interface{}{}, "9", "ignores", []interface{}{}, []string{"s"})
	for _, m := range rpJSONCases() {
		serve("json", jsonUp, rec(m), rec(m))
	}
	serve("json", []byte(`{"type":6}`))
	serve("json", []byte("\x1e\x1e\x1e"))
	for _, m := range rpPackCases() {
		serve("messagepack", packUp, m, m)
		if len(m) > 2 {
			serve("messagepack", packUp, m[:len(m)-1])
		}
	}
	// sequences of items and completions
	for _, typ := range []string{`{"type":3,"invocationId":"s"}`, `{"type":3,"invocationId":"s","error":"e"}`, `{"type":3,"invocationId":"s","result":1}`} {
		item := rec(`{"type":2,"invocationId":"s","item":1}`)
		serve("json", jsonUp, item, rec(typ), item)
		serve("json", jsonUp, item, item, rec(typ), item)
		serve("json", jsonUp, rec(typ), rec(typ), jsonUp)
		serve("json", jsonUp, jsonUp, item, item, rec(typ))
	}
	wg.Wait()

	// handshakes
	for _, x := range []string{"", "\x1e", "null\x1e", "[]\x1e", "1\x1e", "{}\x1e", `{"protocol":null}` + "\x1e", `{"protocol":1,"version":1}` + "\x1e", `{"protocol":"json","version":"1"}` + "\x1e", `{"protocol":"x","version":1}` + "\x1e", `{"error":1}` + "\x1e", `{"error":"e"}` + "\x1e", "\x00\xff\x1e", `{"protocol":"json"`} {
		x := x
		each("handshake with the server", func() {
			s, _ := NewServer(ctx, HubFactory(func() HubInterface { return &rpHub19{} }), Logger(log.NewNopLogger(), false), HandshakeTimeout(50*time.Millisecond))
			conn := newRpConn("c")
			conn.in <- []byte(x)
			close(conn.in)
			_ = s.Serve(conn)
		})
		each("handshake with the client", func() {
			conn := newRpConn("c")
			conn.in <- []byte(x)
			close(conn.in)
			c, err := NewClient(ctx, WithConnection(conn), Logger(log.NewNopLogger(), false), HandshakeTimeout(50*time.Millisecond))
			if err != nil {
				t.Error(err)
				return
			}
			cl := c.(*client)
			cl.conn = conn
			_, _ = cl.receiveHandshakeResponse()
		})
	}
	wg.Wait()

	// the client's loop while calls and streams are pending
	client := func(p hubProtocol, what string, msgs [][]byte) {
		each("client, "+what, func() {
			c, err := NewClient(ctx, WithConnection(newRpConn("x")), WithReceiver(&rpHub19{}), Logger(log.NewNopLogger(), false), ChanReceiveTimeout(20*time.Millisecond))
			if err != nil {
				t.Error(err)
				return
			}
			conn := newRpConn("c")
			l := newLoop(c.(*client), conn, p)
			call, _ := l.invokeClient.newInvocation("1")
			_ = call
			_ = l.PullStream("m", "2")
			up := make(chan int)
			_, _ = l.PushStreams("m", "3", up)
			for _, m := range msgs {
				conn.in <- m
			}
			go func() {
				time.Sleep(30 * time.Millisecond)
				conn.cancel()
			}()
			_ = l.Run(make(chan struct{}, 1))
			time.Sleep(5 * time.Millisecond)
		})
	}
	m := map[string]interface{}{}
	client(&jsonHubProtocol{}, "invocation", [][]byte{rec(`{"type":1,"target":"none","arguments":[]}`), rec(`{"type":1,"target":"m","invocationId":"7","arguments":[]}`)})
	client(&messagePackHubProtocol{}, "invocation", [][]byte{rpPack(1, m, nil, "none", []interface{}{}), rpPack(4, m, "7", "m", []interface{}{}, []string{"a"})})
	each("invocation of nothing", func() {
		_, _ = getMethod(nil, "m")
		_, _ = getMethod(nil, "")
	})
	for _, id := range []string{"1", "2", "3", "4", ""} {
		var js []string
		var ps [][]byte
		for _, r := range []string{"", `,"result":null`, `,"result":1`, `,"result":{"a":[]}`, `,"error":"e"`, `,"error":"e","result":1`} {
			js = append(js, `{"type":3,"invocationId":"`+id+`"`+r+`}`)
		}
		js = append(js, `{"type":2,"invocationId":"`+id+`","item":1}`, `{"type":2,"invocationId":"`+id+`"}`, `{"type":5,"invocationId":"`+id+`"}`)
		ps = append(ps, rpPack(3, m, id, 2), rpPack(3, m, id, 3, 1), rpPack(3, m, id, 1, "e"), rpPack(3, m, id, 3, nil), rpPack(2, m, id, 1), rpPack(2, m, id, nil), rpPack(5, m, id))
		for i := range js {
			for j := range js {
				client(&jsonHubProtocol{}, js[i]+js[j], [][]byte{rec(js[i]), rec(js[j])})
			}
		}
		for i := range ps {
			for j := range ps {
				client(&messagePackHubProtocol{}, fmt.Sprintf("%q", append(ps[i], ps[j]...)), [][]byte{ps[i], ps[j]})
			}
		}
	}
	wg.Wait()

	// calls that end at the same time in several ways
	for n := 0; n < 200; n++ {
		i := newInvokeClient(rpJSON(), 20*time.Millisecond)
		i.newInvocation("1")
		var ends sync.WaitGroup
		for _, f := range []func(){
			func() { _ = i.receiveCompletionItem(completionMessage{Type: 3, InvocationID: "1", Error: "e"}) },
			func() { _ = i.receiveCompletionItem(completionMessage{Type: 3, InvocationID: "1"}) },
			func() { i.deleteInvocation("1") }, i.cancelAllInvokes} {
			ends.Add(1)
			go func(f func()) { defer ends.Done(); f() }(f)
		}
		ends.Wait()
	}
}
