package signalr

import (
	"bytes"
	"context"
	"io"

	"github.com/coder/websocket"
)

// C01, C02: the way from the connection to the protocol and from the protocol to the message loop loses nothing.
//
// Ghost state: rcv.conn, rcv.r, rcv.w the connection and the ends of the pipe; rcv.got the bytes read from the connection
// and not passed on yet; rcv.buf the buffer for remaining bytes, rcv.rest its content; rcv.msgs, rcv.n, rcv.i the parsed
// messages, their number and the number of those passed on; rcv.err the error of the last parse, not reported yet.

//govc:model io.Pipe
func c01pipe__receive() (*io.PipeReader, *io.PipeWriter) {
	r, w := &io.PipeReader{}, &io.PipeWriter{}
	gvSet[io.Reader]("rcv.r", "", r)
	gvSet[io.Writer]("rcv.w", "", w)
	return r, w
}

//govc:model (*io.PipeReader).CloseWithError
func c01readerClose__receive(r *io.PipeReader, err error) error { return nil }

//govc:model (*io.PipeWriter).CloseWithError
func c01writerClose__receive(w *io.PipeWriter, err error) error { return nil }

//govc:model (io.Reader).Read|(Connection).Read
func c01connRead__receive(r io.Reader, p []byte) (int, error) {
	gvCheck("only-the-connection-is-read", gvSame(r, gvGet[io.Reader]("rcv.conn", "")))
	gvCheck("everything-read-is-passed-on-before-the-next-read", gvGet[string]("rcv.got", "") == "")
	gvCheck("a-failed-connection-is-reported", gvGet[error]("rcv.readErr", "") == nil)
	s := gvAny[string]()
	gvAssume(len(s) <= len(p))
	gvSetBytes(p, s)
	gvSet("rcv.got", "", s)
	gvCover("read")
	if gvFork(2) == 0 {
		return len(s), nil
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvSet("rcv.readErr", "", err)
	return len(s), err
}

//govc:model (*io.PipeWriter).Write
func c01pipeWriter__receive(w *io.PipeWriter, p []byte) (int, error) {
	return c01pipeWrite__receive(w, p)
}

//govc:model (io.Writer).Write
func c01pipeWrite__receive(w io.Writer, p []byte) (int, error) {
	gvCheck("bytes-go-to-the-pipe-of-the-parser", gvSame(w, gvGet[io.Writer]("rcv.w", "")))
	gvCheck("bytes-are-passed-on-as-they-were-read", gvAnd(string(p) == gvGet[string]("rcv.got", ""), len(p) > 0))
	gvSet("rcv.got", "", "")
	gvCover("passed on")
	if gvFork(2) == 0 {
		return len(p), nil
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvSet("rcv.readErr", "", err)
	return 0, err
}

//govc:model (hubProtocol).ParseMessages
func c01parse__receive(h hubProtocol, r io.Reader, b *bytes.Buffer) ([]interface{}, error) {
	gvCheck("the-parser-reads-the-pipe", gvSame(r, gvGet[io.Reader]("rcv.r", "")))
	first := gvGet[*bytes.Buffer]("rcv.buf", "") == nil
	gvCheck("remaining-bytes-are-kept-for-the-next-parse", gvIte(first, gvBuf(b) == "", gvAnd(gvSame(b, gvGet[*bytes.Buffer]("rcv.buf", "")), gvBuf(b) == gvGet[string]("rcv.rest", ""))))
	gvCheck("every-parsed-message-is-passed-on", gvGet[int]("rcv.i", "") == gvGet[int]("rcv.n", ""))
	gvCheck("a-parse-error-is-reported", gvGet[error]("rcv.err", "") == nil)
	rest := gvAny[string]()
	gvSet("buf", b, rest)
	gvSet("rcv.buf", "", b)
	gvSet("rcv.rest", "", rest)
	ms := gvAny[[]interface{}]()
	err := gvAny[error]()
	gvAssume(len(ms) < 1<<40)
	gvSet("rcv.msgs", "", ms)
	gvSet("rcv.n", "", len(ms))
	gvSet("rcv.i", "", 0)
	gvSet("rcv.err", "", err)
	gvCover("parsed")
	return ms, err
}

//govc:hook onsend receiveResult
func on_c01result__receive(ch chan receiveResult, r receiveResult) {
	gvCheck("results-go-to-the-channel-of-the-loop", gvImp(gvGet[bool]("rcv.is", ""), gvInj[any]("ch", ch) == gvGet[any]("rcv.ch", "")))
	gvSet("rcv.ch", "", gvInj[any]("ch", ch))
	gvSet("rcv.is", "", true)
	i, n := gvGet[int]("rcv.i", ""), gvGet[int]("rcv.n", "")
	if r.err == nil {
		gvCheck("messages-are-passed-on-in-order", gvAnd(i < n, gvSame(r.message, gvElem(gvGet[[]interface{}]("rcv.msgs", ""), i))))
		gvSet("rcv.i", "", i+1)
		gvCover("message")
		return
	}
	parse, read := gvGet[error]("rcv.err", ""), gvGet[error]("rcv.readErr", "")
	gvCheck("errors-follow-the-messages-before-them", gvOr(gvAnd(gvSame(r.err, read), read != nil), gvAnd(gvSame(r.err, parse), i == n)))
	if gvSame(r.err, read) {
		gvSet[error]("rcv.readErr", "", nil)
	} else {
		gvSet[error]("rcv.err", "", nil)
	}
	gvCover("error")
}

//govc:hook onclose struct{}
func on_c01done__receive(ch chan struct{}) {
	gvCheck("reading-ends-only-with-the-connection", gvGet[bool]("ctx.cancelled", gvGet[context.Context]("rcv.ctx", "")))
}

//govc:inv
func inv_c01sent__receive(i int) bool { return gvGet[int]("rcv.i", "") == i+1 }

//govc:inv
func inv_c01sentTo__receive(i int) bool { return gvGet[int]("rcv.i", "") == i }

//govc:inv
func inv_c01all__receive() bool { return gvGet[int]("rcv.i", "") == gvGet[int]("rcv.n", "") }

//govc:inv
func inv_c01none__receive() bool { return gvGet[string]("rcv.got", "") == "" }

//govc:inv
func inv_c01errs__receive() bool {
	return gvAnd(gvGet[error]("rcv.err", "") == nil, gvGet[error]("rcv.readErr", "") == nil)
}

//govc:inv
func inv_c01rest__receive(b *bytes.Buffer) bool {
	return gvIte(gvGet[*bytes.Buffer]("rcv.buf", "") == nil, gvBuf(b) == "", gvAnd(gvSame(b, gvGet[*bytes.Buffer]("rcv.buf", "")), gvBuf(b) == gvGet[string]("rcv.rest", "")))
}

//govc:inv
func inv_c01chan__receive(ch chan<- receiveResult) bool {
	return gvImp(gvGet[bool]("rcv.is", ""), gvInj[any]("ch", ch) == gvGet[any]("rcv.ch", ""))
}

//govc:task C01 received-bytes-and-messages-are-passed-on-completely mode=receive spawn=separate panics
func c01Receive() {
	conn := gvAny[Connection]()
	gvAssume(conn != nil)
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	prot := gvAny[hubProtocol]()
	gvAssume(prot != nil)
	max := gvAny[uint]()
	gvAssume(max < 1<<31)
	c := &defaultHubConnection{ctx: ctx, connection: conn, protocol: prot, maximumReceiveMessageSize: max}
	gvSet[io.Reader]("rcv.conn", "", conn)
	gvSet("rcv.ctx", "", ctx)
	gvSet("rcv.got", "", "")
	gvSet[*bytes.Buffer]("rcv.buf", "", nil)
	gvSet("rcv.n", "", 0)
	gvSet("rcv.i", "", 0)
	gvSet[error]("rcv.err", "", nil)
	gvSet[error]("rcv.readErr", "", nil)
	gvSet("rcv.is", "", false)
	ch := c.Receive()
	gvCheck("a-channel-is-returned", ch != nil)
	gvCover("started")
}

//govc:task C02 received-bytes-and-messages-are-passed-on-completely mode=receive spawn=separate panics
func c02Receive() { c01Receive() }

// A WebSocket message is read completely, in parts if the caller's buffer is too small for it.

//govc:model (*github.com/coder/websocket.Conn).Reader
func c01wsReader__socket(c *websocket.Conn, ctx context.Context) (websocket.MessageType, io.Reader, error) {
	gvCheck("no-part-of-a-message-is-skipped", gvNot(gvGet[bool]("ws.open", "")))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("ws.failed", "", true)
		return websocket.MessageText, nil, err
	}
	r := gvAny[io.Reader]()
	gvAssume(r != nil)
	gvSet("ws.open", "", true)
	gvSet("ws.r", "", r)
	return websocket.MessageText, r, nil
}

//govc:model (io.Reader).Read
func c01wsRead__socket(r io.Reader, p []byte) (int, error) {
	gvCheck("the-current-message-is-read", gvAnd(gvGet[bool]("ws.open", ""), gvSame(r, gvGet[io.Reader]("ws.r", ""))))
	gvCheck("bytes-already-read-are-returned-first", gvGet[string]("ws.got", "") == "")
	s := gvAny[string]()
	gvAssume(len(s) <= len(p))
	gvSetBytes(p, s)
	gvSet("ws.got", "", s)
	switch gvFork(3) {
	case 0:
		return len(s), nil
	case 1:
		gvSet("ws.open", "", false)
		return len(s), io.EOF
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvAssume(gvNot(gvSame(err, io.EOF)))
	gvSet("ws.failed", "", true)
	return len(s), err
}

//govc:model (*github.com/coder/websocket.Conn).Close
func c01wsClose__socket(c *websocket.Conn, code websocket.StatusCode, reason string) error {
	gvSet("ws.closed", "", true)
	return nil
}

//govc:inv
func inv_c01got__socket() bool { return gvGet[string]("ws.got", "") == "" }

//govc:inv
func inv_c01open__socket() bool { return gvNot(gvGet[bool]("ws.failed", "")) }

//govc:inv
func inv_c01reader__socket(w *webSocketConnection) bool {
	open := gvGet[bool]("ws.open", "")
	return gvAnd(gvIff(w.reader != nil, open), gvImp(open, gvSame(w.reader, gvGet[io.Reader]("ws.r", ""))))
}

//govc:task C01 websocket-messages-are-read-completely mode=socket panics
func c01WebSocket() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	w := &webSocketConnection{ConnectionBase: ConnectionBase{ctx: ctx}, conn: &websocket.Conn{}}
	gvSet("ws.open", "", false)
	gvSet("ws.got", "", "")
	gvSet("ws.failed", "", false)
	gvSet("ws.closed", "", false)
	if gvFork(2) == 1 {
		r := gvAny[io.Reader]()
		gvAssume(r != nil)
		w.reader = r
		gvSet("ws.r", "", r)
		gvSet("ws.open", "", true)
	}
	p := gvAny[[]byte]()
	gvAssume(len(p) > 0)
	n, err := w.Read(p)
	if err == nil {
		got := gvGet[string]("ws.got", "")
		gvCheck("exactly-the-bytes-read-are-returned", gvAnd(gvAnd(n == len(got), string(p[:n]) == got), gvNot(gvGet[bool]("ws.failed", ""))))
		gvCheck("the-rest-of-the-message-is-kept", gvIff(w.reader != nil, gvGet[bool]("ws.open", "")))
		gvCheck("the-rest-of-the-message-is-kept", gvImp(w.reader != nil, gvSame(w.reader, gvGet[io.Reader]("ws.r", ""))))
		gvCover("read")
		return
	}
	gvCheck("a-failed-connection-is-closed", gvGet[bool]("ws.closed", ""))
	gvCheck("only-a-failed-read-closes-the-connection", gvOr(gvGet[bool]("ws.failed", ""), gvGet[bool]("ctx.cancelled", ctx)))
	gvCover("failed")
}

//govc:task C02 websocket-messages-are-read-completely mode=socket panics
func c02WebSocket() { c01WebSocket() }
