package signalr

import (
	"bytes"
	"context"
	"errors"
	"io"
	"time"
)

// C14: no hub traffic without a successful handshake on the same protocol.
//
// The connection delivers arbitrary bytes in arbitrary pieces and may fail at any time. That readJSONFrames reads until it
// has a record is proved for C01, here its reads of the connection are made by c14frames.
//
// Ghost state:
//   h.in      all bytes taken from the connection so far        h.got     the bytes which reached readJSONFrames
//   h.sep     a record separator was taken from the connection, h.over: and something behind it
//   h.whole   the handshake message arrived, h.frame: its text
//   h.writes  number of writes, h.sent: the text written last, h.sentok: it was written without error
//   h.loops   number of message loops started                   h.timed   the context ends at the handshake timeout
//   h.all     other contexts than those with a timeout may end, too; h.early: a context had ended before it was waited for
//   h.failed  a read failed     h.known: the result of the write was waited for

// ---- the connection ----

//govc:model (Connection).Read
func c14read__handshake(c Connection, p []byte) (int, error) {
	gvCheck("only-the-own-connection-is-used", gvSame(c, gvGet[Connection]("h.conn", "")))
	n := gvAny[int]()
	gvAssume(gvAnd(0 <= n, n <= len(p)))
	data := gvAny[string]()
	gvAssume(len(data) == n)
	gvSetBytes(p, data)
	gvSet("h.in", "", gvGet[string]("h.in", "")+data)
	sep := gvContains(data, "\x1e")
	gvSet("h.over", "", gvOr(gvGet[bool]("h.over", ""), gvOr(gvAnd(gvGet[bool]("h.sep", ""), n > 0), gvAnd(sep, gvNot(gvIndex(data, "\x1e") == n-1)))))
	gvSet("h.sep", "", gvOr(gvGet[bool]("h.sep", ""), sep))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("h.failed", "", true)
		return n, err
	}
	return n, nil
}

//govc:model (io.Reader).Read
func c14readFrom__handshake(r io.Reader, p []byte) (int, error) {
	return c14read__handshake(r.(Connection), p)
}

//govc:model (Connection).Write
func c14write__handshake(c Connection, p []byte) (int, error) {
	gvCheck("only-the-own-connection-is-used", gvSame(c, gvGet[Connection]("h.conn", "")))
	gvCheck("one-handshake-message-is-written", gvGet[int]("h.writes", "") == 0)
	gvSet("h.writes", "", gvGet[int]("h.writes", "")+1)
	gvSet("h.sent", "", string(p))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return gvAny[int](), err
	}
	gvSet("h.sentok", "", true)
	return len(p), nil
}

//govc:model (Connection).ConnectionID
func c14id__handshake(c Connection) string { return gvPure[string]("h.id", c) }

//govc:model readJSONFrames
func c14frames__handshake(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
	p := make([]byte, 1<<15)
	for !gvGet[bool]("h.whole", "") {
		n, err := reader.Read(p)
		gvAssume(gvAnd(0 <= n, n <= len(p)))
		if err != nil && !errors.Is(err, io.EOF) {
			return nil, err
		}
		if n > 0 {
			gvSet("h.got", "", gvGet[string]("h.got", "")+string(p[:n]))
			gvSet("h.whole", "", gvContains(string(p[:n]), "\x1e"))
		}
	}
	frame := gvAny[string]() // what came before the record separator
	gvSet("h.frame", "", frame)
	return [][]byte{[]byte(frame)}, nil
}

//govc:inv
func inv_c14everythingArrives__handshake() bool {
	return gvGet[string]("h.in", "") == gvGet[string]("h.got", "")
}

//govc:inv
func inv_c14oneRecord__handshake() bool { return gvNot(gvGet[bool]("h.over", "")) }

//govc:inv
func inv_c14noSeparatorYet__handshake() bool {
	return gvImp(gvGet[bool]("h.sep", ""), gvGet[bool]("h.whole", ""))
}

//govc:hook onrecv RWJobResult
func on_c14result__handshake(ch <-chan RWJobResult, v RWJobResult, ok bool) {
	gvSet("h.known", "", true)
}

// ---- JSON ----

//govc:model encoding/json.Marshal
func c14marshal__handshake(v any) ([]byte, error) {
	b, err := gvJSONMarshal(v)
	if err != nil {
		return nil, err
	}
	gvJSONEncode(string(b), v, 0)
	gvAssume(gvImp(gvIs[handshakeResponse](v), gvNot(gvJSONBad(string(b), (*handshakeResponse)(nil)))))
	gvAssume(gvImp(gvIs[handshakeRequest](v), gvNot(gvJSONBad(string(b), (*handshakeRequest)(nil)))))
	gvSet("h.enc", "", string(b))
	return b, nil
}

func c14isJSON(s string) bool { return s == gvGet[string]("h.enc", "")+"\x1e" }

// ---- time ----

//govc:model context.WithTimeout
func c14withTimeout__handshake(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	gvCheck("it-ends-with-the-context-of-the-party", gvSame(parent, gvGet[context.Context]("h.ctx", "")))
	gvCheck("the-handshake-timeout-is-used", d == gvGet[time.Duration]("h.timeout", ""))
	c, cancel := gvCtxWithTimeout(parent, d)
	gvAssume(gvNot(c == parent))
	gvSet("h.timed", c, true)
	gvSet("h.waited", c, false)
	gvSet("ctx.cancelled", c, false)
	return c, cancel
}

//govc:model (context.Context).Done
func c14done__handshake(c context.Context) <-chan struct{} {
	if gvOr(gvGet[bool]("h.all", ""), gvGet[bool]("h.timed", c)) {
		gvSet("h.waited", c, true)
		return gvInj[<-chan struct{}]("ctxdone", c)
	}
	return nil
}

//govc:model (context.Context).Err
func c14err__handshake(c context.Context) error {
	if gvOr(gvGet[bool]("h.all", ""), gvGet[bool]("h.timed", c)) {
		err := gvCtxErr(c)
		if err != nil && !gvGet[bool]("h.waited", c) {
			gvSet("h.early", "", true)
		}
		return err
	}
	return nil
}

// ---- the message loop ----

//govc:model newLoop
func c14newLoop__handshake(p Party, conn Connection, protocol hubProtocol) *loop {
	frame, in, sent := gvGet[string]("h.frame", ""), gvGet[string]("h.in", ""), gvGet[string]("h.sent", "")
	gvCheck("the-party-runs-the-loop", gvSame(p, gvGet[Party]("h.party", "")))
	gvCheck("the-loop-uses-the-connection-of-the-handshake", gvSame(conn, gvGet[Connection]("h.conn", "")))
	gvCheck("one-loop-per-handshake", gvGet[int]("h.loops", "") == 0)
	gvCheck("a-whole-handshake-message-was-received", gvAnd(in == gvGet[string]("h.got", ""), gvGet[bool]("h.whole", "")))
	gvCheck("nothing-after-the-handshake-is-lost", gvNot(gvGet[bool]("h.over", "")))
	gvCheck("the-handshake-message-was-written", gvAnd(gvGet[int]("h.writes", "") == 1, gvGet[bool]("h.sentok", "")))
	name := gvGet[string]("h.format", "")
	if gvGet[bool]("h.server", "") {
		name = gvJSONStr(frame, "protocol")
		gvCheck("the-request-is-well-formed", gvNot(gvJSONBad(frame, (*handshakeRequest)(nil))))
		gvCheck("the-response-is-positive", gvOr(sent == "{}\x1e", gvAnd(c14isJSON(sent), gvNot(gvJSONHas(gvGet[string]("h.enc", ""), "error")))))
	} else {
		gvCheck("the-response-is-well-formed", gvNot(gvJSONBad(frame, (*handshakeResponse)(nil))))
		gvCheck("the-response-has-no-error", gvJSONStr(frame, "error") == "")
		c14request()
	}
	_, isJSON := protocol.(*jsonHubProtocol)
	_, isMsgPack := protocol.(*messagePackHubProtocol)
	gvCheck("both-sides-use-the-requested-protocol", gvAnd(gvOr(isJSON, isMsgPack), gvAnd(gvIff(isJSON, name == "json"), gvIff(isMsgPack, name == "messagepack"))))
	gvSet("h.loops", "", gvGet[int]("h.loops", "")+1)
	if isJSON {
		gvCover("json")
	} else {
		gvCover("messagepack")
	}
	if !gvGet[bool]("h.server", "") {
		gvAssume(false)
	}
	return new(loop)
}

// c14request: the handshake request names the format of the client
func c14request() {
	sent, enc := gvGet[string]("h.sent", ""), gvGet[string]("h.enc", "")
	plain := sent == "{\"protocol\":\""+gvGet[string]("h.format", "")+"\",\"version\":1}\x1e"
	object := gvAnd(c14isJSON(sent), gvAnd(gvJSONStr(enc, "protocol") == gvGet[string]("h.format", ""), gvJSONInt(enc, "version") == 1))
	gvCheck("the-request-names-the-format-of-the-client", gvOr(plain, object))
}

//govc:model (*loop).Run
func c14run__handshake(l *loop, connected chan struct{}) error {
	gvCheck("the-loop-can-signal-its-start", gvAnd(connected != nil, gvGet[int]("h.loops", "") == 1))
	gvSet("h.ran", "", true)
	return gvAny[error]()
}

//govc:model (*server).prefixLoggers
func c14serverLoggers__handshake(s *server, connectionID string) (StructuredLogger, StructuredLogger) {
	return c14loggers()
}

//govc:model (*client).prefixLoggers
func c14clientLoggers__handshake(c *client, connectionID string) (StructuredLogger, StructuredLogger) {
	return c14loggers()
}

func c14loggers() (StructuredLogger, StructuredLogger) {
	a, b := gvAny[StructuredLogger](), gvAny[StructuredLogger]()
	gvAssume(gvAnd(a != nil, b != nil))
	return a, b
}

//govc:model fmtMsg
func c14fmtMsg__handshake(message interface{}) string { return gvAny[string]() }

// c14waited: nothing but the handshake timeout may have ended the handshake, and only after waiting for it
func c14waited() bool {
	return gvNot(gvOr(gvGet[bool]("h.all", ""), gvOr(gvGet[bool]("h.early", ""), gvGet[bool]("h.failed", ""))))
}

func c14start(p Party, b *partyBase, isServer bool) {
	gvInit()
	gvAssume(b.ctx != nil)
	gvSet("h.party", "", p)
	gvSet("h.ctx", "", b.ctx)
	gvSet("h.timeout", "", b._handshakeTimeout)
	gvSet("h.server", "", isServer)
	gvSet("h.in", "", "")
	gvSet("h.got", "", "")
	gvSet("h.frame", "", "")
	gvSet("h.sent", "", "")
	gvSet("h.enc", "", "")
	gvSet("h.writes", "", 0)
	gvSet("h.loops", "", 0)
	gvSet("h.sentok", "", false)
	gvSet("h.whole", "", false)
	gvSet("h.sep", "", false)
	gvSet("h.over", "", false)
	gvSet("h.ran", "", false)
	gvSet("h.asked", "", 0)
	gvSet("h.early", "", false)
	gvSet("h.failed", "", false)
	gvSet("h.known", "", false)
	gvSet("h.timed", b.ctx, false)
	gvSet("h.waited", b.ctx, false)
	gvSet("ctx.cancelled", b.ctx, false)
	gvSet("h.all", "", gvFork(2) == 1)
}

//govc:task C14 the-server-runs-connections-after-their-handshake mode=handshake spawn=any
func c14Server() {
	s, conn := gvAny[*server](), gvAny[Connection]()
	gvAssume(gvAnd(s != nil, conn != nil))
	gvSet("h.conn", "", conn)
	c14start(s, &s.partyBase, true)
	err := s.Serve(conn)
	if gvGet[bool]("h.ran", "") {
		gvCover("ran")
		return
	}
	gvCheck("a-failed-handshake-is-an-error", err != nil)
	gvCheck("no-loop-without-handshake", gvGet[int]("h.loops", "") == 0)
	frame, in := gvGet[string]("h.frame", ""), gvGet[string]("h.in", "")
	whole := gvGet[bool]("h.whole", "")
	name := gvJSONStr(frame, "protocol")
	if gvGet[int]("h.writes", "") == 1 {
		enc := gvGet[string]("h.enc", "")
		gvCheck("only-well-formed-requests-are-answered", gvAnd(whole, gvNot(gvJSONBad(frame, (*handshakeRequest)(nil)))))
		if name != "json" && name != "messagepack" {
			gvCheck("an-unsupported-protocol-is-answered-with-an-error", gvAnd(c14isJSON(gvGet[string]("h.sent", "")), gvJSONStr(enc, "error") != ""))
			gvCover("unsupported")
		}
	} else if c14waited() && whole {
		gvCover("gave up writing")
	}
	if c14waited() && !whole && in == "" && gvGet[int]("h.writes", "") == 0 {
		gvCover("gave up reading")
	}
}

//govc:model (*client).setState
func c14setState__handshake(c *client, state ClientState) {}

//govc:task C14 the-client-starts-after-its-handshake mode=handshake spawn=any
func c14Client() {
	c := gvAny[*client]()
	gvAssume(c != nil)
	gvAssume(gvAnd(c.info != nil, c.dbg != nil))
	gvAssume(gvOr(c.format == "json", c.format == "messagepack")) // WithHTTPConnection, TransferFormat: C23
	gvSet("h.format", "", c.format)
	c14start(c, &c.partyBase, false)
	conn := gvAny[Connection]()
	gvAssume(conn != nil)
	gvSet("h.conn", "", conn)
	fresh, preset := c.connectionFactory != nil, gvFork(2) == 1
	if preset {
		c.conn = conn
	} else {
		c.conn = nil
		if fresh {
			c.connectionFactory = func() (Connection, error) {
				gvSet("h.asked", "", gvGet[int]("h.asked", "")+1)
				if gvFork(2) == 1 {
					err := gvAny[error]()
					gvAssume(err != nil)
					return nil, err
				}
				return conn, nil
			}
		}
	}
	gvAssume(ErrUnableToConnect != nil)
	err := c.run()
	gvCheck("a-failed-handshake-is-an-error", err != nil)
	gvCheck("no-loop-without-handshake", gvGet[int]("h.loops", "") == 0)
	in := gvGet[string]("h.in", "")
	if gvGet[int]("h.writes", "") == 1 {
		c14request()
	}
	if gvGet[int]("h.writes", "") == 0 && preset && c14waited() {
		gvCover("gave up writing")
	}
	if gvGet[bool]("h.sentok", "") && gvGet[bool]("h.known", "") && in == "" && !gvGet[bool]("h.whole", "") && c14waited() {
		gvCover("gave up reading")
	}
	if gvGet[bool]("h.whole", "") && gvJSONStr(gvGet[string]("h.frame", ""), "error") != "" {
		gvCover("refused")
	}
	if fresh {
		// the next try does not use the connection of the failed one
		c.connectionFactory = func() (Connection, error) {
			gvSet("h.asked", "", -1)
			err := gvAny[error]()
			gvAssume(err != nil)
			return nil, err
		}
		_ = c.run()
		gvCheck("the-connection-of-a-failed-handshake-is-not-used-again", gvGet[int]("h.asked", "") == -1)
	}
}
