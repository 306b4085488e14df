package signalr

import (
	"context"
	"io"
	"net/http"
	"net/url"

	"github.com/coder/websocket"
)

// C03: the limit of the party is the one which the protocol enforces, and no transport refuses messages within the limit.

//govc:model (hubProtocol).setMaxReceiveMessageSize
func c03set__loop(p hubProtocol, size uint) { gvSet("limit", p, int(size)) }

//govc:model newHubConnection
func c03hubConn__loop(c Connection, p hubProtocol, size uint, info StructuredLogger) HubConnection {
	gvSet("limit.conn", "", c)
	return gvInj[HubConnection]("hubconn", p)
}

//govc:task C03 the-limit-of-the-party-is-used mode=loop
func c03Loop() {
	var p Party
	var base *partyBase
	if gvFork(2) == 0 {
		s := gvAny[*server]()
		gvAssume(s != nil)
		p, base = s, &s.partyBase
	} else {
		c := gvAny[*client]()
		gvAssume(c != nil)
		p, base = c, &c.partyBase
	}
	max := gvAny[uint]()
	gvAssume(max < 1<<62)
	if MaximumReceiveMessageSize(max)(p) != nil {
		gvCheck("only-no-limit-is-refused", max == 0)
		return
	}
	gvAssume(base.ctx != nil)
	conn, protocol := gvAny[Connection](), gvAny[hubProtocol]()
	gvAssume(conn != nil)
	gvAssume(protocol != nil)
	l := newLoop(p, conn, protocol)
	gvCheck("the-protocol-enforces-the-limit-of-the-party", gvGet[int]("limit", l.protocol) == int(max))
	gvCheck("the-protocol-of-the-loop-reads-the-messages", gvAnd(gvSame(l.hubConn, gvInj[HubConnection]("hubconn", l.protocol)), gvSame(gvGet[Connection]("limit.conn", ""), conn)))
	gvCover("made")
}

//govc:model (*github.com/coder/websocket.Conn).SetReadLimit
func c03readLimit__transports(c *websocket.Conn, n int64) { gvSet("ws.limit", c, n) }

//govc:model github.com/coder/websocket.Accept
func c03accept__transports(w http.ResponseWriter, r *http.Request, o *websocket.AcceptOptions) (*websocket.Conn, error) {
	c := gvAny[*websocket.Conn]()
	gvSet("ws.limit", c, 32768)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	gvAssume(c != nil)
	return c, nil
}

//govc:model github.com/coder/websocket.Dial
func c03dial__transports(ctx context.Context, u string, o *websocket.DialOptions) (*websocket.Conn, *http.Response, error) {
	c, err := c03accept__transports(nil, nil, nil)
	return c, gvAny[*http.Response](), err
}

//govc:model (Server).Serve
func c03serve__transports(s Server, c Connection) error {
	if ws, ok := c.(*webSocketConnection); ok {
		gvCheck("web-sockets-refuse-no-message-for-its-size", gvGet[int64]("ws.limit", ws.conn) < 0)
		gvCover("web socket")
	}
	return gvAny[error]()
}

//govc:task C03 server-web-sockets-refuse-no-message-for-its-size mode=transports
func c03WebSocket() {
	h := gvAny[*httpMux]()
	gvAssume(h != nil)
	gvAssume(h.server != nil)
	h.handleWebsocket(gvAny[http.ResponseWriter](), gvAny[*http.Request]())
}

//govc:task C03 client-web-sockets-refuse-no-message-for-its-size mode=transports
func c03WebSocketClient() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	u := gvAny[*url.URL]()
	gvAssume(u != nil)
	var c Connection
	var err error
	if gvFork(2) == 0 {
		c, err = NewWebSocketConnection(ctx, u, gvAny[string](), gvAny[http.Header]())
	} else {
		doer := gvAny[Doer]()
		gvAssume(doer != nil)
		c, err = NewHTTPConnection(ctx, gvAny[string](), WithHTTPClient(doer))
	}
	if ws, ok := c.(*webSocketConnection); ok && err == nil {
		gvCheck("web-sockets-refuse-no-message-for-its-size", gvGet[int64]("ws.limit", ws.conn) < 0)
		gvCover("web socket")
	}
}

//govc:model net/http.MaxBytesReader
func c03maxBytes__transports(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	max := gvGet[int]("limit", "")
	gvCheck("a-request-may-have-a-message-of-the-allowed-size-and-its-terminator", n > int64(max))
	gvCover("limited")
	// clients send the messages which queued up while a POST was under way with the next one
	gvCheck("a-request-may-have-several-messages", n > 2*int64(max)+1)
	return gvAny[io.ReadCloser]()
}

//govc:model (Server).maximumReceiveMessageSize
func c03max__transports(s Server) uint { return uint(gvGet[int]("limit", "")) }

//govc:model (*serverSSEConnection).consumeRequest
func c03consume__transports(c *serverSSEConnection, r *http.Request) int { return gvAny[int]() }

//govc:task C03 server-sent-events-refuse-no-message-for-its-size mode=transports
func c03SSE() {
	h := gvAny[*httpMux]()
	gvAssume(h != nil)
	gvAssume(h.server != nil)
	max := gvAny[int]()
	gvAssume(gvAnd(0 < max, max < 1<<62))
	gvSet("limit", "", max)
	h.handlePost(gvAny[http.ResponseWriter](), gvAny[*http.Request]())
}
