package signalr

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"net/http"
	"net/url"
	"time"

	"github.com/coder/websocket"
)

// C15: a negotiated connection id starts at most one connection, within the limit.
//
// The table of h is changed by other requests whenever it is not locked (interfere). Every write to the table and every
// removal is proved to be one of the following steps, so the same may be assumed of all others: nobody else touches the
// connection this request has started, and only the reaper removes pending negotiations.
//
//   none -> pending      a negotiation, with a new id, if there are less pending ones than allowed
//   none -> connection   a WebSocket without negotiation, with a new id
//   pending -> connection   with the key of the request, once
//   connection -> none   the own connection after it has been served
//   pending -> none      the reaper, older than the handshake timeout
//
// Ghost state: m.table the table, m.locked: it is locked by this request, m.k an arbitrary key, m.had and m.ent its entry
// at the last lock, m.id the key in the request, m.idhad and m.ident its entry at the last lock; m.fresh(s): s was made by
// this request, m.stored(s): and stored, m.key and m.conn: the started connection; m.served, m.over: it was passed to
// Serve, it was served; m.gone: its entry was removed; m.pending: pending negotiations counted since the last lock, m.all:
// these are all of them; m.now: the time of the last tick.

//govc:guarded httpMux.mx f:httpMux.connectionMap

func c15pending(c Connection) bool { return gvIs[*negotiateConnection](c) }

//govc:hook onlock httpMux.mx
func on_c15lock__mux(h *httpMux) {
	k, id := gvGet[string]("m.k", ""), gvGet[string]("m.id", "")
	gvAssume(h.connectionMap != nil)
	gvSet("m.table", "", h.connectionMap)
	gvSet("m.locked", "", true)
	c, ok := h.connectionMap[k]
	gvSet("m.had", "", ok)
	gvSet("m.ent", "", c)
	gvAssume(gvImp(c15pending(c), gvAs[*negotiateConnection](c) != nil))
	gvSet("m.created", "", gvAs[*negotiateConnection](c).createdAt)
	gvAssume(gvImp(gvAnd(gvGet[bool]("m.fresh", k), gvNot(gvGet[bool]("m.stored", k))), gvNot(ok)))
	c, ok = h.connectionMap[id]
	gvSet("m.idhad", "", ok)
	gvSet("m.ident", "", c)
	gvAssume(gvImp(c15pending(c), gvAs[*negotiateConnection](c) != nil))
	gvAssume(gvImp(ok, c != nil))
	if gvGet[int]("m.starts", "") > 0 && !gvGet[bool]("m.gone", "") {
		c, ok = h.connectionMap[gvGet[string]("m.key", "")]
		gvAssume(gvAnd(ok, gvSame(c, gvGet[Connection]("m.conn", ""))))
	}
	gvSet("m.pending", "", 0)
	gvSet("m.all", "", false)
}

//govc:hook onmapwrite map[string]Connection
func on_c15write__mux(m map[string]Connection, k string, c Connection) {
	if !gvSame(m, gvGet[map[string]Connection]("m.table", "")) {
		return
	}
	gvCheck("the-table-is-changed-under-its-lock", gvGet[bool]("m.locked", ""))
	was, had := m[k]
	isNew := gvAnd(gvGet[bool]("m.fresh", k), gvNot(gvGet[bool]("m.stored", k)))
	gvCheck("entries-are-not-changed-by-the-reaper", gvNot(gvGet[bool]("m.reaper", "")))
	if nc, isPending := c.(*negotiateConnection); isPending {
		gvCheck("only-negotiate-adds-negotiations", gvGet[bool]("m.negotiate", ""))
		gvCheck("a-negotiation-gets-a-new-id", isNew)
		gvCheck("one-negotiation-per-request", gvNot(gvGet[bool]("m.added", "")))
		max := gvGet[int]("m.max", "")
		gvCheck("there-are-not-more-negotiations-than-allowed", gvOr(max <= 0, gvAnd(gvGet[bool]("m.all", ""), gvGet[int]("m.pending", "") < max)))
		gvCheck("the-age-counts-from-now", gvAnd(gvNot(nc.createdAt.Before(gvGet[time.Time]("m.t0", ""))), gvNot(nc.createdAt.After(time.Now()))))
		gvSet("m.added", "", true)
		gvSet("m.new", "", nc.connectionID)
		gvCheck("the-connection-gets-a-new-id", gvGet[bool]("m.fresh", nc.connectionID))
		gvCover("negotiated")
	} else {
		gvCheck("only-get-starts-connections", gvNot(gvOr(gvGet[bool]("m.negotiate", ""), gvGet[bool]("m.post", ""))))
		gvCheck("a-request-starts-one-connection", gvGet[int]("m.starts", "") == 0)
		id := gvGet[string]("m.id", "")
		gvCheck("a-pending-negotiation-of-the-request-is-used", gvIte(id == "", isNew, gvAnd(k == id, gvAnd(had, c15pending(was)))))
		gvSet("m.starts", "", gvGet[int]("m.starts", "")+1)
		gvSet("m.conn", "", c)
		gvCover("started")
	}
	gvSet("m.key", "", k)
	gvSet("m.stored", k, true)
}

//govc:hook onmapdelete map[string]Connection
func on_c15delete__mux(m map[string]Connection, k string) {
	if !gvSame(m, gvGet[map[string]Connection]("m.table", "")) {
		return
	}
	gvCheck("the-table-is-changed-under-its-lock", gvGet[bool]("m.locked", ""))
	was, had := m[k]
	if !had {
		return
	}
	if gvGet[bool]("m.reaper", "") {
		gvAssume(gvImp(c15pending(was), gvAs[*negotiateConnection](was) != nil))
		gvCheck("only-old-negotiations-expire", gvAnd(c15pending(was), c15old(gvAs[*negotiateConnection](was).createdAt)))
		gvCover("expired")
		return
	}
	gvCheck("only-the-own-connection-is-removed", gvAnd(gvGet[int]("m.starts", "") == 1, k == gvGet[string]("m.key", "")))
	gvCheck("connections-stay-until-they-were-served", gvGet[bool]("m.over", ""))
	gvSet("m.gone", "", true)
}

//govc:hook onunlock httpMux.mx
func on_c15unlock__mux(h *httpMux) {
	gvCheck("the-table-is-not-replaced", gvSame(h.connectionMap, gvGet[map[string]Connection]("m.table", "")))
	gvSet("m.locked", "", false)
	if gvGet[bool]("m.reaper", "") {
		was := gvGet[Connection]("m.ent", "")
		_, ok := h.connectionMap[gvGet[string]("m.k", "")]
		gvCheck("old-negotiations-expire", gvNot(gvAnd(ok, gvAnd(c15pending(was), c15old(gvGet[time.Time]("m.created", ""))))))
	}
}

// c15old: a negotiation of this time was older than the handshake timeout at the last tick
func c15old(created time.Time) bool {
	return gvGet[time.Time]("m.now", "").Sub(created) > gvGet[time.Duration]("m.ttl", "")
}

//govc:hook onmapnext map[string]Connection
func on_c15next__mux(m map[string]Connection, k string, c Connection) {
	gvAssume(gvImp(c15pending(c), gvAs[*negotiateConnection](c) != nil))
	gvSet("m.pending", "", gvGet[int]("m.pending", "")+gvIte(c15pending(c), 1, 0))
}

//govc:hook onmapend map[string]Connection
func on_c15end__mux(m map[string]Connection) { gvSet("m.all", "", true) }

//govc:inv
func inv_c15count__mux(n int) bool { return n == gvGet[int]("m.pending", "") }

//govc:inv
func inv_c15positive__mux() bool { return gvGet[int]("m.pending", "") >= 0 }

//govc:inv
func inv_c15reaped__mux(h *httpMux) bool {
	k := gvGet[string]("m.k", "")
	_, ok := h.connectionMap[k]
	old := gvAnd(c15pending(gvGet[Connection]("m.ent", "")), c15old(gvGet[time.Time]("m.created", "")))
	return gvAnd(gvImp(gvAnd(gvVisited(k), old), gvNot(ok)), gvImp(gvNot(ok), gvOr(gvNot(gvGet[bool]("m.had", "")), old)))
}

//govc:inv
func inv_c15same__mux(h *httpMux) bool {
	c, ok := h.connectionMap[gvGet[string]("m.k", "")]
	return gvImp(ok, gvAnd(gvGet[bool]("m.had", ""), gvSame(c, gvGet[Connection]("m.ent", ""))))
}

// ---- the environment ----

//govc:model newConnectionID
func c15newID__mux() string {
	s := gvAny[string]()
	gvAssume(gvAnd(s != "", gvNot(gvGet[bool]("m.fresh", s))))
	gvAssume(s != gvGet[string]("m.id", ""))
	gvSet("m.fresh", s, true)
	gvSet("m.stored", s, false)
	return s
}

//govc:model (net/url.Values).Get
func c15get__mux(v url.Values, key string) string {
	if key == "id" {
		return gvGet[string]("m.id", "")
	}
	return gvPure[string]("m.query", key)
}

//govc:model (net/http.ResponseWriter).WriteHeader
func c15writeHeader__mux(w http.ResponseWriter, code int) {
	gvCheck("one-status-per-request", gvGet[int]("m.status", "") == 0)
	gvSet("m.status", "", code)
	if code == http.StatusTooManyRequests {
		max := gvGet[int]("m.max", "")
		gvCheck("only-requests-over-the-limit-are-refused", gvAnd(gvGet[bool]("m.negotiate", ""), gvAnd(max > 0, gvGet[int]("m.pending", "") >= max)))
		gvCover("too many")
	}
}

//govc:model (net/http.ResponseWriter).Header
func c15header__mux(w http.ResponseWriter) http.Header { return gvInj[http.Header]("m.header", w) }

//govc:model (net/http.Header).Set
func c15set__mux(h http.Header, k, v string) {}

//govc:model (net/http.ResponseWriter).Write
func c15write__mux(w http.ResponseWriter, p []byte) (int, error) {
	return gvAny[int](), gvAny[error]()
}

//govc:model (Server).maxNegotiationConnections
func c15max__mux(s Server) int { return gvGet[int]("m.max", "") }

//govc:model (Server).handshakeTimeout
func c15ttl__mux(s Server) time.Duration { return gvGet[time.Duration]("m.ttl", "") }

//govc:model (Server).Context
func c15context__mux(s Server) context.Context { return gvPure[context.Context]("m.ctx", s) }

//govc:model (Server).Serve
func c15serve__mux(s Server, c Connection) error {
	gvCheck("only-started-connections-are-served", gvAnd(gvGet[int]("m.starts", "") == 1, gvSame(c, gvGet[Connection]("m.conn", ""))))
	gvCheck("a-connection-is-served-once", gvNot(gvGet[bool]("m.served", "")))
	gvSet("m.served", "", true)
	gvSet("m.over", "", true)
	gvCover("served")
	return gvAny[error]()
}

//govc:model (*serverSSEConnection).consumeRequest
func c15consume__mux(c *serverSSEConnection, r *http.Request) int {
	gvCheck("posts-go-to-the-connection-of-their-id", gvAnd(gvGet[bool]("m.idhad", ""), gvSame[Connection](c, gvGet[Connection]("m.ident", ""))))
	gvSet("m.consumed", "", true)
	gvCover("posted")
	code := gvAny[int]()
	gvAssume(code != http.StatusTooManyRequests)
	return code
}

//govc:model newServerSSEConnection
func c15newSSE__mux(ctx context.Context, id string) (*serverSSEConnection, <-chan []byte, chan RWJobResult, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, nil, nil, err
	}
	s := &serverSSEConnection{}
	s.connectionID = id
	jobs := gvAny[<-chan []byte]()
	gvAssume(jobs != nil)
	return s, jobs, make(chan RWJobResult, 1), nil
}

//govc:model newWebSocketConnection
func c15newWS__mux(ctx context.Context, id string, conn *websocket.Conn) *webSocketConnection {
	w := &webSocketConnection{}
	w.connectionID = id
	gvSet("m.wsid", "", id)
	return w
}

//govc:model github.com/coder/websocket.Accept
func c15accept__mux(w http.ResponseWriter, r *http.Request, o *websocket.AcceptOptions) (*websocket.Conn, error) {
	if gvFork(2) == 1 {
		gvSet("m.status", "", http.StatusBadRequest)
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	gvSet("m.ws", "", true)
	return new(websocket.Conn), nil
}

//govc:model (*github.com/coder/websocket.Conn).Close
func c15close__mux(c *websocket.Conn, code websocket.StatusCode, reason string) error {
	gvSet("m.closed", "", true)
	return gvAny[error]()
}

// c15answer: the answer of a negotiation names the key
func c15answer(v any) {
	r, ok := v.(negotiateResponse)
	gvCheck("the-answer-is-that-of-a-negotiation", ok)
	gvCheck("a-negotiation-is-answered", gvGet[bool]("m.added", ""))
	gvCheck("the-id-of-the-connection-is-answered", r.ConnectionID == gvGet[string]("m.new", ""))
	key := gvGet[string]("m.key", "")
	gvCheck("the-key-is-answered", gvIte(r.NegotiateVersion == 1, r.ConnectionToken == key, r.ConnectionID == key))
	gvSet("m.answered", "", true)
	gvCover("answered")
}

//govc:model (*encoding/json.Encoder).Encode
func c15encode__mux(e *json.Encoder, v any) error {
	c15answer(v)
	return gvAny[error]()
}

//govc:model encoding/json.Marshal
func c15marshal__mux(v any) ([]byte, error) {
	c15answer(v)
	return gvAny[[]byte](), nil
}

//govc:hook onrecv time.Time
func on_c15tick__mux(ch <-chan time.Time, now time.Time, ok bool) { gvSet("m.now", "", now) }

func c15mux(what string) (*httpMux, http.ResponseWriter, *http.Request) {
	h := gvAny[*httpMux]()
	gvAssume(h != nil)
	gvAssume(h.server != nil)
	gvAssume(h.server.Context() != nil)
	w, r := gvAny[http.ResponseWriter](), gvAny[*http.Request]()
	gvAssume(gvAnd(w != nil, r != nil))
	gvAssume(r.URL != nil)
	gvSet("m.k", "", gvRigid[string]())
	gvSet("m.id", "", gvAny[string]())
	gvSet("m.max", "", gvAny[int]())
	gvSet("m.ttl", "", gvAny[time.Duration]())
	gvSet("m.t0", "", time.Now())
	gvSet("m.now", "", gvAny[time.Time]())
	gvSet("m.fresh", gvGet[string]("m.k", ""), false)
	gvSet("m.fresh", gvGet[string]("m.id", ""), false)
	gvSet("m.key", "", "")
	gvSet("m.status", "", 0)
	gvSet("m.starts", "", 0)
	gvSet("m.pending", "", 0)
	gvSet("m.all", "", false)
	gvSet("m.locked", "", false)
	gvSet("m.table", "", h.connectionMap)
	gvSet("m.gone", "", false)
	gvSet("m.added", "", false)
	gvSet("m.served", "", false)
	gvSet("m.over", "", false)
	gvSet("m.closed", "", false)
	gvSet("m.ws", "", false)
	gvSet("m.consumed", "", false)
	gvSet("m.answered", "", false)
	gvSet("m.idhad", "", false)
	gvSet("m.reaper", "", what == "reaper")
	gvSet("m.negotiate", "", what == "negotiate")
	gvSet("m.post", "", what == "post")
	return h, w, r
}

//govc:task C15 a-negotiation-starts-one-connection mode=mux interfere spawn=any
func c15Start() {
	h, w, r := c15mux("get")
	if gvFork(2) == 0 {
		h.handleServerSentEvent(w, r)
	} else {
		h.handleWebsocket(w, r)
	}
	gvJoin()
	status, wasPending := gvGet[int]("m.status", ""), gvAnd(gvGet[bool]("m.idhad", ""), c15pending(gvGet[Connection]("m.ident", "")))
	if gvGet[int]("m.starts", "") == 1 {
		gvCheck("a-started-connection-is-served", gvGet[bool]("m.served", ""))
		gvCheck("an-id-is-unusable-after-its-connection", gvGet[bool]("m.gone", ""))
		gvCheck("a-started-connection-is-not-refused", gvOr(status == 0, status == http.StatusOK))
		return
	}
	gvCheck("nothing-is-served-without-negotiation", gvNot(gvGet[bool]("m.served", "")))
	gvCheck("other-requests-are-refused", gvOr(status >= 400, gvAnd(gvGet[bool]("m.ws", ""), gvGet[bool]("m.closed", ""))))
	if wasPending {
		gvCheck("pending-negotiations-are-accepted", gvOr(status == http.StatusInternalServerError, gvGet[string]("m.id", "") == ""))
	} else if gvGet[bool]("m.idhad", "") {
		gvCover("in use")
	} else {
		gvCover("unknown")
	}
}

//govc:task C15 posts-do-not-start-connections mode=mux interfere spawn=any
func c15Post() {
	h, w, r := c15mux("post")
	h.handlePost(w, r)
	gvCheck("nothing-is-started", gvGet[int]("m.starts", "") == 0)
	gvCheck("posts-without-connection-are-refused", gvOr(gvGet[bool]("m.consumed", ""), gvGet[int]("m.status", "") >= 400))
}

//govc:task C15 negotiations-get-a-new-id-within-the-limit mode=mux interfere spawn=any
func c15Negotiate() {
	h, w, r := c15mux("negotiate")
	h.negotiate(w, r)
	status := gvGet[int]("m.status", "")
	gvCheck("a-negotiation-is-answered-or-refused", gvIff(gvGet[bool]("m.added", ""), gvOr(status == http.StatusOK, status == 0)))
	gvCheck("a-negotiation-is-answered", gvIff(gvGet[bool]("m.added", ""), gvGet[bool]("m.answered", "")))
	gvCheck("the-refusal-tells-why", gvOr(gvGet[bool]("m.added", ""), gvOr(status == http.StatusTooManyRequests, gvNot(r.Method == "POST"))))
}

//govc:task C15 only-old-negotiations-expire mode=mux interfere spawn=any
func c15Reaper() {
	h, _, _ := c15mux("reaper")
	gvAssume(gvGet[time.Duration]("m.ttl", "") > 0)
	h.reaperLoop()
	gvCover("ends")
}

// ---- ids do not repeat: they have 16 random bytes, and the text tells all of them ----

//govc:model crypto/rand.Read
func c15random__ids(p []byte) (int, error) {
	s := gvAny[string]()
	gvAssume(len(s) == len(p))
	gvSetBytes(p, s)
	gvSet("id.bytes", "", s)
	return len(p), nil
}

//govc:model (*encoding/base64.Encoding).EncodeToString
func c15base64__ids(e *base64.Encoding, p []byte) string { return gvInj[string]("base64", string(p)) }

//govc:model encoding/hex.EncodeToString
func c15hex__ids(p []byte) string { return gvInj[string]("hex", string(p)) }

//govc:task C15 ids-are-random mode=ids
func c15IDs() {
	gvSet("id.bytes", "", "")
	id := newConnectionID()
	s := gvGet[string]("id.bytes", "")
	gvCheck("an-id-has-16-random-bytes", len(s) >= 16)
	gvCheck("different-bytes-give-different-ids", gvOr(gvSame(id, gvInj[string]("base64", s)), gvSame(id, gvInj[string]("hex", s))))
	gvCover("made")
}
