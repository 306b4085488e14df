package signalr

import (
	"bufio"
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
)

// C21: server-sent events carry the bytes unchanged and never wedge.
//
// A message is sent as an event: a line "data: x" for each line x of the message, and an empty line. frame(n) are the
// first n of these lines. The client gives back the lines of data of each event, joined by line feeds. strings.Split and
// bufio.Reader.ReadLine are assumed contracts: the lines of a text, however it was read in pieces.

// ---- the server writes ----
//
// Ghost state: s.text the message, s.n the number of its lines once it is split, s.lines the lines; s.jobs the number of
// events handed to the response, s.r the result of the last one, s.answered: it was received; s.gone: the response has ended.

func c21frame(n int) string { return gvPure[string]("sse.frame", n) }

//govc:model strings.TrimRight
func c21trim__sse(s, cutset string) string {
	t := gvPure[string]("sse.trim", s, cutset)
	gvAssume(gvPrefix(s, t))
	return t
}

//govc:model strings.Split
func c21split__sse(s, sep string) []string {
	text := gvGet[string]("s.text", "")
	gvCheck("the-message-is-split-into-lines", gvAnd(sep == "\n", gvOr(s == text, s == gvPure[string]("sse.trim", text, "\n"))))
	lines := gvAny[[]string]()
	gvAssume(len(lines) >= 1)
	gvAssume(c21frame(0) == "")
	gvSet("s.lines", "", lines)
	gvSet("s.n", "", len(lines))
	return lines
}

//govc:model strings.ReplaceAll
func c21replace__sse(s, old, new string) string {
	if old != "\n" || new != "\ndata: " {
		return gvAny[string]()
	}
	c21split__sse(s, old)
	r := gvAny[string]()
	gvAssume(c21frame(gvGet[int]("s.n", "")) == "data: "+r+"\n")
	return r
}

//govc:hook onelemget string
func on_c21line__sse(s []string, i int, v string) {
	gvAssume(gvImp(gvSame(s, gvGet[[]string]("s.lines", "")), c21frame(i+1) == c21frame(i)+"data: "+v+"\n"))
}

//govc:inv
func inv_c21range__sse(payload string, i int) bool { return payload == c21frame(i+1) }

//govc:inv
func inv_c21index__sse(payload string, i int) bool { return payload == c21frame(i) }

//govc:inv
func inv_c21builder__sse(b *strings.Builder, i int) bool {
	return gvGet[string]("builder", b) == c21frame(i+1)
}

//govc:inv
func inv_c21builderTo__sse(b *strings.Builder, i int) bool {
	return gvGet[string]("builder", b) == c21frame(i)
}

//govc:hook onlock serverSSEConnection.mx
func on_c21lock__sse(s *serverSSEConnection) {
	// the connection may be cancelled by anybody, its jobs are closed then
	if gvFork(2) == 1 {
		gvSet("ctx.cancelled", s.ctx, true)
		close(s.jobChan)
	}
}

//govc:hook onsend []byte
func on_c21job__sse(ch chan []byte, b []byte) {
	s := gvGet[*serverSSEConnection]("s.s", "")
	n := gvGet[int]("s.n", "")
	gvCheck("one-event-for-each-message", gvGet[int]("s.jobs", "") == 0)
	gvCheck("the-event-is-sent-to-the-response", gvSame(ch, s.jobChan))
	gvCheck("the-event-has-all-lines-of-the-message", gvAnd(n >= 1, string(b) == c21frame(n)+"\n"))
	gvCheck("nothing-is-sent-after-the-end", gvNot(gvGet[bool]("s.dead", "")))
	gvSet("s.jobs", "", gvGet[int]("s.jobs", "")+1)
	if gvGet[bool]("s.gone", "") {
		return
	}
	r := gvAny[RWJobResult]()
	gvSet("s.r", "", r)
	s.jobResultChan <- r
}

//govc:hook onrecv RWJobResult
func on_c21result__sse(ch chan RWJobResult, r RWJobResult, ok bool) {
	gvSet("s.answered", "", true)
}

//govc:task C21 messages-are-framed-as-events mode=sse panics
func c21Write() {
	s := gvAny[*serverSSEConnection]()
	gvAssume(s != nil)
	gvAssume(s.ctx != nil)
	s.jobChan, s.jobResultChan = make(chan []byte, 1), make(chan RWJobResult, 1)
	p := gvAny[[]byte]()
	gvSet("s.s", "", s)
	gvSet("s.text", "", string(p))
	gvSet("s.n", "", 0)
	gvSet("s.jobs", "", 0)
	gvSet("s.answered", "", false)
	gvSet("s.gone", "", gvAny[bool]())
	dead := gvAny[bool]()
	gvSet("s.dead", "", dead)
	gvSet("ctx.cancelled", s.ctx, dead)
	n, err := s.Write(p)
	gvCheck("writes-after-the-end-fail", gvImp(dead, err != nil))
	if gvGet[bool]("s.answered", "") {
		r := gvGet[RWJobResult]("s.r", "")
		gvCheck("the-result-is-that-of-the-response", gvOr(gvAnd(n == r.n, gvSame(err, r.err)), gvAnd(err != nil, gvGet[bool]("ctx.cancelled", s.ctx))))
		gvCover("written")
	} else {
		gvCheck("writes-without-answer-fail", err != nil)
		gvCheck("writes-fail-only-after-the-end", gvGet[bool]("ctx.cancelled", s.ctx))
	}
	if gvGet[bool]("s.gone", "") && gvGet[int]("s.jobs", "") == 1 {
		gvCover("a write without answer ends")
	}
}

// ---- the server reads what is posted ----
//
// Ghost state: p.mine: this request has the right to write, p.body its body, p.bad: it could not be read, p.n the number of
// writes to the pipe, p.ok: the body was written.

//govc:guarded serverSSEConnection.mx f:serverSSEConnection.postWriting

//govc:hook onlock serverSSEConnection.mx
func on_c21lock__post(s *serverSSEConnection) {
	gvAssume(gvImp(gvGet[bool]("p.mine", ""), s.postWriting))
	gvSet("p.was", "", s.postWriting)
}

//govc:hook onunlock serverSSEConnection.mx
func on_c21unlock__post(s *serverSSEConnection) {
	was, mine := gvGet[bool]("p.was", ""), gvGet[bool]("p.mine", "")
	gvCheck("the-right-of-others-is-left-alone", gvImp(gvAnd(was, gvNot(mine)), s.postWriting))
	gvSet("p.mine", "", gvAnd(s.postWriting, gvOr(mine, gvNot(was))))
}

//govc:model io.ReadAll
func c21readAll__post(r io.Reader) ([]byte, error) {
	gvCheck("the-body-is-read-once", gvNot(gvGet[bool]("p.read", "")))
	gvCheck("the-whole-body-is-read", gvSame[any](r, gvGet[*http.Request]("p.request", "").Body))
	gvSet("p.read", "", true)
	b := gvAny[[]byte]()
	gvSet("p.body", "", string(b))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("p.bad", "", true)
		return b, err
	}
	return b, nil
}

//govc:model (*io.PipeWriter).Write|(io.Writer).Write
func c21pipe__post(w *io.PipeWriter, p []byte) (int, error) {
	gvCheck("posts-are-written-one-after-the-other", gvGet[bool]("p.mine", ""))
	gvCheck("a-post-is-written-once", gvGet[int]("p.n", "") == 0)
	gvCheck("only-whole-bodies-are-written", gvAnd(gvGet[bool]("p.read", ""), gvNot(gvGet[bool]("p.bad", ""))))
	gvCheck("the-body-is-written-unchanged", string(p) == gvGet[string]("p.body", ""))
	gvSet("p.n", "", gvGet[int]("p.n", "")+1)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return gvAny[int](), err
	}
	gvSet("p.ok", "", true)
	return len(p), nil
}

//govc:task C21 posts-are-delivered-once-and-never-block-later-ones mode=post interfere
func c21Post() {
	s := gvAny[*serverSSEConnection]()
	gvAssume(s != nil)
	gvAssume(gvAnd(s.ctx != nil, s.postWriter != nil))
	r := gvAny[*http.Request]()
	gvAssume(r != nil)
	gvAssume(r.Body != nil)
	gvSet("p.request", "", r)
	gvSet("p.mine", "", false)
	gvSet("p.was", "", false)
	gvSet("p.read", "", false)
	gvSet("p.bad", "", false)
	gvSet("p.ok", "", false)
	gvSet("p.n", "", 0)
	status := s.consumeRequest(r)
	gvCheck("later-posts-are-not-blocked", gvNot(gvGet[bool]("p.mine", "")))
	gvCheck("accepted-means-delivered", gvIff(status == http.StatusOK, gvGet[bool]("p.ok", "")))
	gvCheck("other-posts-are-rejected", gvOr(status == http.StatusOK, status >= 400))
	gvCover("returns")
	if status == http.StatusOK {
		gvCover("accepted")
	}
}

// ---- the end of the connection ----

//govc:model io.Pipe
func c21newPipe__sseend() (*io.PipeReader, *io.PipeWriter) {
	r, w := &io.PipeReader{}, &io.PipeWriter{}
	gvSet("e.reader", w, r)
	return r, w
}

//govc:model (*io.PipeReader).Close
func c21close__sseend(r *io.PipeReader) error {
	gvSet("e.closed", r, true)
	return nil
}

//govc:model (*io.PipeReader).CloseWithError
func c21closeWith__sseend(r *io.PipeReader, err error) error { return c21close__sseend(r) }

//govc:model (*io.PipeWriter).Close
func c21closeW__sseend(w *io.PipeWriter) error {
	gvSet("e.closed", gvGet[*io.PipeReader]("e.reader", w), true)
	return nil
}

//govc:model (*io.PipeWriter).CloseWithError
func c21closeWithW__sseend(w *io.PipeWriter, err error) error { return c21closeW__sseend(w) }

//govc:model (*io.PipeWriter).Write|(io.Writer).Write
func c21pipeWrite__sseend(w *io.PipeWriter, p []byte) (int, error) {
	gvCheck("nothing-is-written-to-the-pipe-but-posts", false)
	return gvAny[int](), gvAny[error]()
}

//govc:model (*io.PipeReader).Read|(io.Reader).Read
func c21pipeRead__sseend(r *io.PipeReader, p []byte) (int, error) {
	gvCheck("one-read-of-the-pipe-for-each-read", gvNot(gvGet[bool]("e.read", "")))
	gvCheck("the-pipe-is-read-into-the-buffer", gvSame(p, gvGet[[]byte]("e.p", "")))
	gvSet("e.read", "", true)
	n, err := gvAny[int](), gvAny[error]()
	gvAssume(gvAnd(n >= 0, n <= len(p)))
	gvSet("e.n", "", n)
	gvSet("e.err", "", err)
	return n, err
}

//govc:model (context.Context).Err
func c21err__sseend(c context.Context) error {
	if gvGet[bool]("e.never", "") {
		return nil
	}
	return gvCtxErr(c)
}

//govc:task C21 the-end-of-the-connection-ends-its-requests mode=sseend spawn=late
func c21End() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	gvSet("e.never", "", false)
	s, jobs, results, err := newServerSSEConnection(ctx, gvAny[string]())
	if err != nil {
		return
	}
	gvCheck("the-response-gets-the-jobs", gvAnd(gvSame[<-chan []byte](jobs, s.jobChan), gvSame(results, s.jobResultChan)))
	gvCheck("one-job-and-one-result-do-not-wait", gvAnd(cap(jobs) >= 1, cap(results) >= 1))
	r := gvGet[*io.PipeReader]("e.reader", s.postWriter)
	gvCheck("what-is-posted-is-read", gvSame[any](r, s.postReader))
	gvCheck("the-connection-is-open", gvNot(gvOr(gvClosed(s.jobChan), gvGet[bool]("e.closed", r))))
	gvCover("open")
	gvJoin() // the context is cancelled
	gvCheck("waiting-posts-end-with-the-connection", gvGet[bool]("e.closed", r))
	gvCheck("the-response-ends-with-the-connection", gvClosed(s.jobChan))
	gvCover("closed")
}

//govc:task C21 what-was-posted-is-read-unchanged mode=sseend spawn=any
func c21Read() {
	s := gvAny[*serverSSEConnection]()
	gvAssume(s != nil)
	gvAssume(s.ctx != nil)
	r, w := c21newPipe__sseend()
	s.postReader, s.postWriter = r, w
	p := gvAny[[]byte]()
	dead := gvAny[bool]()
	gvSet("ctx.cancelled", s.ctx, dead)
	gvSet("e.never", "", false)
	gvSet("e.read", "", false)
	gvSet("e.p", "", p)
	n, err := s.Read(p)
	gvCheck("reads-after-the-end-fail", gvImp(dead, err != nil))
	ended := gvGet[bool]("ctx.cancelled", s.ctx)
	if gvGet[bool]("e.read", "") {
		gvCheck("reads-return-what-was-posted", gvOr(gvAnd(n == gvGet[int]("e.n", ""), gvIff(err == nil, gvGet[error]("e.err", "") == nil)), gvAnd(ended, err != nil)))
		gvCover("read")
	} else {
		gvCheck("reads-fail-only-after-the-end", gvAnd(err != nil, ended))
		gvCover("ended")
	}
}

// ---- the response ----
//
// Ghost state: h.job the event that is written, h.jobs: there is one; h.n and h.err the result, h.flushed: it is sent.

//govc:model (*httpMux).startConnection
func c21start__response(h *httpMux, key string, newConn func(*negotiateConnection) (Connection, error)) (Connection, int) {
	c, err := newConn(gvAny[*negotiateConnection]())
	if err != nil {
		return nil, http.StatusInternalServerError
	}
	return c, http.StatusOK
}

//govc:model newServerSSEConnection
func c21newSSE__response(ctx context.Context, id string) (*serverSSEConnection, <-chan []byte, chan RWJobResult, error) {
	s := &serverSSEConnection{}
	gvSet("h.ctx", "", ctx)
	jobs := gvAny[<-chan []byte]()
	gvAssume(jobs != nil)
	results := make(chan RWJobResult, 1)
	gvSet("h.results", "", results)
	gvSet("h.begun", "", true)
	return s, jobs, results, nil
}

//govc:model github.com/teivah/onecontext.Merge
func c21merge__response(ctx context.Context, ctxs ...context.Context) (context.Context, context.CancelFunc) {
	return gvCtxWithCancel(ctx)
}

//govc:model (Server).Serve
func c21serve__response(s Server, c Connection) error {
	gvCheck("the-connection-is-open-while-it-is-served", gvOr(gvGet[bool]("h.end", ""), gvNot(gvGet[bool]("ctx.cancelled", gvGet[context.Context]("h.ctx", "")))))
	gvSet("h.served", "", true)
	return gvAny[error]()
}

//govc:model (net/http.ResponseWriter).Header
func c21header__response(w http.ResponseWriter) http.Header { return gvInj[http.Header]("h.header", w) }

//govc:model (net/http.Header).Set
func c21setHeader__response(h http.Header, k, v string) {}

//govc:model (net/http.ResponseWriter).WriteHeader
func c21writeHeader__response(w http.ResponseWriter, code int) {}

//govc:model fmt.Fprint
func c21fprint__response(w io.Writer, a ...any) (int, error) { return gvAny[int](), gvAny[error]() }

//govc:model (net/http.ResponseWriter).Write
func c21responseWrite__response(w http.ResponseWriter, p []byte) (int, error) {
	gvCheck("an-event-is-written-once", gvGet[int]("h.state", "") == 1)
	gvCheck("events-are-written-unchanged", string(p) == gvGet[string]("h.job", ""))
	n, err := gvAny[int](), gvAny[error]()
	gvSet("h.n", "", n)
	gvSet("h.err", "", err)
	gvSet("h.state", "", 2)
	return n, err
}

//govc:model (net/http.Flusher).Flush
func c21flush__response(f http.Flusher) { gvSet("h.flushed", "", gvGet[int]("h.state", "") == 2) }

//govc:hook onrecv []byte
func on_c21take__response(ch <-chan []byte, b []byte, ok bool) {
	gvCheck("each-event-gets-its-result", gvGet[int]("h.state", "") == 0)
	gvCheck("the-response-ends-with-the-connection", gvImp(gvGet[bool]("h.served", ""), gvGet[bool]("ctx.cancelled", gvGet[context.Context]("h.ctx", ""))))
	if !ok {
		// the jobs are closed when the context is cancelled
		gvSet("h.end", "", true)
		return
	}
	gvSet("h.job", "", string(b))
	gvSet("h.state", "", 1)
	gvSet("h.flushed", "", false)
}

//govc:hook onsend RWJobResult
func on_c21done__response(ch chan RWJobResult, r RWJobResult) {
	gvCheck("the-result-follows-the-event", gvAnd(gvGet[int]("h.state", "") == 2, gvSame(ch, gvGet[chan RWJobResult]("h.results", ""))))
	err := gvGet[error]("h.err", "")
	gvCheck("the-result-is-that-of-the-write", gvAnd(r.n == gvGet[int]("h.n", ""), gvSame(r.err, err)))
	gvCheck("written-events-are-sent-at-once", gvOr(err != nil, gvGet[bool]("h.flushed", "")))
	gvSet("h.state", "", 0)
	<-ch
	gvCover("event written")
}

//govc:hook onclose RWJobResult
func on_c21close__response(ch chan RWJobResult) {
	gvCheck("the-end-is-told-after-the-last-result", gvGet[int]("h.state", "") == 0)
}

//govc:inv
func inv_c21idle__response() bool { return gvGet[int]("h.state", "") == 0 }

//govc:task C21 the-response-writes-each-event-and-tells-its-result mode=response spawn=any
func c21Response() {
	h := gvAny[*httpMux]()
	gvAssume(h != nil)
	gvAssume(h.server != nil)
	gvAssume(h.server.Context() != nil)
	w, r := gvAny[http.ResponseWriter](), gvAny[*http.Request]()
	gvAssume(gvAnd(w != nil, r != nil))
	gvAssume(r.URL != nil)
	gvSet("h.state", "", 0)
	gvSet("h.end", "", false)
	gvSet("h.begun", "", false)
	gvSet("h.served", "", false)
	h.handleServerSentEvent(w, r)
	if !gvGet[bool]("h.begun", "") {
		return
	}
	gvCheck("the-writer-is-told-the-end", gvClosed(gvGet[chan RWJobResult]("h.results", "")))
	gvJoin()
	gvCheck("the-connection-is-served", gvGet[bool]("h.served", ""))
	gvCheck("the-connection-ends-with-the-response", gvGet[bool]("ctx.cancelled", gvGet[context.Context]("h.ctx", "")))
	gvCover("response ended")
}

// ---- the client reads ----
//
// Ghost state: c.cont: the next piece continues a line, c.data: the line is one of data, c.due what is to be passed on.

// c21piece is the next piece of a line: what it passes on is noted
func c21piece(s string, more bool) {
	gvCheck("all-data-is-passed-on", gvGet[string]("c.due", "") == "")
	if !gvGet[bool]("c.cont", "") {
		before := gvGet[bool]("c.data", "")
		data := gvPrefix(s, "data:")
		gvSet("c.data", "", data)
		due := ""
		if data {
			due = gvSubstr(s, 5, len(s)-5)
			if gvPrefix(due, " ") {
				due = gvSubstr(s, 6, len(s)-6)
			}
			if before {
				due = "\n" + due
			}
		}
		gvSet("c.due", "", due)
	} else if gvGet[bool]("c.data", "") {
		gvSet("c.due", "", s)
	}
	gvSet("c.cont", "", more)
}

//govc:model (*bufio.Reader).ReadLine
func c21readLine__ssein(r *bufio.Reader) ([]byte, bool, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c.end", "", err)
		return nil, false, err
	}
	s, more := gvAny[string](), gvAny[bool]()
	gvAssume(gvNot(gvContains(s, "\n")))
	gvAssume(gvImp(more, len(s) >= 16))
	c21piece(s, more)
	return []byte(s), more, nil
}

//govc:model (*bufio.Reader).ReadString
func c21readString__ssein(r *bufio.Reader, delim byte) (string, error) {
	p, _, err := c21readLine__ssein(r)
	gvAssume(gvNot(gvGet[bool]("c.cont", "")))
	if err != nil {
		return gvAny[string](), err
	}
	if gvFork(2) == 1 {
		return string(p) + "\r\n", nil
	}
	return string(p) + "\n", nil
}

//govc:model (*io.PipeWriter).Write|(io.Writer).Write
func c21pass__ssein(w *io.PipeWriter, p []byte) (int, error) {
	due, s := gvGet[string]("c.due", ""), string(p)
	gvCheck("only-data-is-passed-on", gvPrefix(due, s))
	gvSet("c.due", "", gvSubstr(due, len(s), len(due)-len(s)))
	if len(p) > 0 {
		gvCover("data")
	}
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c.end", "", err)
		return gvAny[int](), err
	}
	return len(p), nil
}

//govc:model (*io.PipeWriter).CloseWithError
func c21closeClient__ssein(w *io.PipeWriter, err error) error {
	gvCheck("reads-end-with-the-error", gvSame(err, gvGet[error]("c.end", "")))
	gvSet("c.closed", "", true)
	return nil
}

//govc:model closeResponseBody
func c21closeBody__ssein(b io.ReadCloser) { gvSet("c.bodyClosed", "", true) }

//govc:inv
func inv_c21line__ssein(continued, data bool) bool {
	return gvAnd(gvIff(continued, gvGet[bool]("c.cont", "")), gvIff(data, gvGet[bool]("c.data", "")))
}

//govc:inv
func inv_c21data__ssein(data bool) bool { return gvIff(data, gvGet[bool]("c.data", "")) }

//govc:inv
func inv_c21cont__ssein(continued bool) bool { return gvIff(continued, gvGet[bool]("c.cont", "")) }

//govc:inv
func inv_c21first__ssein(first bool) bool { return gvIff(first, gvNot(gvGet[bool]("c.cont", ""))) }

//govc:inv
func inv_c21none__ssein() bool { return gvGet[string]("c.due", "") == "" }

//govc:inv
func inv_c21whole__ssein() bool { return gvNot(gvGet[bool]("c.cont", "")) }

//govc:task C21 clients-read-the-data-of-the-events mode=ssein spawn=inline
func c21Client() {
	doer := gvAny[Doer]()
	gvAssume(doer != nil)
	body := gvAny[io.ReadCloser]()
	gvAssume(body != nil)
	gvSet("c.due", "", "")
	gvSet("c.cont", "", false)
	gvSet("c.data", "", false)
	gvSet("c.closed", "", false)
	gvSet("c.bodyClosed", "", false)
	gvSet("c.end", "", gvAny[error]())
	c, err := newClientSSEConnection(gvAny[string](), gvAny[string](), body, doer)
	gvJoin()
	if err != nil {
		return
	}
	gvCheck("a-connection-or-an-error", c != nil)
	gvCheck("reads-end-with-the-events", gvGet[bool]("c.closed", ""))
	gvCheck("the-response-is-closed", gvGet[bool]("c.bodyClosed", ""))
	gvCover("ended")
}

// ---- the client writes ----

//govc:model bytes.NewReader
func c21bytesReader__sseout(p []byte) *bytes.Reader {
	r := new(bytes.Reader)
	gvSet("o.text", r, string(p))
	return r
}

//govc:model bytes.NewBuffer
func c21bytesBuffer__sseout(p []byte) *bytes.Buffer {
	r := new(bytes.Buffer)
	gvSet("o.text", r, string(p))
	return r
}

//govc:model strings.NewReader
func c21stringsReader__sseout(s string) *strings.Reader {
	r := new(strings.Reader)
	gvSet("o.text", r, s)
	return r
}

//govc:model net/http.NewRequest
func c21newRequest__sseout(method, url string, body io.Reader) (*http.Request, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	r := new(http.Request)
	text := ""
	switch b := body.(type) {
	case *bytes.Reader:
		text = gvGet[string]("o.text", b)
	case *bytes.Buffer:
		text = gvGet[string]("o.text", b)
	case *strings.Reader:
		text = gvGet[string]("o.text", b)
	}
	gvSet("o.method", r, method)
	gvSet("o.url", r, url)
	gvSet("o.body", r, text)
	return r, nil
}

//govc:model net/http.NewRequestWithContext
func c21newRequestWith__sseout(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	return c21newRequest__sseout(method, url, body)
}

//govc:model (Doer).Do
func c21do__sseout(d Doer, r *http.Request) (*http.Response, error) {
	c := gvGet[*clientSSEConnection]("o.c", "")
	gvCheck("a-message-is-posted-once", gvGet[int]("o.n", "") == 0)
	gvCheck("messages-are-posted", gvGet[string]("o.method", r) == "POST")
	gvCheck("messages-are-posted-to-the-connection", gvGet[string]("o.url", r) == c.reqURL)
	gvCheck("the-whole-message-is-posted", gvGet[string]("o.body", r) == gvGet[string]("o.p", ""))
	gvSet("o.n", "", gvGet[int]("o.n", "")+1)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	resp := new(http.Response)
	resp.StatusCode = gvAny[int]()
	resp.Status = gvAny[string]()
	resp.Body = gvAny[io.ReadCloser]()
	gvSet("o.answered", "", true)
	gvSet("o.status", "", resp.StatusCode)
	return resp, nil
}

//govc:model closeResponseBody
func c21closeBody__sseout(b io.ReadCloser) { gvSet("o.closed", "", true) }

//govc:task C21 clients-post-each-message-once mode=sseout panics
func c21ClientWrite() {
	c := gvAny[*clientSSEConnection]()
	gvAssume(c != nil)
	gvAssume(c.client != nil)
	p := gvAny[[]byte]()
	gvSet("o.c", "", c)
	gvSet("o.p", "", string(p))
	gvSet("o.n", "", 0)
	gvSet("o.answered", "", false)
	gvSet("o.closed", "", false)
	gvSet("o.status", "", 0)
	n, err := c.Write(p)
	accepted := gvAnd(gvGet[bool]("o.answered", ""), gvGet[int]("o.status", "") == http.StatusOK)
	gvCheck("written-means-accepted", gvIff(err == nil, accepted))
	gvCheck("the-whole-message-was-written", gvImp(err == nil, n == len(p)))
	gvCheck("the-answer-is-closed", gvImp(gvGet[bool]("o.answered", ""), gvGet[bool]("o.closed", "")))
	gvCover("returns")
	if err == nil {
		gvCover("accepted")
	}
}

//govc:task C21 clients-read-what-the-events-gave mode=sseend
func c21ClientRead() {
	c := gvAny[*clientSSEConnection]()
	gvAssume(c != nil)
	r, _ := c21newPipe__sseend()
	c.sseReader = r
	p := gvAny[[]byte]()
	gvSet("e.read", "", false)
	gvSet("e.p", "", p)
	n, err := c.Read(p)
	gvCheck("reads-return-what-the-events-gave", gvAnd(n == gvGet[int]("e.n", ""), gvIff(err == nil, gvGet[error]("e.err", "") == nil)))
	gvCover("read")
}

// ---- the client connects ----
//
// Ghost state: n.id the id (or token) of the negotiation, n.url(u) the address with this id, n.get the address of the events.

//govc:model (*net/url.URL).String
func c21urlString__connect(u *url.URL) string {
	return gvPure[string]("url", u.Scheme, u.Host, u.Path, u.RawQuery)
}

//govc:model (*net/url.URL).Query
func c21query__connect(u *url.URL) url.Values { return gvInj[url.Values]("query", new(int)) }

//govc:model (net/url.Values).Set
func c21setQuery__connect(v url.Values, key, value string) { gvSet("n."+key, "", value) }

//govc:model (net/url.Values).Encode
func c21encodeQuery__connect(v url.Values) string {
	return gvPure[string]("encoded", gvGet[string]("n.id", ""))
}

//govc:model net/url.Parse
func c21parse__connect(s string) (*url.URL, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	u := new(url.URL)
	u.Scheme, u.Host = gvPure[string]("url.scheme", s), gvPure[string]("url.host", s)
	u.Path, u.RawQuery = gvPure[string]("url.path", s), gvPure[string]("url.query", s)
	return u, nil
}

//govc:model net/http.NewRequest
func c21newRequest__connect(method, url string, body io.Reader) (*http.Request, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	r := new(http.Request)
	r.URL = gvAny[*urlURL]()
	gvAssume(r.URL != nil)
	gvSet("n.method", r, method)
	gvSet("n.url", r, url)
	return r, nil
}

type urlURL = url.URL

//govc:model net/http.NewRequestWithContext
func c21newRequestWith__connect(ctx context.Context, method, url string, body io.Reader) (*http.Request, error) {
	return c21newRequest__connect(method, url, body)
}

//govc:model (net/http.Header).Set|(net/http.Header).Add
func c21setHeader__connect(h http.Header, k, v string) {}

//govc:model (Doer).Do
func c21do__connect(d Doer, r *http.Request) (*http.Response, error) {
	if gvGet[string]("n.method", r) == "GET" {
		gvCheck("the-events-are-requested-once", gvGet[string]("n.get", "") == "")
		gvCheck("the-negotiated-connection-is-used", gvGet[string]("n.id", "") == gvGet[string]("n.key", ""))
		gvSet("n.get", "", gvGet[string]("n.url", r))
	}
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	resp := new(http.Response)
	resp.StatusCode = gvAny[int]()
	resp.Body = gvAny[io.ReadCloser]()
	return resp, nil
}

//govc:model io.ReadAll
func c21readAll__connect(r io.Reader) ([]byte, error) { return gvAny[[]byte](), gvAny[error]() }

//govc:model closeResponseBody
func c21closeBody__connect(b io.ReadCloser) {}

//govc:model encoding/json.Unmarshal
func c21unmarshal__connect(p []byte, v any) error {
	nr := v.(*negotiateResponse)
	*nr = gvAny[negotiateResponse]()
	gvAssume(gvOr(nr.NegotiateVersion == 0, nr.NegotiateVersion == 1))
	gvSet("n.key", "", gvIte(nr.NegotiateVersion == 1, nr.ConnectionToken, nr.ConnectionID))
	gvSet("n.connection", "", nr.ConnectionID)
	return gvAny[error]()
}

//govc:model (*negotiateResponse).hasTransport
func c21hasTransport__connect(nr *negotiateResponse, t TransportType) bool {
	return t == TransportServerSentEvents
}

//govc:model (*httpConnection).hasTransport
func c21usesTransport__connect(nr *httpConnection, t TransportType) bool { return true }

//govc:task C21 clients-post-to-the-connection-whose-events-they-read mode=connect spawn=skip
func c21Connect() {
	gvInit()
	doer := gvAny[Doer]()
	gvAssume(doer != nil)
	headers := gvAny[func() http.Header]()
	gvSet("n.get", "", "")
	gvSet("n.id", "", "")
	gvSet("n.key", "", "")
	gvSet("n.connection", "", "")
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	var conn Connection
	var err error
	if gvFork(2) == 0 {
		conn, err = NewHTTPConnection(ctx, gvAny[string](), WithHTTPClient(doer), WithNegotiateVersion(gvAny[int]()))
	} else {
		conn, err = NewHTTPConnection(ctx, gvAny[string](), WithHTTPClient(doer), WithHTTPHeaders(headers))
	}
	if err != nil {
		return
	}
	c, ok := conn.(*clientSSEConnection)
	gvCheck("the-events-are-read", ok)
	gvCheck("messages-are-posted-to-the-connection-whose-events-are-read", c.reqURL == gvGet[string]("n.get", ""))
	gvCheck("the-connection-has-the-negotiated-id", c.connectionID == gvGet[string]("n.connection", ""))
	gvCover("connected")
}
