package signalr

import (
	"fmt"
	"sync"
	"time"
)

// C10: the message loop's life cycle is complete on every exit path. See gv_run.go for the ghost state.

// ---- the loop ----

//govc:model (HubConnection).Ping
func c10ping__life(h HubConnection) error {
	runOwn(h)
	if gvFork(2) == 1 {
		runReason()
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	return nil
}

//govc:model (HubConnection).LastWriteStamp
func c10stamp__life(h HubConnection) time.Time { return gvAny[time.Time]() }

// c10ignored tells that a message needs no processing.
func c10ignored(v receiveResult) bool {
	m, isOther := v.message.(hubMessage)
	return gvAnd(v.err == nil, gvOr(v.message == nil, gvAnd(isOther, m.Type == 6)))
}

// c10message: a protocol delivers the messages of the SignalR protocol only (C04, C05), the connection errors.
func c10message(v receiveResult) {
	_, a := v.message.(invocationMessage)
	_, b := v.message.(cancelInvocationMessage)
	_, c := v.message.(streamItemMessage)
	_, d := v.message.(completionMessage)
	_, e := v.message.(closeMessage)
	_, f := v.message.(hubMessage)
	gvAssume(gvOr(gvOr(gvOr(a, b), gvOr(c, d)), gvOr(gvOr(e, f), v.err != nil)))
}

// c10ends tells that a message ends the loop.
func c10ends(v receiveResult) bool {
	m, isOther := v.message.(hubMessage)
	_, isClose := v.message.(closeMessage)
	return gvOr(v.err != nil, gvOr(isClose, gvAnd(isOther, m.Type != 6)))
}

func c10over() bool {
	return gvOr(gvGet[bool]("run.reason", 0), gvOr(gvGet[bool]("ctx.cancelled", runCtx()), gvGet[bool]("ctx.cancelled", runPartyCtx())))
}

//govc:hook onrecv receiveResult
func on_c10recv__life(ch <-chan receiveResult, v receiveResult, ok bool) {
	gvCheck("every-message-is-processed", gvOr(gvNot(gvGet[bool]("run.holding", 0)), c10ignored(gvGet[receiveResult]("run.v", 0))))
	gvCheck("the-loop-ends-when-there-is-a-reason", gvNot(c10over()))
	gvSet("run.fresh", 0, true)
	gvSet("run.waited", 0, true)
	gvCheck("nothing-is-received-after-the-end", gvGet[int]("run.disc", 0) == 0)
	gvSet("run.gone", 0, !ok)
	gvSet("run.holding", 0, ok)
	gvSet("run.v", 0, v)
	if ok {
		c10message(v)
		m, isClose := v.message.(closeMessage)
		gvSet("run.reason", 0, c10ends(v))
		gvSet("run.clean", 0, gvAnd(v.err == nil, gvAnd(isClose, m.Error == "")))
		_, isCompletion := v.message.(completionMessage)
		up, call := gvAny[bool](), gvAny[bool]()
		gvSet("run.up", 0, up)
		gvSet("run.call", 0, call)
		gvSet("run.unknown", 0, gvAnd(gvAnd(isCompletion, v.err == nil), gvNot(gvOr(up, call))))
	}
}

//govc:hook onsend receiveResult
func on_c10send__life(ch chan receiveResult, v receiveResult) {
	gvCheck("only-received-messages-are-passed-on", gvAnd(gvGet[bool]("run.holding", 0), gvSame(v, gvGet[receiveResult]("run.v", 0))))
	gvSet("run.holding", 0, false)
	gvSet("run.reason", 0, false)
	gvSet("run.clean", 0, false)
}

//govc:hook onrecv time.Time
func on_c10tick__life(ch <-chan time.Time, v time.Time, ok bool) {
	gvCheck("the-loop-ends-when-there-is-a-reason", gvNot(c10over()))
	if gvGet[int]("run.kind", gvInj[any]("ch", ch)) == 1 {
		runReason()
		gvCover("timeout")
	}
}

//govc:hook onsend struct{}
func on_c10started__life(ch chan struct{}, v struct{}) {
	gvCheck("started-is-signalled-after-the-connected-callback", gvGet[int]("run.conn", 0) == 1)
}

// c10process: the message in hand is processed as what it is.
func c10process(is bool) {
	gvCheck("a-message-is-processed-once", gvGet[bool]("run.holding", 0))
	gvCheck("a-message-is-processed-as-what-it-is", gvAnd(gvGet[receiveResult]("run.v", 0).err == nil, is))
	gvCheck("messages-are-processed-between-connected-and-disconnected", gvAnd(gvGet[int]("run.conn", 0) == 1, gvGet[int]("run.disc", 0) == 0))
	gvSet("run.holding", 0, false)
}

//govc:model (*loop).handleInvocationMessage
func c10invocation__life(l *loop, m invocationMessage) {
	x, ok := gvGet[receiveResult]("run.v", 0).message.(invocationMessage)
	c10process(gvAnd(ok, gvSame(x, m)))
	gvCover("invocation")
}

//govc:model (*streamer).Stop
func c10stop__life(s *streamer, id string) {
	x, ok := gvGet[receiveResult]("run.v", 0).message.(cancelInvocationMessage)
	gvCheck("the-own-streams-are-cancelled", s == gvGet[*loop]("run.l", 0).streamer)
	c10process(gvAnd(ok, x.InvocationID == id))
	gvCover("cancellation")
}

//govc:model (*streamClient).receiveStreamItem
func c10item__life(c *streamClient, m streamItemMessage) error {
	x, ok := gvGet[receiveResult]("run.v", 0).message.(streamItemMessage)
	c10process(gvAnd(ok, gvSame(x, m)))
	gvCover("stream item")
	switch gvFork(3) {
	case 0:
		return nil
	case 1:
		return &hubChanTimeoutError{gvAny[string]()}
	}
	runReason()
	err := gvAny[error]()
	gvAssume(err != nil)
	_, timedOut := err.(*hubChanTimeoutError)
	gvAssume(gvNot(timedOut))
	return err
}

//govc:model (HubConnection).Completion
func c10completion__life(h HubConnection, id string, v interface{}, text string) error {
	runOwn(h)
	return gvAny[error]()
}

//govc:model (*streamClient).handlesInvocationID
func c10upHandles__life(c *streamClient, id string) bool { return gvGet[bool]("run.up", 0) }

//govc:model (*invokeClient).handlesInvocationID
func c10callHandles__life(i *invokeClient, id string) bool { return gvGet[bool]("run.call", 0) }

func c10completed(m completionMessage) error {
	x, ok := gvGet[receiveResult]("run.v", 0).message.(completionMessage)
	c10process(gvAnd(ok, gvSame(x, m)))
	gvSet("run.unknown", 0, false)
	gvCover("completion")
	if gvFork(2) == 1 {
		runReason()
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	return nil
}

//govc:model (*streamClient).receiveCompletionItem
func c10upCompletion__life(c *streamClient, m completionMessage, i *invokeClient) error {
	gvCheck("a-completion-goes-where-its-id-belongs", gvGet[bool]("run.up", 0))
	return c10completed(m)
}

//govc:model (*invokeClient).receiveCompletionItem
func c10callCompletion__life(i *invokeClient, m completionMessage) error {
	gvCheck("a-completion-goes-where-its-id-belongs", gvNot(gvGet[bool]("run.up", 0)))
	err := c10completed(m)
	gvAssume(gvOr(gvGet[bool]("run.call", 0), err != nil)) // C09: an unknown id is an error
	return err
}

//govc:model (*invokeClient).cancelAllInvokes
func c10cancelAll__life(i *invokeClient) {
	gvCheck("the-own-calls-are-cancelled", i == gvGet[*loop]("run.l", 0).invokeClient)
	gvCheck("no-call-is-sent-after-the-pending-ones-were-cancelled", gvGet[bool]("ctx.cancelled", runCtx()))
	gvSet("run.cancels", 0, gvGet[int]("run.cancels", 0)+1)
}

//govc:inv
func inv_c10idle() bool {
	return gvOr(gvNot(gvGet[bool]("run.holding", 0)), c10ignored(gvGet[receiveResult]("run.v", 0)))
}

//govc:inv
func inv_c10noReason() bool { return gvNot(c10over()) }

//govc:inv
func inv_c10counts() bool {
	return gvAnd(gvAnd(gvGet[int]("run.conn", 0) == 1, gvGet[int]("run.disc", 0) == 0), gvAnd(gvGet[int]("run.closes", 0) == 0, gvGet[int]("run.cancels", 0) == 0))
}

//govc:inv
func inv_c10unknown() bool {
	return gvNot(gvAnd(gvGet[bool]("run.holding", 0), gvGet[bool]("run.unknown", 0)))
}

//govc:inv
func inv_c10open(l *loop) bool { return l.closeMessage == nil }

//govc:task C10 every-ending-is-complete mode=life spawn=separate
func c10Run() {
	l := runLoop()
	started := make(chan struct{}, 1)
	err := l.Run(started)
	gvCheck("connected-once", gvGet[int]("run.conn", 0) == 1)
	gvCheck("disconnected-once", gvGet[int]("run.disc", 0) == 1)
	gvCheck("started-is-signalled", gvClosed(started))
	gvCheck("pending-calls-are-cancelled", gvGet[int]("run.cancels", 0) >= 1)
	gvCheck("the-hub-connection-is-cancelled", gvGet[bool]("ctx.cancelled", runCtx()))
	gvCheck("the-loop-ends-with-an-error-unless-the-peer-closed", gvIff(err == nil, gvGet[bool]("run.clean", 0)))
	v := gvGet[receiveResult]("run.v", 0)
	m, isClose := v.message.(closeMessage)
	last := gvAnd(gvGet[bool]("run.holding", 0), gvAnd(v.err == nil, isClose))
	gvCheck("the-close-message-is-kept", gvIff(last, l.closeMessage != nil))
	if l.closeMessage != nil {
		gvCheck("the-close-message-is-kept", gvSame(*l.closeMessage, m))
	}
	if err != nil {
		gvCheck("a-close-message-is-sent", gvGet[int]("run.closes", 0) == 1)
		text := gvGet[string]("run.text", 0)
		gvCheck("the-close-message-has-the-error", gvOr(text == err.Error(), text == fmt.Sprintf("%v", err)))
		gvCheck("the-close-message-has-the-reconnect-permission", gvGet[bool]("run.again", 0) == l.party.allowReconnect())
		gvCover("error")
	} else {
		gvCover("closed by the peer")
	}
}

// ---- the goroutine which passes messages on ends with its source only ----

//govc:model (*sync.WaitGroup).Done
func c10passed__life(wg *sync.WaitGroup) {
	gvCheck("messages-are-passed-on-until-the-end", gvOr(gvGet[bool]("run.gone", 0), gvGet[bool]("ctx.cancelled", runCtx())))
}

// ---- pending calls ----

//govc:hook onmapread map[string]invocationResultChans
func on_c10entry__cancel(m map[string]invocationResultChans, k string, r invocationResultChans) {
	// every call has channels of its own (newInvocation)
	if k != gvGet[string]("c10.k", 0) {
		rc, ec := gvGet[chan any]("c10.rc", 0), gvGet[chan error]("c10.ec", 0)
		gvAssume(gvAnd(r.resultChan != rc, r.errChan != ec))
		gvAssume(gvNot(gvInj[any]("ch", r.resultChan) == gvInj[any]("ch", ec)))
		gvAssume(gvNot(gvInj[any]("ch", r.errChan) == gvInj[any]("ch", rc)))
	}
	gvAssume(gvNot(gvInj[any]("ch", r.resultChan) == gvInj[any]("ch", r.errChan)))
	gvAssume(gvAnd(r.resultChan != nil, r.errChan != nil))
}

//govc:hook onsend iface
func on_c10cancelSend__cancel(ch chan any, v any) {
	k := gvInj[any]("ch", ch)
	gvSet("c10.sent", k, gvGet[int]("c10.sent", k)+1)
	gvSet("c10.v", k, v)
}

//govc:hook onclose iface
func on_c10cancelClose__cancel(ch chan any) {
	k := gvInj[any]("ch", ch)
	gvSet("c10.closed", k, gvGet[int]("c10.closed", k)+1)
}

//govc:inv
func inv_c10cancelled() bool {
	k := gvGet[string]("c10.k", 0)
	rc, ec := gvInj[any]("ch", gvGet[chan any]("c10.rc", 0)), gvInj[any]("ch", gvGet[chan error]("c10.ec", 0))
	n := gvIte(gvVisited(k), 1, 0)
	return gvAnd(gvAnd(gvGet[int]("c10.sent", rc) == 0, gvGet[int]("c10.closed", rc) == n), gvAnd(gvGet[int]("c10.sent", ec) == n, gvGet[int]("c10.closed", ec) == n))
}

//govc:inv
func inv_c10error() bool {
	ec := gvInj[any]("ch", gvGet[chan error]("c10.ec", 0))
	return gvImp(gvGet[int]("c10.sent", ec) == 1, gvGet[any]("c10.v", ec) != nil)
}

//govc:task C10 every-pending-call-gets-an-error mode=cancel
func c10CancelAll() {
	i := gvAny[*invokeClient]()
	gvAssume(i != nil)
	k := gvRigid[string]()
	gvSet("c10.k", 0, k)
	r, pending := i.resultChans[k]
	gvAssume(pending)
	gvAssume(gvAnd(r.resultChan != nil, r.errChan != nil))
	gvSet("c10.rc", 0, r.resultChan)
	gvSet("c10.ec", 0, r.errChan)
	rc, ec := gvInj[any]("ch", r.resultChan), gvInj[any]("ch", r.errChan)
	gvAssume(rc != ec)
	gvSet("c10.sent", rc, 0)
	gvSet("c10.sent", ec, 0)
	gvSet("c10.closed", rc, 0)
	gvSet("c10.closed", ec, 0)
	i.cancelAllInvokes()
	gvJoin()
	gvCheck("the-call-gets-one-error", gvGet[int]("c10.sent", ec) == 1)
	gvCheck("the-call-gets-one-error", gvGet[any]("c10.v", ec) != nil)
	gvCheck("the-call-gets-no-value", gvGet[int]("c10.sent", rc) == 0)
	gvCheck("the-channels-of-the-call-are-closed-once", gvAnd(gvGet[int]("c10.closed", rc) == 1, gvGet[int]("c10.closed", ec) == 1))
	gvCover("returns")
}
