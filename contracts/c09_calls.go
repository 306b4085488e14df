package signalr

import (
	"context"
	"errors"
)

// C09: a completion resolves exactly the call it belongs to, once.
//
// The pending calls are i.resultChans; other goroutines may change them whenever i.mx is free (interfere).
// Lock invariant: registered channels are open, buffered and empty, and no channel is registered twice.
// Ghost state: chan.n(ch) values sent to ch, chan.v(ch) the last one, chan.closes(ch).

//govc:guarded invokeClient.mx f:invokeClient.resultChans
//govc:closed f:invokeClient.resultChans

func c09ent(i *invokeClient, id string) (invocationResultChans, bool) {
	r, ok := i.resultChans[id]
	return r, ok
}

// c09fresh assumes (from the lock invariant) that the channels of an entry are unused.
func c09fresh(r invocationResultChans, ok bool) {
	if ok {
		gvAssume(gvAnd(r.resultChan != nil, r.errChan != nil))
		gvAssume(gvAnd(cap(r.resultChan) >= 1, cap(r.errChan) >= 1))
		gvAssume(!gvSame[any](gvInj[any]("ch", r.resultChan), gvInj[any]("ch", r.errChan)))
		gvSetClosed(r.resultChan, false)
		gvSetClosed(r.errChan, false)
		gvSet("chan.n", gvInj[any]("ch", r.resultChan), 0)
		gvSet("chan.n", gvInj[any]("ch", r.errChan), 0)
		gvSet("chan.closes", gvInj[any]("ch", r.resultChan), 0)
		gvSet("chan.closes", gvInj[any]("ch", r.errChan), 0)
	}
}

func c09dist(a, b invocationResultChans) {
	gvAssume(gvInj[any]("ch", a.resultChan) != gvInj[any]("ch", b.resultChan))
	gvAssume(gvInj[any]("ch", a.resultChan) != gvInj[any]("ch", b.errChan))
	gvAssume(gvInj[any]("ch", a.errChan) != gvInj[any]("ch", b.resultChan))
	gvAssume(gvInj[any]("ch", a.errChan) != gvInj[any]("ch", b.errChan))
}

//govc:hook onlock invokeClient.mx
func on_c09lock__tab(i *invokeClient) {
	id, k := gvGet[string]("c09.id", 0), gvGet[string]("c09.k", 0)
	gvAssume(i.resultChans != nil)
	r, ok := c09ent(i, id)
	rk, okk := c09ent(i, k)
	if gvGet[int]("c09.locks", 0) == 0 {
		c09fresh(r, ok)
		c09fresh(rk, okk)
		if ok && okk {
			c09dist(r, rk)
		}
		gvSet("c09.ent", 0, r)
		gvSet("c09.has", 0, ok)
	}
	gvSet("c09.locks", 0, gvGet[int]("c09.locks", 0)+1)
	gvSet("c09.entk", 0, rk)
	gvSet("c09.hask", 0, okk)
	gvSet("c09.had", 0, ok)
}

//govc:hook onunlock invokeClient.mx
func on_c09unlock__tab(i *invokeClient) {
	k := gvGet[string]("c09.k", 0)
	gvCheck("table-exists", i.resultChans != nil)
	rk, okk := c09ent(i, k)
	gvCheck("other-calls-stay-registered", gvIff(okk, gvGet[bool]("c09.hask", 0)))
	gvCheck("other-calls-keep-their-channels", gvImp(okk, gvSame(rk, gvGet[invocationResultChans]("c09.entk", 0))))
	if gvGet[bool]("c09.hask", 0) {
		e := gvGet[invocationResultChans]("c09.entk", 0)
		gvCheck("other-calls-stay-open", gvAnd(gvNot(gvClosed(e.resultChan)), gvNot(gvClosed(e.errChan))))
	}
}

//govc:hook onsend iface
func on_c09send__tab__spec__res(ch chan any, v any) {
	k := gvInj[any]("ch", ch)
	gvSet("chan.n", k, gvGet[int]("chan.n", k)+1)
	gvSet("chan.v", k, v)
}

//govc:hook onclose iface
func on_c09close__tab__spec(ch chan any) {
	k := gvInj[any]("ch", ch)
	gvSet("chan.closes", k, gvGet[int]("chan.closes", k)+1)
}

// UnmarshalArgument either fails or stores the value the encoded argument stands for.
//
//govc:model (hubProtocol).UnmarshalArgument
func c09Unmarshal(p hubProtocol, src any, dst any) error {
	if gvAny[bool]() {
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	d, ok := dst.(*interface{})
	if ok {
		*d = gvPure[any]("decoded", src)
	}
	return nil
}

func c09client() *invokeClient {
	i := gvAny[*invokeClient]()
	gvAssume(i != nil)
	gvAssume(i.protocol != nil)
	gvSet("c09.k", 0, gvRigid[string]())
	gvSet("c09.locks", 0, 0)
	return i
}

//govc:task C09 new-call-gets-its-own-channels mode=tab interfere panics
func c09New() {
	i := c09client()
	id := gvAny[string]()
	gvSet("c09.id", 0, id)
	k := gvGet[string]("c09.k", 0)
	gvAssume(k != id)
	rc, ec := i.newInvocation(id)
	gvAssume(gvGet[int]("c09.locks", 0) == 1) // further critical sections may see a changed table
	r, ok := c09ent(i, id)
	gvCheck("call-is-registered", ok)
	gvCheck("registered-channels-are-returned", gvAnd(r.resultChan == rc, r.errChan == ec))
	gvCheck("channels-are-new", gvAnd(gvAllocated(rc), gvAllocated(ec)))
	gvCheck("channels-differ", gvInj[any]("ch", rc) != gvInj[any]("ch", ec))
	gvCheck("sending-one-item-never-blocks", gvAnd(cap(rc) >= 1, cap(ec) >= 1))
	gvCheck("channels-are-empty", gvAnd(gvQueued(rc) == 0, gvQueued(ec) == 0))
	gvCheck("channels-are-open", gvAnd(gvNot(gvClosed(rc)), gvNot(gvClosed(ec))))
	gvCover("returns")
}

//govc:task C09 completion-resolves-its-call-once mode=tab interfere panics
func c09Complete() {
	i := c09client()
	m := gvAny[completionMessage]()
	id := m.InvocationID
	gvSet("c09.id", 0, id)
	k := gvGet[string]("c09.k", 0)
	gvAssume(k != id)
	err := i.receiveCompletionItem(m)
	gvJoin()
	ent, has := gvGet[invocationResultChans]("c09.ent", 0), gvGet[bool]("c09.has", 0)
	if !has {
		gvCheck("unknown-id-is-an-error", err != nil)
		gvCover("unknown id")
		return
	}
	r, e := gvInj[any]("ch", ent.resultChan), gvInj[any]("ch", ent.errChan)
	gvCheck("channels-are-closed", gvAnd(gvClosed(ent.resultChan), gvClosed(ent.errChan)))
	gvCheck("channels-are-closed-once", gvAnd(gvGet[int]("chan.closes", r) == 1, gvGet[int]("chan.closes", e) == 1))
	_, still := c09ent(i, id)
	gvCheck("call-is-forgotten", gvNot(still))
	nr, ne := gvGet[int]("chan.n", r), gvGet[int]("chan.n", e)
	if m.Error != "" {
		gvCheck("error-gives-one-error", gvAnd(ne == 1, nr == 0))
		sent := gvGet[error]("chan.v", e)
		gvCheck("error-is-not-nil", sent != nil)
		gvCheck("error-carries-the-text", sent.Error() == m.Error)
		gvCheck("error-completion-is-no-protocol-error", err == nil)
		gvCover("error completion")
		return
	}
	if m.Result != nil {
		if err == nil {
			gvCheck("value-gives-one-result", gvAnd(nr == 1, ne == 0))
			gvCheck("result-carries-the-value", gvGet[any]("chan.v", r) == gvPure[any]("decoded", m.Result))
			gvCover("value completion")
		} else {
			gvCheck("undecodable-value-gives-no-result", nr == 0)
			gvCheck("undecodable-value-gives-at-most-one-error", ne <= 1)
			gvCheck("no-empty-error", gvImp(ne == 1, gvGet[error]("chan.v", e) != nil))
			gvCover("undecodable completion")
		}
		return
	}
	gvCheck("empty-completion-gives-nothing", gvAnd(ne == 0, nr == 0))
	gvCheck("empty-completion-is-no-error", err == nil)
	gvCover("empty completion")
}

//govc:task C09 delete-forgets-one-call mode=tab interfere panics
func c09Delete() {
	i := c09client()
	id := gvAny[string]()
	gvSet("c09.id", 0, id)
	k := gvGet[string]("c09.k", 0)
	gvAssume(k != id)
	i.deleteInvocation(id)
	_, still := c09ent(i, id)
	gvCheck("call-is-forgotten", gvNot(still))
	if gvGet[bool]("c09.has", 0) {
		ent := gvGet[invocationResultChans]("c09.ent", 0)
		gvCheck("channels-are-closed", gvAnd(gvClosed(ent.resultChan), gvClosed(ent.errChan)))
		r, e := gvInj[any]("ch", ent.resultChan), gvInj[any]("ch", ent.errChan)
		gvCheck("nothing-is-sent", gvAnd(gvGet[int]("chan.n", r) == 0, gvGet[int]("chan.n", e) == 0))
		gvCover("pending call")
	}
	gvCover("returns")
}

//govc:task C09 handles-exactly-the-pending-calls mode=tab interfere panics
func c09Handles() {
	i := c09client()
	id := gvAny[string]()
	gvSet("c09.id", 0, id)
	k := gvGet[string]("c09.k", 0)
	gvAssume(k != id)
	h := i.handlesInvocationID(id)
	gvCheck("handles-means-pending", gvIff(h, gvGet[bool]("c09.had", 0)))
	_, now := c09ent(i, id)
	gvCheck("asking-changes-nothing", gvIff(now, gvGet[bool]("c09.had", 0)))
	gvCover("returns")
}

//govc:task C09 end-of-loop-only-drops-calls
func c09CancelAll() {
	i := gvAny[*invokeClient]()
	gvAssume(i != nil)
	i.cancelAllInvokes()
	_, still := c09ent(i, gvRigid[string]())
	gvCheck("call-is-forgotten", gvNot(still))
	gvCover("returns")
}

//govc:task C09 new-client-has-no-calls panics
func c09NewClient() {
	i := newInvokeClient(gvAny[hubProtocol](), 0)
	_, has := c09ent(i, gvRigid[string]())
	gvCheck("no-call-is-pending", gvNot(has))
	gvCheck("table-exists", i.resultChans != nil)
	gvCover("returns")
}

// ---- dispatch ----

//govc:model (*invokeClient).receiveCompletionItem
func c09modelInvRecv__disp(i *invokeClient, m completionMessage) error {
	gvSet("disp.inv", 0, gvGet[int]("disp.inv", 0)+1)
	gvCheck("message-is-passed-unchanged", gvSame(m, gvGet[completionMessage]("disp.msg", 0)))
	gvCheck("own-table-is-asked", i == gvGet[*invokeClient]("disp.invoke", 0))
	err := gvAny[error]()
	gvSet("disp.err", 0, err)
	return err
}

//govc:model (*invokeClient).handlesInvocationID
func c09modelInvHandles__disp(i *invokeClient, id string) bool {
	gvCheck("own-table-is-asked", i == gvGet[*invokeClient]("disp.invoke", 0))
	return gvPure[bool]("pending-call", id)
}

//govc:model (*streamClient).receiveCompletionItem
func c09modelStrRecv__disp(c *streamClient, m completionMessage, i *invokeClient) error {
	gvSet("disp.str", 0, gvGet[int]("disp.str", 0)+1)
	gvCheck("message-is-passed-unchanged", gvSame(m, gvGet[completionMessage]("disp.msg", 0)))
	gvCheck("own-table-is-asked", i == gvGet[*invokeClient]("disp.invoke", 0))
	err := gvAny[error]()
	gvSet("disp.err", 0, err)
	return err
}

//govc:model (*streamClient).handlesInvocationID
func c09modelStrHandles__disp(c *streamClient, id string) bool {
	return gvPure[bool]("open-stream", id)
}

//govc:task C09 completions-are-dispatched-once mode=disp panics
func c09Dispatch() {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.dbg != nil, l.info != nil), gvAnd(l.streamClient != nil, l.invokeClient != nil)))
	m := gvAny[completionMessage]()
	gvSet("disp.msg", 0, m)
	gvSet("disp.invoke", 0, l.invokeClient)
	gvSet("disp.inv", 0, 0)
	gvSet("disp.str", 0, 0)
	gvSet("disp.err", 0, error(nil))
	err := l.handleCompletionMessage(m)
	ni, ns := gvGet[int]("disp.inv", 0), gvGet[int]("disp.str", 0)
	str, inv := gvPure[bool]("open-stream", m.InvocationID), gvPure[bool]("pending-call", m.InvocationID)
	gvCheck("at-most-one-receiver", ni+ns <= 1)
	gvCheck("stream-completion-goes-to-the-stream", gvImp(str, ns == 1))
	gvCheck("call-completion-goes-to-the-call", gvImp(gvAnd(inv, gvNot(str)), ni == 1))
	gvCheck("unknown-id-is-an-error", gvImp(gvAnd(gvNot(inv), gvNot(str)), gvAnd(err != nil, ni+ns == 0)))
	gvCheck("receiver-error-is-returned", gvImp(gvOr(inv, str), gvSame(err, gvGet[error]("disp.err", 0))))
	gvCover("returns")
}

// ---- the caller's side: newInvokeResultChan ----
// Ghost state: ir.pending - an item was received and not yet passed on, ir.rclosed / ir.eclosed - the input was seen closed.

//govc:hook onrecv iface
func on_c09recv__res(ch chan any, v any, ok bool) {
	rc, ec := gvGet[chan any]("ir.rc", 0), gvGet[chan any]("ir.ec", 0)
	if ch != rc && ch != ec {
		gvCheck("only-own-channels-are-read", false)
		return
	}
	gvCheck("ends-when-both-inputs-are-closed", gvNot(gvAnd(gvGet[bool]("ir.rclosed", 0), gvGet[bool]("ir.eclosed", 0))))
	gvCheck("previous-item-was-delivered", gvNot(gvGet[bool]("ir.pending", 0)))
	n := "ir.rclosed"
	if ch == ec {
		n = "ir.eclosed"
	}
	if n == "ir.rclosed" {
		gvAssume(gvImp(ok, gvNot(gvGet[bool]("ir.rclosed", 0))))
		gvSet("ir.rclosed", 0, gvOr(gvGet[bool]("ir.rclosed", 0), gvNot(ok)))
	} else {
		gvAssume(gvImp(ok, gvNot(gvGet[bool]("ir.eclosed", 0))))
		gvAssume(gvImp(ok, v != nil)) // receiveCompletionItem and cancelAllInvokes send errors only
		gvSet("ir.eclosed", 0, gvOr(gvGet[bool]("ir.eclosed", 0), gvNot(ok)))
	}
	if ok {
		gvSet("ir.pending", 0, true)
		gvSet("ir.iserr", 0, ch == ec)
		gvSet("ir.v", 0, v)
	}
}

//govc:hook onsend InvokeResult
func on_c09irsend__res(ch chan InvokeResult, v InvokeResult) {
	gvCheck("only-received-items-are-delivered", gvGet[bool]("ir.pending", 0))
	gvSet("ir.pending", 0, false)
	if gvGet[bool]("ir.iserr", 0) {
		gvCheck("error-is-delivered-as-it-is", gvAnd(v.Value == nil, gvSame[any](v.Error, gvGet[any]("ir.v", 0))))
		gvCover("error delivered")
	} else {
		gvCheck("value-is-delivered-as-it-is", gvAnd(v.Error == nil, gvSame(v.Value, gvGet[any]("ir.v", 0))))
		gvCover("value delivered")
	}
}

//govc:hook onclose InvokeResult
func on_c09irclose__res(ch chan InvokeResult) {
	ctx := gvGet[context.Context]("ir.ctx", 0)
	gvCheck("closed-only-at-the-end", gvOr(gvGet[bool]("ctx.cancelled", ctx), gvAnd(gvGet[bool]("ir.rclosed", 0), gvGet[bool]("ir.eclosed", 0))))
	gvCheck("closed-after-the-last-item", gvNot(gvGet[bool]("ir.pending", 0)))
	gvSet("ir.closed", 0, gvGet[int]("ir.closed", 0)+1)
	gvCover("closed")
}

//govc:inv
func inv_c09flags(a, b bool) bool {
	return gvAnd(gvIff(a, gvGet[bool]("ir.rclosed", 0)), gvIff(b, gvGet[bool]("ir.eclosed", 0)))
}

//govc:inv
func inv_c09nilled(a <-chan any, b <-chan error) bool {
	return gvAnd(gvAnd(gvIff(a == nil, gvGet[bool]("ir.rclosed", 0)), gvIff(b == nil, gvGet[bool]("ir.eclosed", 0))),
		gvAnd(gvImp(a != nil, gvInj[any]("ch", a) == gvInj[any]("ch", gvGet[chan any]("ir.rc", 0))), gvImp(b != nil, gvInj[any]("ch", b) == gvInj[any]("ch", gvGet[chan any]("ir.ec", 0)))))
}

//govc:task C09 results-and-errors-reach-the-caller-once mode=res spawn=late
func c09ResultChan() {
	ctx := gvAny[context.Context]()
	rc, ec := gvAny[chan any](), gvAny[chan error]()
	gvAssume(gvAnd(ctx != nil, gvAnd(rc != nil, ec != nil)))
	gvSet("ir.rc", 0, rc)
	gvSet("ir.ec", 0, ec)
	gvAssume(gvInj[any]("ch", rc) != gvInj[any]("ch", ec))
	gvSet("ir.ctx", 0, ctx)
	gvSet("ir.pending", 0, false)
	gvSet("ir.rclosed", 0, false)
	gvSet("ir.eclosed", 0, false)
	gvSet("ir.closed", 0, 0)
	ch := newInvokeResultChan(ctx, rc, ec)
	gvCheck("result-channel-exists", ch != nil)
	gvJoin()
	gvCheck("closed-once", gvGet[int]("ir.closed", 0) == 1)
	gvCheck("closed", gvClosed(ch))
	gvCover("ends")
}

var _ = errors.New

// ---- the caller's side: Invoke, Send, PullStream, PushStreams ----

//govc:model (*client).waitForConnected
func c09modelWait__call(c *client) <-chan error {
	return gvInj[<-chan error]("connected", c)
}

//govc:model newInvokeResultChan
func c09modelIR__call(ctx context.Context, rc <-chan interface{}, ec <-chan error) <-chan InvokeResult {
	gvSet("call.ir", 0, gvGet[int]("call.ir", 0)+1)
	gvSet("call.rc", 0, rc)
	gvSet("call.ec", 0, ec)
	return gvInj[<-chan InvokeResult]("ir", rc, ec)
}

//govc:model (HubConnection).SendInvocation|(HubConnection).SendStreamInvocation
func c09modelSend__call(h HubConnection, id, target string, args []interface{}) error {
	return c09sent(id, target, args, nil)
}

//govc:model (HubConnection).SendInvocationWithStreamIds
func c09modelSendS__call(h HubConnection, id, target string, args []interface{}, streamIds []string) error {
	return c09sent(id, target, args, streamIds)
}

func c09sent(id, target string, args []interface{}, streamIds []string) error {
	i := gvGet[*invokeClient]("call.i", 0)
	gvCheck("one-request-is-sent", gvGet[int]("call.sent", 0) == 0)
	gvSet("call.sent", 0, gvGet[int]("call.sent", 0)+1)
	gvSet("call.id", 0, id)
	r, ok := c09ent(i, id)
	gvCheck("request-is-registered-before-it-is-sent", ok)
	gvOpen(r.errChan)
	gvOpen(r.resultChan)
	gvSet("call.regec", 0, r.errChan)
	gvSet("call.regrc", 0, r.resultChan)
	gvCheck("target-is-sent-unchanged", target == gvGet[string]("call.method", 0))
	if gvGet[bool]("call.sameargs", 0) {
		gvCheck("arguments-are-sent-unchanged", gvSame(args, gvGet[[]interface{}]("call.args", 0)))
	}
	if gvFork(2) == 0 {
		return nil
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvSet("call.failed", 0, true)
	gvSet("call.err", 0, err)
	return err
}

//govc:hook onrecv InvokeResult
func on_c09callrecv__call(ch chan InvokeResult, v InvokeResult, ok bool) {
	gvCheck("previous-result-was-delivered", gvNot(gvGet[bool]("call.pending", 0)))
	if ok {
		gvSet("call.pending", 0, true)
		gvSet("call.v", 0, v)
	} else {
		gvSet("call.irclosed", 0, true)
	}
}

//govc:hook onrecv iface
func on_c09callrecverr__call(ch chan error, v error, ok bool) {
	if gvInj[any]("ch", ch) == gvInj[any]("ch", gvInj[<-chan error]("connected", gvGet[*client]("call.c", 0))) {
		if ok && v != nil {
			gvSet("call.failed", 0, true)
			gvSet("call.err", 0, v)
		}
		return
	}
	gvCheck("previous-result-was-delivered", gvNot(gvGet[bool]("call.pending", 0)))
	gvCheck("only-own-errors-are-read", gvInj[any]("ch", ch) == gvInj[any]("ch", gvGet[chan error]("call.regec", 0)))
	if ok {
		gvSet("call.pending", 0, true)
		gvSet("call.v", 0, InvokeResult{Error: v})
	} else {
		gvSet("call.irclosed", 0, true)
	}
}

//govc:hook onsend InvokeResult
func on_c09callsend__call(ch chan InvokeResult, v InvokeResult) {
	if gvGet[bool]("call.failed", 0) {
		gvCheck("failure-is-delivered-once", gvGet[int]("call.failures", 0) == 0)
		gvCheck("failure-is-delivered-as-it-is", gvAnd(v.Value == nil, gvSame(v.Error, gvGet[error]("call.err", 0))))
		gvSet("call.failures", 0, gvGet[int]("call.failures", 0)+1)
		return
	}
	gvCheck("only-results-of-this-call-are-delivered", gvGet[bool]("call.pending", 0))
	gvCheck("result-is-delivered-as-it-is", gvSame(v, gvGet[InvokeResult]("call.v", 0)))
	gvSet("call.pending", 0, false)
	gvCover("result delivered")
}

//govc:hook onsend iface
func on_c09callsenderr__call(ch chan error, v error) {
	on_c09callsend__call(nil, InvokeResult{Error: v})
}

//govc:hook onclose InvokeResult
func on_c09callclose__call(ch chan InvokeResult) {
	gvSet("call.closes", 0, gvGet[int]("call.closes", 0)+1)
	gvCheck("closed-after-the-last-result", gvNot(gvGet[bool]("call.pending", 0)))
}

//govc:hook onclose iface
func on_c09callcloseerr__call(ch chan error) {
	if gvInj[any]("ch", ch) == gvInj[any]("ch", gvGet[chan error]("call.out", 0)) {
		on_c09callclose__call(nil)
	}
}

func c09caller() *client {
	c := gvAny[*client]()
	gvAssume(c != nil)
	gvAssume(c.loop != nil)
	gvAssume(c.ctx != nil)
	gvAssume(gvAnd(c.loop.invokeClient != nil, c.loop.hubConn != nil))
	gvAssume(gvAnd(c.loop.streamClient != nil, c.loop.streamer != nil))
	gvAssume(c.loop.invokeClient.resultChans != nil)
	gvSet("call.c", 0, c)
	gvSet("call.i", 0, c.loop.invokeClient)
	gvSet("call.ir", 0, 0)
	gvSet("call.sent", 0, 0)
	gvSet("call.failed", 0, false)
	gvSet("call.failures", 0, 0)
	gvSet("call.pending", 0, false)
	gvSet("call.irclosed", 0, false)
	gvSet("call.closes", 0, 0)
	gvSet("call.sameargs", 0, true)
	k := gvRigid[string]()
	gvSet("call.k", 0, k)
	r, ok := c09ent(c.loop.invokeClient, k)
	gvSet("call.kr", 0, r)
	gvSet("call.kok", 0, ok)
	return c
}

func c09called(c *client, results bool) {
	gvCheck("result-channel-is-closed-once", gvGet[int]("call.closes", 0) == 1)
	sent := gvGet[int]("call.sent", 0) == 1
	failed := gvGet[bool]("call.failed", 0)
	k := gvGet[string]("call.k", 0)
	r, ok := c09ent(c.loop.invokeClient, k)
	gvCheck("other-calls-are-not-touched", gvImp(gvNot(gvAnd(sent, k == gvGet[string]("call.id", 0))),
		gvAnd(gvIff(ok, gvGet[bool]("call.kok", 0)), gvImp(ok, gvSame(r, gvGet[invocationResultChans]("call.kr", 0))))))
	if failed {
		gvCheck("failure-is-delivered", gvGet[int]("call.failures", 0) == 1)
		gvCover("failed")
		if sent {
			_, still := c09ent(c.loop.invokeClient, gvGet[string]("call.id", 0))
			gvCheck("failed-call-is-forgotten", gvNot(still))
		}
		return
	}
	gvCheck("request-was-sent", sent)
	if results {
		gvCheck("own-results-are-delivered", gvAnd(gvGet[int]("call.ir", 0) == 1,
			gvAnd(gvGet[<-chan interface{}]("call.rc", 0) == gvGet[chan interface{}]("call.regrc", 0), gvGet[<-chan error]("call.ec", 0) == gvGet[chan error]("call.regec", 0))))
	}
	gvCover("sent")
}

//govc:task C09 invoke-delivers-its-own-result mode=call spawn=late
func c09Invoke() {
	c := c09caller()
	m, args := gvAny[string](), gvAny[[]interface{}]()
	gvSet("call.method", 0, m)
	gvSet("call.args", 0, args)
	ch := c.Invoke(m, args...)
	gvCheck("result-channel-exists", ch != nil)
	gvJoin()
	c09called(c, true)
	if !gvGet[bool]("call.failed", 0) {
		gvCheck("waits-for-the-completion", gvGet[bool]("call.irclosed", 0))
	}
}

//govc:task C09 send-delivers-its-own-error mode=call spawn=late
func c09Send() {
	c := c09caller()
	m, args := gvAny[string](), gvAny[[]interface{}]()
	gvSet("call.method", 0, m)
	gvSet("call.args", 0, args)
	ch := c.Send(m, args...)
	gvSet("call.out", 0, ch)
	gvJoin()
	c09called(c, false)
	if !gvGet[bool]("call.failed", 0) {
		gvCheck("waits-for-the-completion", gvGet[bool]("call.irclosed", 0))
	}
}
