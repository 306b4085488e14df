package signalr

import (
	"reflect"
	"time"
)

// C18: uploaded stream items reach exactly their stream's channel, in order.
//
// The bound channels are c.upstreamChannels; other goroutines may change the table whenever c.mx is free (interfere).
// Lock invariant: a bound channel is open and bound to one id only.
// Ghost state: up.n(ch) values sent to ch, up.v(ch) the last one, up.closes(ch).

//govc:guarded streamClient.mx f:streamClient.upstreamChannels f:streamClient.runningStreams

func c18ent(c *streamClient, id string) (reflect.Value, bool) {
	r, ok := c.upstreamChannels[id]
	return r, ok
}

//govc:hook onlock streamClient.mx
func on_c18lock__up(c *streamClient) {
	id, k := gvGet[string]("c18.id", 0), gvGet[string]("c18.k", 0)
	gvAssume(c.upstreamChannels != nil)
	gvAssume(c.runningStreams != nil)
	r, ok := c18ent(c, id)
	rk, okk := c18ent(c, k)
	gvAssume(gvImp(gvAnd(ok, okk), gvNot(gvSame(r, rk))))
	gvAssume(gvImp(ok, gvGet[int]("up.closes", r) == 0))
	gvAssume(gvImp(okk, gvGet[int]("up.closes", rk) == 0))
	if gvGet[int]("c18.locks", 0) == 0 {
		gvSet("c18.ent", 0, r)
		gvSet("c18.has", 0, ok)
		gvSet("up.n", r, 0)
		gvAssume(gvImp(gvGet[bool]("c18.pull", 0), gvNot(ok)))
	} else {
		// the channel of an id is only ever removed by others, never replaced
		gvAssume(gvImp(ok, gvSame(r, gvGet[reflect.Value]("c18.ent", 0))))
		gvAssume(gvImp(ok, gvGet[bool]("c18.is", 0)))
		gvAssume(gvImp(okk, gvNot(gvSame(rk, gvGet[reflect.Value]("c18.ent", 0)))))
	}
	gvAssume(gvImp(okk, gvGet[int]("up.n", rk) == 0))
	gvSet("c18.locks", 0, gvGet[int]("c18.locks", 0)+1)
	gvSet("c18.cur", 0, r)
	gvSet("c18.had", 0, ok)
	gvSet("c18.run", 0, c.runningStreams[id])
	gvSet("c18.entk", 0, rk)
	gvSet("c18.hask", 0, okk)
	gvSet("c18.runk", 0, c.runningStreams[k])
	gvSet("c18.len", 0, len(c.upstreamChannels))
}

//govc:hook onunlock streamClient.mx
func on_c18unlock__up(c *streamClient) {
	id, k := gvGet[string]("c18.id", 0), gvGet[string]("c18.k", 0)
	gvCheck("tables-exist", gvAnd(c.upstreamChannels != nil, c.runningStreams != nil))
	r, ok := c18ent(c, id)
	rk, okk := c18ent(c, k)
	e := gvGet[reflect.Value]("c18.entk", 0)
	gvCheck("other-streams-stay-bound", gvIff(okk, gvGet[bool]("c18.hask", 0)))
	gvCheck("other-streams-keep-their-channel", gvImp(okk, gvSame(rk, e)))
	gvCheck("other-streams-stay-marked", gvIff(c.runningStreams[k], gvGet[bool]("c18.runk", 0)))
	gvCheck("other-streams-stay-open", gvImp(okk, gvGet[int]("up.closes", e) == 0))
	gvCheck("other-streams-get-nothing", gvImp(okk, gvGet[int]("up.n", e) == 0))
	gvCheck("a-bound-channel-is-open", gvImp(ok, gvGet[int]("up.closes", r) == 0))
	had, old := gvGet[bool]("c18.had", 0), gvGet[reflect.Value]("c18.cur", 0)
	gvCheck("a-running-stream-keeps-its-channel", gvImp(gvAnd(had, ok), gvSame(r, old)))
	gvCheck("a-forgotten-channel-is-closed-once", gvImp(gvAnd(had, gvNot(ok)), gvGet[int]("up.closes", old) == 1))
	gvSet("c18.now", 0, r)
	gvSet("c18.is", 0, ok)
	gvSet("c18.isrun", 0, c.runningStreams[id])
}

//govc:model (reflect.Value).Send
func c18send__up__save(ch reflect.Value, v reflect.Value) {
	if gvFork(2) == 1 {
		// closed meanwhile
		gvSet("up.refused", 0, true)
		p := gvAny[any]()
		gvAssume(p != nil)
		panic(p)
	}
	gvSet("up.n", ch, gvGet[int]("up.n", ch)+1)
	gvSet("up.v", ch, v)
	gvSet("up.total", 0, gvGet[int]("up.total", 0)+1)
}

//govc:model (reflect.Value).Close
func c18close__up(ch reflect.Value) {
	gvCheck("no-channel-is-closed-twice", gvGet[int]("up.closes", ch) == 0)
	gvSet("up.closes", ch, gvGet[int]("up.closes", ch)+1)
	gvSet("up.closed", 0, gvGet[int]("up.closed", 0)+1)
}

//govc:model reflect.MakeChan
func c18make__up(t reflect.Type, n int) reflect.Value {
	v := gvInj[reflect.Value]("rv.chan", new(int))
	gvSet("up.closes", v, 0)
	gvSet("up.n", v, 0)
	gvSet("up.type", v, t)
	gvSet("up.cap", v, n)
	return v
}

//govc:model reflect.New
func c18new__up(t reflect.Type) reflect.Value {
	v := gvInj[reflect.Value]("rv.new", new(int))
	gvSet("new.type", v, t)
	gvSet("new.last", 0, v)
	return v
}

//govc:model (hubProtocol).UnmarshalArgument
func c18unmarshal__up(p hubProtocol, src any, dst any) error {
	c := gvGet[*streamClient]("c18.c", 0)
	gvCheck("decoded-by-the-own-protocol", p == c.protocol)
	gvCheck("decodes-the-item", gvSame(src, gvGet[any]("c18.item", 0)))
	n := gvGet[reflect.Value]("new.last", 0)
	gvCheck("decodes-into-a-new-value", gvSame(dst, n.Interface()))
	gvCheck("decodes-to-the-type-of-the-channel", gvGet[reflect.Type]("new.type", n) == gvGet[reflect.Value]("c18.ent", 0).Type().Elem())
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c18.failed", 0, true)
		return err
	}
	gvSet("c18.decoded", 0, n.Elem())
	return nil
}

//govc:model (*invokeClient).receiveCompletionItem
func c18invRecv__up(i *invokeClient, m completionMessage) error {
	gvCheck("the-error-is-for-the-own-call", gvAnd(i == gvGet[*invokeClient]("c18.inv", 0), gvSame(m, gvGet[completionMessage]("c18.m", 0))))
	gvSet("c18.errors", 0, gvGet[int]("c18.errors", 0)+1)
	err := gvAny[error]()
	gvSet("c18.err", 0, err)
	return err
}

//govc:model (*invokeClient).deleteInvocation
func c18invDel__up(i *invokeClient, id string) {
	gvCheck("the-own-call-is-forgotten", gvAnd(i == gvGet[*invokeClient]("c18.inv", 0), id == gvGet[string]("c18.id", 0)))
	gvSet("c18.deleted", 0, gvGet[int]("c18.deleted", 0)+1)
}

func c18client() (*streamClient, string) {
	c := gvAny[*streamClient]()
	gvAssume(c != nil)
	gvAssume(c.protocol != nil)
	id, k := gvAny[string](), gvRigid[string]()
	gvAssume(k != id)
	gvSet("c18.c", 0, c)
	gvSet("c18.id", 0, id)
	gvSet("c18.k", 0, k)
	gvSet("c18.locks", 0, 0)
	gvSet("c18.pull", 0, false)
	gvSet("up.total", 0, 0)
	gvSet("up.closed", 0, 0)
	gvSet("up.refused", 0, false)
	gvSet("c18.failed", 0, false)
	gvSet("c18.errors", 0, 0)
	gvSet("c18.deleted", 0, 0)
	return c, id
}

//govc:task C18 an-item-reaches-its-channel-once mode=up interfere panics
func c18Item() {
	c, id := c18client()
	m := gvAny[streamItemMessage]()
	gvAssume(m.InvocationID == id)
	gvSet("c18.item", 0, m.Item)
	err := c.receiveStreamItem(m)
	ch, n := gvGet[reflect.Value]("c18.ent", 0), gvGet[int]("up.total", 0)
	if !gvGet[bool]("c18.has", 0) {
		gvCheck("an-unknown-stream-is-an-error", err != nil)
		gvCheck("nothing-is-delivered", n == 0)
		gvCover("unknown")
		return
	}
	gvCheck("delivered-at-most-once", n <= 1)
	gvCheck("delivered-to-its-channel-only", n == gvGet[int]("up.n", ch))
	if err == nil {
		gvCheck("success-means-delivered", n == 1)
		gvCheck("the-decoded-item-is-delivered", gvSame(gvGet[reflect.Value]("up.v", ch), gvGet[reflect.Value]("c18.decoded", 0)))
		gvCheck("the-stream-is-marked-running", gvGet[bool]("c18.isrun", 0))
		gvCover("delivered")
	}
	gvCheck("what-cannot-be-decoded-is-not-delivered", gvImp(gvGet[bool]("c18.failed", 0), gvAnd(n == 0, err != nil)))
	if n == 0 {
		gvCheck("not-delivered-is-an-error", err != nil)
	}
	_, timedOut := err.(*hubChanTimeoutError)
	gvCheck("an-error-has-a-reason", gvOr(err == nil, gvOr(timedOut, gvOr(gvGet[bool]("c18.failed", 0), gvGet[bool]("up.refused", 0)))))
	gvCheck("the-stream-stays-bound", gvAnd(gvGet[bool]("c18.is", 0), gvSame(gvGet[reflect.Value]("c18.now", 0), ch)))
	gvCheck("nothing-is-closed", gvGet[int]("up.closed", 0) == 0)
	gvCover("returns")
}

// A slow receiver: the value is sent by a goroutine that runs at any time.
//
//govc:task C18 a-value-is-sent-once-or-times-out mode=save spawn=any panics
func c18Save() {
	c := gvAny[*streamClient]()
	gvAssume(c != nil)
	ch, v := gvAny[reflect.Value](), gvAny[reflect.Value]()
	gvSet("up.n", ch, 0)
	gvSet("up.total", 0, 0)
	gvSet("up.refused", 0, false)
	err := c.sendChanValSave(ch, v)
	if err == nil {
		gvCheck("success-means-sent", gvGet[int]("up.n", ch) == 1)
		gvCover("sent")
	} else {
		gvCover("failed")
	}
	_, timedOut := err.(*hubChanTimeoutError)
	gvCheck("an-error-has-a-reason", gvOr(err == nil, gvOr(timedOut, gvGet[bool]("up.refused", 0))))
	gvJoin()
	gvCheck("sent-at-most-once", gvGet[int]("up.total", 0) <= 1)
	gvCheck("sent-unless-the-channel-was-closed", gvOr(gvGet[bool]("up.refused", 0), gvGet[int]("up.n", ch) == 1))
	gvCheck("the-value-is-sent", gvImp(gvGet[int]("up.n", ch) == 1, gvSame(gvGet[reflect.Value]("up.v", ch), v)))
	gvCover("returns")
}

//govc:task C18 an-argument-channel-is-bound-to-its-id mode=up interfere panics
func c18Argument() {
	c, id := c18client()
	m, t, n := gvAny[invocationMessage](), gvAny[reflect.Type](), gvAny[int]()
	gvAssume(t != nil)
	gvAssume(n >= 0)
	in := n < len(m.StreamIds)
	if in {
		gvAssume(m.StreamIds[n] == id)
	}
	isChan := gvAnd(t.Kind() == reflect.Chan, t.ChanDir() != reflect.SendDir)
	arg, ok, err := c.buildChannelArgument(m, t, n)
	gvCheck("channels-that-can-be-received-from-are-streams", gvIff(ok, isChan))
	had, is := gvGet[bool]("c18.had", 0), gvGet[bool]("c18.is", 0)
	max, count := c.maxConcurrentStreams, gvGet[int]("c18.len", 0)
	gvCheck("nothing-is-sent-or-closed", gvAnd(gvGet[int]("up.total", 0) == 0, gvGet[int]("up.closed", 0) == 0))
	if ok && err == nil {
		gvCheck("there-is-an-id-for-the-channel", in)
		gvCheck("the-channel-is-bound", gvAnd(is, gvSame(gvGet[reflect.Value]("c18.now", 0), arg)))
		gvCheck("the-channel-is-new", gvNot(had))
		gvCheck("the-channel-has-the-element-type", gvSame(gvGet[reflect.Type]("up.type", arg), reflect.ChanOf(reflect.BothDir, t.Elem())))
		gvCheck("the-channel-has-the-configured-capacity", gvGet[int]("up.cap", arg) == int(c.streamBufferCapacity))
		gvCheck("within-the-limit", gvOr(max == 0, uint(count) < max))
		gvCover("bound")
		return
	}
	gvCheck("nothing-is-bound", gvImp(in, gvIff(is, had)))
	gvCheck("only-channels-are-refused", gvImp(err != nil, ok))
	gvCheck("a-refusal-has-a-reason", gvImp(err != nil, gvOr(gvNot(in), gvOr(had, gvAnd(max > 0, uint(count) >= max)))))
	gvCover("not bound")
}

//govc:task C18 a-pulled-stream-gets-a-new-channel mode=up interfere panics
func c18Pull() {
	c, id := c18client()
	gvAssume(c.streamBufferCapacity < 1<<40)
	gvSet("c18.pull", 0, true) // ids are unique (C11)
	ch := c.newUpstreamChannel(id)
	gvAssume(gvGet[int]("c18.locks", 0) == 1)
	bound, isChan := gvGet[reflect.Value]("c18.now", 0).Interface().(chan interface{})
	gvCheck("the-channel-is-bound", gvAnd(gvAnd(gvGet[bool]("c18.is", 0), isChan), gvInj[any]("ch", bound) == gvInj[any]("ch", ch)))
	gvCheck("the-channel-is-new", gvAllocated(bound))
	gvCheck("the-channel-has-the-configured-capacity", cap(bound) == int(c.streamBufferCapacity))
	gvCheck("the-channel-is-empty-and-open", gvAnd(gvQueued(bound) == 0, gvNot(gvClosed(bound))))
	gvCover("returns")
}

//govc:task C18 a-completion-ends-its-stream-once mode=up interfere panics
func c18Complete() {
	c, id := c18client()
	m, inv := gvAny[completionMessage](), gvAny[*invokeClient]()
	gvAssume(inv != nil)
	gvAssume(m.InvocationID == id)
	gvSet("c18.m", 0, m)
	gvSet("c18.item", 0, m.Result)
	gvSet("c18.inv", 0, inv)
	err := c.receiveCompletionItem(m, inv)
	ch, n := gvGet[reflect.Value]("c18.ent", 0), gvGet[int]("up.total", 0)
	if !gvGet[bool]("c18.has", 0) {
		gvCheck("an-unknown-stream-is-an-error", err != nil)
		gvCheck("nothing-is-delivered", gvAnd(n == 0, gvGet[int]("up.closed", 0) == 0))
		gvCover("unknown")
		return
	}
	gvCheck("the-stream-is-forgotten", gvAnd(gvNot(gvGet[bool]("c18.is", 0)), gvNot(gvGet[bool]("c18.isrun", 0))))
	gvCheck("at-most-one-channel-is-closed", gvGet[int]("up.closed", 0) <= 1)
	gvCheck("only-its-channel-is-closed", gvGet[int]("up.closes", ch) == gvGet[int]("up.closed", 0))
	gvCheck("its-call-is-forgotten-once", gvGet[int]("c18.deleted", 0) == 1)
	gvCheck("delivered-at-most-once", n <= 1)
	gvCheck("delivered-to-its-channel-only", n == gvGet[int]("up.n", ch))
	if m.Error != "" {
		gvCheck("an-error-reaches-the-call", gvGet[int]("c18.errors", 0) == 1)
		gvCheck("an-error-delivers-no-item", n == 0)
		gvCheck("the-error-result-is-returned", gvSame(err, gvGet[error]("c18.err", 0)))
		gvCover("error")
		return
	}
	gvCheck("no-error-without-error", gvGet[int]("c18.errors", 0) == 0)
	if m.Result == nil {
		gvCheck("an-empty-completion-delivers-nothing", n == 0)
		gvCheck("an-empty-completion-succeeds", err == nil)
		gvCover("empty")
		return
	}
	gvCheck("a-result-is-delivered-or-an-error", gvImp(err == nil, n == 1))
	gvCheck("what-cannot-be-decoded-is-not-delivered", gvImp(gvGet[bool]("c18.failed", 0), gvAnd(n == 0, err != nil)))
	gvCheck("the-result-is-delivered", gvImp(n == 1, gvSame(gvGet[reflect.Value]("up.v", ch), gvGet[reflect.Value]("c18.decoded", 0))))
	gvCover("result")
}

//govc:task C18 handles-exactly-the-bound-streams mode=up interfere panics
func c18Handles() {
	c, id := c18client()
	h := c.handlesInvocationID(id)
	gvCheck("handles-means-bound", gvIff(h, gvGet[bool]("c18.had", 0)))
	gvCheck("asking-changes-nothing", gvIff(gvGet[bool]("c18.is", 0), gvGet[bool]("c18.had", 0)))
	gvCover("returns")
}

//govc:task C18 deleting-closes-one-stream mode=up interfere panics
func c18Delete() {
	c, id := c18client()
	c.deleteUpstreamChannel(id)
	gvCheck("the-stream-is-forgotten", gvNot(gvGet[bool]("c18.is", 0)))
	gvCheck("its-channel-is-closed", gvImp(gvGet[bool]("c18.has", 0), gvGet[int]("up.closes", gvGet[reflect.Value]("c18.ent", 0)) == 1))
	gvCheck("nothing-else-is-closed", gvGet[int]("up.closed", 0) <= 1)
	gvCover("returns")
}

//govc:task C18 a-new-client-has-no-streams panics
func c18New() {
	p, d := gvAny[hubProtocol](), gvAny[time.Duration]()
	n, max := gvAny[uint](), gvAny[uint]()
	c := newStreamClient(p, d, n, max)
	k := gvRigid[string]()
	_, ok := c18ent(c, k)
	gvCheck("no-stream-is-bound", gvAnd(gvNot(ok), gvNot(c.runningStreams[k])))
	gvCheck("tables-exist", gvAnd(c.upstreamChannels != nil, c.runningStreams != nil))
	gvCheck("settings-are-used", gvAnd(gvAnd(c.chanReceiveTimeout == d, c.streamBufferCapacity == n), gvAnd(c.maxConcurrentStreams == max, gvSame(c.protocol, p))))
	gvCover("returns")
}

// ---- dispatch ----

//govc:model (*streamClient).receiveStreamItem
func c18recvItem__disp(c *streamClient, m streamItemMessage) error {
	gvCheck("the-received-item-is-handled", gvAnd(c == gvGet[*streamClient]("c18.c", 0), gvSame(m, gvGet[streamItemMessage]("c18.m", 0))))
	gvSet("c18.handled", 0, gvGet[int]("c18.handled", 0)+1)
	switch gvFork(3) {
	case 0:
		gvSet("c18.how", 0, 0)
		return nil
	case 1:
		gvSet("c18.how", 0, 1)
		err := &hubChanTimeoutError{gvAny[string]()}
		gvAssume(err.msg != "")
		return err
	}
	gvSet("c18.how", 0, 2)
	err := gvAny[error]()
	gvAssume(err != nil)
	_, timedOut := err.(*hubChanTimeoutError)
	gvAssume(gvNot(timedOut))
	gvSet("c18.err", 0, err)
	return err
}

//govc:model (HubConnection).Completion
func c18completion__disp(h HubConnection, id string, v any, text string) error {
	gvCheck("only-a-timeout-is-answered", gvGet[int]("c18.how", 0) == 1)
	gvCheck("the-answer-names-the-stream", id == gvGet[streamItemMessage]("c18.m", 0).InvocationID)
	gvCheck("the-answer-is-an-error", gvAnd(v == nil, text != ""))
	gvSet("c18.answers", 0, gvGet[int]("c18.answers", 0)+1)
	return gvAny[error]()
}

//govc:task C18 a-received-item-is-handled-once mode=disp panics
func c18Dispatch() {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(l.streamClient != nil, gvAnd(l.hubConn != nil, gvAnd(l.dbg != nil, l.info != nil))))
	m := gvAny[streamItemMessage]()
	gvSet("c18.c", 0, l.streamClient)
	gvSet("c18.m", 0, m)
	gvSet("c18.handled", 0, 0)
	gvSet("c18.answers", 0, 0)
	err := l.handleStreamItemMessage(m)
	gvCheck("handled-once", gvGet[int]("c18.handled", 0) == 1)
	how := gvGet[int]("c18.how", 0)
	gvCheck("a-timeout-is-answered-once", gvGet[int]("c18.answers", 0) == gvIte(how == 1, 1, 0))
	if how == 2 {
		gvCheck("an-unknown-stream-is-an-error", gvSame(err, gvGet[error]("c18.err", 0)))
		gvCover("error")
	} else {
		gvCheck("the-connection-goes-on", err == nil)
		gvCover("handled")
	}
}
