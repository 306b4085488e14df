package signalr

import (
	"io"
	"reflect"
)

// C06: each blocking invocation gets exactly one completion, non-blocking ones none.
//
// Ghost state of one invocation: a.n completions, a.items stream items, a.starts started streams, a.calls method calls.

func c06inc(name string) { gvSet(name, 0, gvGet[int](name, 0)+1) }

//govc:model (Party).getMethodNameByAlternateName
func c06alt__inv(p Party, name string) string { return gvAny[string]() }

//govc:model (Party).invocationTarget
func c06target__inv(p Party, hc HubConnection) interface{} { return gvAny[any]() }

//govc:model (Party).enableDetailedErrors
func c06details__inv(p Party) bool {
	if gvFork(2) == 1 {
		gvSet("a.details", 0, true)
	}
	return gvGet[bool]("a.details", 0)
}

//govc:model getMethod
func c06getMethod__inv(target interface{}, name string) (reflect.Value, bool) {
	return gvAny[reflect.Value](), gvAny[bool]()
}

//govc:model buildMethodArguments
func c06args__inv(method reflect.Value, m invocationMessage, c *streamClient, p hubProtocol) ([]reflect.Value, error) {
	if gvFork(2) == 0 {
		return gvAny[[]reflect.Value](), nil
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvAssume(err.Error() != "")
	return gvAny[[]reflect.Value](), err
}

// A hub method may panic with any value or return any results its type allows.
//
//govc:model (reflect.Value).Call|(reflect.Value).CallSlice
func c06call__inv(f reflect.Value, in []reflect.Value) []reflect.Value {
	c06inc("a.calls")
	if gvFork(2) == 1 {
		gvSet("a.panicked", 0, true)
		p := gvAny[any]()
		gvAssume(p != nil)
		panic(p)
	}
	r := gvAny[[]reflect.Value]()
	gvAssume(gvAnd(len(r) == f.Type().NumOut(), len(r) < 1000))
	gvSet("a.results", 0, r)
	return r
}

//govc:model (reflect.Value).Recv
func c06recv__inv(c reflect.Value) (reflect.Value, bool) {
	gvCheck("receives-only-from-the-returned-channel", gvSame(c, gvGet[[]reflect.Value]("a.results", 0)[0]))
	gvCheck("never-receives-from-what-can-not-be-received-from", gvAnd(c.Kind() == reflect.Chan, c.Type().ChanDir() != reflect.SendDir))
	c06inc("a.recvs")
	if gvFork(2) == 1 {
		gvSet("a.closed", 0, true)
		return reflect.Value{}, false
	}
	v := gvAny[reflect.Value]()
	gvSet("a.recvd", 0, v)
	return v, true
}

//govc:model (*streamer).Start
func c06start__inv(s *streamer, id string, c reflect.Value) {
	c06inc("a.starts")
	gvCheck("stream-has-the-id", id == gvGet[invocationMessage]("a.m", 0).InvocationID)
	gvCheck("streams-the-returned-channel", gvSame(c, gvGet[[]reflect.Value]("a.results", 0)[0]))
	gvCheck("never-receives-from-what-can-not-be-received-from", gvAnd(c.Kind() == reflect.Chan, c.Type().ChanDir() != reflect.SendDir))
	gvCheck("own-streamer", s == gvGet[*loop]("a.l", 0).streamer)
}

//govc:model (HubConnection).Completion
func c06completion__inv(h HubConnection, id string, result interface{}, text string) error {
	gvCheck("no-completion-without-id", id != "")
	gvCheck("completion-has-the-id", id == gvGet[invocationMessage]("a.m", 0).InvocationID)
	gvCheck("sent-on-the-own-connection", h == gvGet[*loop]("a.l", 0).hubConn)
	gvCheck("an-error-completion-has-no-result", gvImp(text != "", result == nil))
	gvCheck("stack-only-with-detailed-errors", gvOr(gvGet[bool]("a.details", 0), gvNot(gvMentions(text, "debug.Stack"))))
	if gvGet[bool]("a.panicked", 0) {
		gvCover("panicked")
		// known finding: empty completions follow the error completion
		gvCheck("after-a-panic-only-empty-completions-follow", gvOr(gvGet[int]("a.n", 0) == 0, gvAnd(text == "", result == nil)))
	}
	if gvGet[int]("a.n", 0) == 0 {
		gvSet("a.text", 0, text)
		gvSet("a.result", 0, result)
	}
	c06inc("a.n")
	return gvAny[error]()
}

//govc:model (HubConnection).StreamItem
func c06item__inv(h HubConnection, id string, item interface{}) error {
	gvCheck("no-item-without-id", id != "")
	gvCheck("item-has-the-id", id == gvGet[invocationMessage]("a.m", 0).InvocationID)
	gvCheck("sent-on-the-own-connection", h == gvGet[*loop]("a.l", 0).hubConn)
	gvCheck("no-item-after-the-completion", gvGet[int]("a.n", 0) == 0)
	gvSet("a.item", 0, item)
	c06inc("a.items")
	return gvAny[error]()
}

//govc:inv
func inv_c06values(r []reflect.Value, values []interface{}, i, every int) bool {
	return gvImp(gvAnd(0 <= every, every < i), gvElem(values, every) == gvElem(r, every).Interface())
}

//govc:inv
func inv_c06valuesTo(r []reflect.Value, values []interface{}, i, every int) bool {
	return gvImp(gvAnd(0 <= every, every <= i), gvElem(values, every) == gvElem(r, every).Interface())
}

func c06loop() *loop {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.info != nil, l.dbg != nil)))
	gvAssume(gvAnd(gvAnd(l.streamer != nil, l.streamClient != nil), gvAnd(l.invokeClient != nil, l.protocol != nil)))
	gvSet("a.l", 0, l)
	gvSet("a.n", 0, 0)
	gvSet("a.items", 0, 0)
	gvSet("a.starts", 0, 0)
	gvSet("a.calls", 0, 0)
	gvSet("a.recvs", 0, 0)
	gvSet("a.panicked", 0, false)
	gvSet("a.closed", 0, false)
	gvSet("a.details", 0, false)
	return l
}

func c06value(want interface{}) {
	gvCheck("a-successful-call-is-answered-once", gvGet[int]("a.n", 0) == 1)
	gvCheck("the-answer-is-no-error", gvGet[string]("a.text", 0) == "")
	gvCheck("the-answer-carries-the-returned-value", gvSame[any](gvGet[any]("a.result", 0), want))
}

func c06error() {
	gvCheck("answered-once-with-an-error", gvGet[int]("a.n", 0) == 1)
	gvCheck("the-error-has-a-text", gvGet[string]("a.text", 0) != "")
}

//govc:task C06 every-invocation-is-answered-once mode=inv panics
func c06Handle() {
	l := c06loop()
	m := gvAny[invocationMessage]()
	gvAssume(gvOr(m.Type == 1, m.Type == 4)) // what the protocols deliver as invocation
	gvSet("a.m", 0, m)
	l.handleInvocationMessage(m)
	gvJoin()
	n, items, starts := gvGet[int]("a.n", 0), gvGet[int]("a.items", 0), gvGet[int]("a.starts", 0)
	calls := gvGet[int]("a.calls", 0)
	gvCheck("called-at-most-once", calls <= 1)
	if m.InvocationID == "" {
		gvCheck("a-non-blocking-invocation-is-not-answered", gvAnd(gvAnd(n == 0, items == 0), starts == 0))
		gvCover("non blocking")
		return
	}
	if calls == 0 {
		c06error()
		gvCheck("nothing-else-is-sent", gvAnd(items == 0, starts == 0))
		gvCover("rejected")
		return
	}
	if gvGet[bool]("a.panicked", 0) {
		gvCheck("a-panic-is-answered", n >= 1)
		gvCheck("a-panic-is-answered-with-an-error-first", gvGet[string]("a.text", 0) != "")
		gvCheck("no-stream-after-a-panic", gvAnd(starts == 0, items == 0))
		gvCheck("after-a-panic-at-most-the-known-completions-follow", gvOr(n <= 2, gvAnd(n == 3, m.Type == 4)))
		gvCheck("a-panic-is-answered-only-once", n == 1)
		return
	}
	r := gvGet[[]reflect.Value]("a.results", 0)
	if len(r) == 1 && r[0].Kind() == reflect.Chan {
		if m.Type == 4 {
			if starts == 1 {
				gvCheck("the-stream-completes-itself", gvAnd(n == 0, items == 0))
				gvCover("stream")
			} else {
				gvCheck("a-channel-result-is-streamed", r[0].Type().ChanDir() == reflect.SendDir)
				c06error()
				gvCover("bad channel")
			}
			return
		}
		gvCheck("nothing-else-is-sent", gvAnd(items == 0, starts == 0))
		if gvGet[int]("a.recvs", 0) == 0 {
			gvCheck("a-channel-result-is-received", r[0].Type().ChanDir() == reflect.SendDir)
			c06error()
			return
		}
		gvCheck("one-value-is-received", gvGet[int]("a.recvs", 0) == 1)
		if gvGet[bool]("a.closed", 0) {
			c06error()
			gvCover("closed channel")
			return
		}
		c06value(gvGet[reflect.Value]("a.recvd", 0).Interface())
		gvCover("value from channel")
		return
	}
	gvCheck("no-stream-without-a-channel", starts == 0)
	if m.Type == 4 {
		gvCheck("the-only-item", items == 1)
		gvCheck("only-single-values-are-streamed", len(r) == 1)
		gvCheck("the-item-is-the-returned-value", gvSame[any](gvGet[any]("a.item", 0), r[0].Interface()))
		c06value(nil)
		gvCover("single item")
		return
	}
	gvCheck("nothing-else-is-sent", items == 0)
	switch len(r) {
	case 0:
		c06value(nil)
		gvCover("no value")
	case 1:
		c06value(r[0].Interface())
		gvCover("one value")
	default:
		gvCheck("a-successful-call-is-answered-once", n == 1)
		gvCheck("the-answer-is-no-error", gvGet[string]("a.text", 0) == "")
		vs, ok := gvGet[any]("a.result", 0).([]interface{})
		gvCheck("the-answer-carries-all-returned-values", gvAnd(ok, len(vs) == len(r)))
		k := gvRigid[int]()
		gvAssume(gvAnd(0 <= k, k < len(r)))
		gvCheck("the-answer-carries-each-returned-value", gvElem(vs, k) == gvElem(r, k).Interface())
		gvCover("several values")
	}
}

var _ io.Reader
