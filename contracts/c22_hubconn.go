package signalr

import (
	"context"
	"io"
	"time"
)

// C22: sending on a hub connection reports failures and stops after cancellation.
//
// Ghost state: w.n counts the messages handed to the protocol, w.msg is the last one, w.err what the protocol answered,
// w.fails counts failures. The connection may be cancelled by anybody at any time (context model in gv_lib.go).

//govc:model (hubProtocol).WriteMessage
func c22write__conn(p hubProtocol, m interface{}, w io.Writer) error {
	c := gvGet[*defaultHubConnection]("c22.c", 0)
	gvCheck("written-to-the-connection", gvAnd(gvSame[any](w, c.connection), p == gvGet[hubProtocol]("c22.p", 0)))
	gvCheck("nothing-is-written-once-the-connection-was-seen-cancelled", gvOr(gvGet[bool]("c22.close", 0), gvNot(gvGet[bool]("c22.dead", 0))))
	gvSet("w.n", 0, gvGet[int]("w.n", 0)+1)
	gvSet("w.msg", 0, m)
	var err error
	if gvFork(2) == 1 {
		err = gvAny[error]()
		gvAssume(err != nil)
	}
	gvSet("w.err", 0, err)
	return err
}

func c22connection() *defaultHubConnection {
	c := gvAny[*defaultHubConnection]()
	gvAssume(c != nil)
	gvAssume(gvAnd(c.ctx != nil, c.protocol != nil))
	gvAssume(gvAnd(c.connection != nil, c.info != nil))
	gvSet("c22.p", 0, c.protocol)
	ctx := c.ctx
	c.cancelFunc = func() { gvSet("ctx.cancelled", ctx, true) }
	dead := gvAny[bool]()
	gvSet("ctx.cancelled", ctx, dead)
	gvSet("c22.dead", 0, dead)
	gvSet("c22.c", 0, c)
	gvSet("c22.close", 0, false)
	gvSet("w.n", 0, 0)
	t0 := time.Now()
	gvSet("c22.t0", 0, t0)
	gvAssume(gvNot(c.lastWriteStamp.After(t0)))
	return c
}

func c22invocation(m interface{}, typ int, id, target string, args []interface{}, streamIds []string) {
	x, ok := m.(invocationMessage)
	gvCheck("an-invocation-is-written", ok)
	gvCheck("message-type-is-right", x.Type == typ)
	gvCheck("id-and-target-are-unchanged", gvAnd(x.InvocationID == id, x.Target == target))
	gvCheck("stream-ids-are-unchanged", gvSame(x.StreamIds, streamIds))
	if len(args) == 0 {
		gvCheck("no-arguments", len(x.Arguments) == 0)
	} else {
		gvCheck("arguments-are-unchanged", gvSame(x.Arguments, args))
	}
}

//govc:task C22 every-send-writes-its-message-once-or-fails mode=conn panics
func c22Send() {
	c := c22connection()
	dead := gvGet[bool]("c22.dead", 0)
	id, target, text := gvAny[string](), gvAny[string](), gvAny[string]()
	args, ids, item := gvAny[[]interface{}](), gvAny[[]string](), gvAny[interface{}]()
	kind := gvFork(6)
	var err error
	var h HubConnection = c
	switch kind {
	case 0:
		err = h.SendInvocation(id, target, args)
	case 1:
		err = h.SendStreamInvocation(id, target, args)
	case 2:
		err = h.SendInvocationWithStreamIds(id, target, args, ids)
	case 3:
		err = h.StreamItem(id, item)
	case 4:
		err = h.Completion(id, item, text)
	case 5:
		err = h.Ping()
	}
	n, m := gvGet[int]("w.n", 0), gvGet[interface{}]("w.msg", 0)
	gvCheck("written-at-most-once", n <= 1)
	gvCheck("success-means-written", gvImp(err == nil, n == 1))
	gvCheck("a-cancelled-connection-refuses", gvImp(dead, gvAnd(err != nil, n == 0)))
	gvCheck("send-is-recorded", gvImp(n == 1, gvNot(h.LastWriteStamp().Before(gvGet[time.Time]("c22.t0", 0)))))
	if n == 1 {
		w := gvGet[error]("w.err", 0)
		gvCheck("a-failed-write-is-reported", gvImp(w != nil, err != nil))
		gvCheck("a-failed-write-cancels-the-connection", gvImp(w != nil, gvGet[bool]("ctx.cancelled", h.Context())))
		gvCheck("failure-means-write-failed-or-cancelled", gvImp(gvAnd(err != nil, w == nil), gvGet[bool]("ctx.cancelled", h.Context())))
		gvCheck("the-write-error-is-returned", gvImp(gvAnd(w != nil, gvNot(gvGet[bool]("c22.other", 0))), gvOr(err == w, gvGet[bool]("ctx.cancelled", h.Context()))))
		switch kind {
		case 0:
			c22invocation(m, 1, id, target, args, nil)
		case 1:
			c22invocation(m, 4, id, target, args, nil)
		case 2:
			c22invocation(m, 1, id, target, args, ids)
		case 3:
			x, ok := m.(streamItemMessage)
			gvCheck("the-item-is-written", gvAnd(ok, x.Type == 2))
			gvCheck("id-and-item-are-unchanged", gvAnd(x.InvocationID == id, gvSame(x.Item, item)))
		case 4:
			x, ok := m.(completionMessage)
			gvCheck("the-completion-is-written", gvAnd(ok, x.Type == 3))
			gvCheck("id-result-and-error-are-unchanged", gvAnd(gvAnd(x.InvocationID == id, gvSame(x.Result, item)), x.Error == text))
		case 5:
			x, ok := m.(hubMessage)
			gvCheck("the-ping-is-written", gvAnd(ok, x.Type == 6))
		}
		gvCover("written")
	}
	if err != nil {
		gvCover("failed")
	}
	gvCover("returns")
}

//govc:task C22 close-writes-a-close-message-and-reports-the-result mode=conn panics
func c22Close() {
	c := c22connection()
	gvSet("c22.close", 0, true)
	text, allow := gvAny[string](), gvAny[bool]()
	err := c.Close(text, allow)
	gvCheck("written-once", gvGet[int]("w.n", 0) == 1)
	gvCheck("the-result-is-returned", gvSame(err, gvGet[error]("w.err", 0)))
	x, ok := gvGet[interface{}]("w.msg", 0).(closeMessage)
	gvCheck("a-close-message-is-written", gvAnd(ok, x.Type == 7))
	gvCheck("text-and-permission-are-unchanged", gvAnd(x.Error == text, gvIff(x.AllowReconnect, allow)))
	gvCover("returns")
}

//govc:model (Connection).Context
func c22connCtx__new(c Connection) context.Context { return gvGet[context.Context]("c22.parent", 0) }

//govc:model (Connection).ConnectionID
func c22connID__new(c Connection) string { return gvGet[string]("c22.id", 0) }

//govc:model (hubProtocol).transferMode
func c22mode__new(p hubProtocol) TransferMode { return gvPure[TransferMode]("transfermode", p) }

//govc:model (ConnectionWithTransferMode).SetTransferMode
func c22setmode__new(c ConnectionWithTransferMode, m TransferMode) {
	gvCheck("transfer-mode-of-the-protocol", m == gvPure[TransferMode]("transfermode", gvGet[hubProtocol]("c22.p", 0)))
	gvSet("c22.modes", 0, gvGet[int]("c22.modes", 0)+1)
}

//govc:task C22 a-new-hub-connection-is-bound-to-its-connection mode=new panics
func c22New() {
	conn, p := gvAny[Connection](), gvAny[hubProtocol]()
	gvAssume(gvAnd(conn != nil, p != nil))
	parent, id := gvAny[context.Context](), gvAny[string]()
	gvAssume(parent != nil)
	gvSet("c22.parent", 0, parent)
	gvSet("c22.id", 0, id)
	gvSet("c22.p", 0, p)
	gvSet("c22.modes", 0, 0)
	h := newHubConnection(conn, p, gvAny[uint](), gvAny[StructuredLogger]())
	c := h.(*defaultHubConnection)
	gvCheck("uses-the-given-connection-and-protocol", gvAnd(gvSame(c.connection, conn), gvSame(c.protocol, p)))
	gvCheck("id-of-the-connection", h.ConnectionID() == id)
	gvCheck("is-cancelled-with-the-connection", gvGet[context.Context]("ctx.parent", h.Context()) == parent)
	gvCheck("has-items", h.Items() != nil)
	gvCheck("items-are-kept", h.Items() == h.Items())
	_, ok := conn.(ConnectionWithTransferMode)
	gvCheck("transfer-mode-is-set", gvImp(ok, gvGet[int]("c22.modes", 0) == 1))
	gvSet("ctx.cancelled", h.Context(), false)
	h.Abort()
	gvCheck("abort-cancels", gvGet[bool]("ctx.cancelled", h.Context()))
	gvCover("returns")
}

//govc:task C22 a-read-or-write-can-be-cancelled mode=rw panics
func c22ReadWrite() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	dead := gvAny[bool]()
	gvSet("ctx.cancelled", ctx, dead)
	gvSet("rw.n", 0, 0)
	gvSet("rw.unblocked", 0, 0)
	n0 := gvAny[int]()
	var err0 error
	if gvFork(2) == 1 {
		err0 = gvAny[error]()
		gvAssume(err0 != nil)
	}
	n, err := ReadWriteWithContext(ctx, func() (int, error) {
		gvSet("rw.n", 0, gvGet[int]("rw.n", 0)+1)
		return n0, err0
	}, func() { gvSet("rw.unblocked", 0, gvGet[int]("rw.unblocked", 0)+1) })
	ran, unblocked := gvGet[int]("rw.n", 0), gvGet[int]("rw.unblocked", 0)
	gvCheck("at-most-one-operation", ran <= 1)
	gvCheck("a-cancelled-operation-is-not-started", gvImp(dead, gvAnd(ran == 0, err != nil)))
	if unblocked == 0 && ran == 1 {
		gvCheck("the-result-is-returned", gvAnd(n == n0, gvSame(err, err0)))
		gvCover("result")
	} else {
		gvCheck("cancellation-is-reported", err != nil)
		gvCheck("only-after-cancellation", gvGet[bool]("ctx.cancelled", ctx))
		gvCheck("an-operation-under-way-is-unblocked-once", unblocked == ran)
		gvCover("cancelled")
	}
	gvCover("returns")
}
