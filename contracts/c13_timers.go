package signalr

import (
	"errors"
	"io"
	"time"
)

// C13: keep-alive pings and receive timeout follow the configured intervals. See gv_run.go for the ghost state.
//
//   run.fresh    a message was received since the last wait    run.restart  the timeout was not restarted since
//   run.check    a keep-alive check is going on                run.t0       when it started
//   run.asked    the time of the last write was asked for      run.stamp    the answer
//   run.pinged   a ping was sent

//govc:model (HubConnection).LastWriteStamp
func c13stamp__timers(h HubConnection) time.Time {
	runOwn(h)
	t := gvAny[time.Time]()
	now := time.Now()
	gvAssume(gvNot(t.After(now)))
	gvSet("run.asked", 0, true)
	gvSet("run.stamp", 0, t)
	return t
}

//govc:model (HubConnection).Ping
func c13ping__timers(h HubConnection) error {
	runOwn(h)
	now := time.Now()
	gvCheck("a-ping-is-sent-by-a-keep-alive-check", gvAnd(gvGet[bool]("run.check", 0), gvNot(gvGet[bool]("run.pinged", 0))))
	gvCheck("no-ping-before-the-keep-alive-interval-has-passed", gvAnd(gvGet[bool]("run.asked", 0), now.Sub(gvGet[time.Time]("run.stamp", 0)) >= gvGet[*loop]("run.l", 0).party.keepAliveInterval()))
	gvSet("run.pinged", 0, true)
	gvCover("ping")
	if gvFork(2) == 1 {
		runReason()
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	return nil
}

// c13scheduled: a keep-alive check has sent a ping or scheduled the next check.
func c13scheduled() bool {
	d := gvGet[time.Duration]("run.d", gvGet[any]("run.K", 0))
	p := gvGet[*loop]("run.l", 0).party
	return gvOr(gvNot(gvGet[bool]("run.check", 0)), gvIte(gvGet[bool]("run.pinged", 0), gvAnd(0 < d, d <= p.keepAliveInterval()), gvGet[bool]("run.sched", 0)))
}

// c13wait: what has to be done when the loop waits again
func c13wait() {
	gvCheck("the-loop-ends-after-a-timeout-or-failed-ping", gvNot(gvGet[bool]("run.reason", 0)))
	gvCheck("every-message-restarts-the-timeout", gvNot(gvGet[bool]("run.restart", 0)))
	gvCheck("a-check-sends-a-ping-or-schedules-the-next-check-for-the-remaining-time", c13scheduled())
	gvSet("run.check", 0, false)
	gvSet("run.fresh", 0, false)
	gvSet("run.waited", 0, true)
}

//govc:hook onrecv receiveResult
func on_c13recv__timers(ch <-chan receiveResult, v receiveResult, ok bool) {
	c13wait()
	gvSet("run.fresh", 0, true)
	gvSet("run.restart", 0, ok)
}

// The goroutine that passes messages on leaves the timers to the loop.
//
//govc:hook onsend receiveResult
func on_c13send__timers(ch chan receiveResult, v receiveResult) {
	gvSet("run.fresh", 0, false)
	gvSet("run.restart", 0, false)
}

//govc:hook onrecv time.Time
func on_c13tick__timers(ch <-chan time.Time, v time.Time, ok bool) {
	c13wait()
	if gvGet[int]("run.kind", gvInj[any]("ch", ch)) == 1 {
		runReason()
		gvSet("run.timeout", 0, true)
		gvCover("timeout")
	} else {
		gvSet("run.check", 0, true)
		gvSet("run.asked", 0, false)
		gvSet("run.pinged", 0, false)
		gvSet("run.sched", 0, false)
		gvSet("run.t0", 0, time.Now())
		gvCover("check")
	}
}

//govc:inv
func inv_c13scheduled() bool { return c13scheduled() }

//govc:inv
func inv_c13restarted() bool {
	return gvAnd(gvNot(gvGet[bool]("run.restart", 0)), gvNot(gvGet[bool]("run.reason", 0)))
}

//govc:inv
func inv_c13timers(t *time.Ticker) bool {
	k := gvInj[any]("ch", t.C)
	return gvOr(gvAnd(gvGet[int]("run.kind", k) == 1, gvGet[any]("run.T", 0) == k), gvAnd(gvGet[int]("run.kind", k) == 2, gvGet[any]("run.K", 0) == k))
}

// ---- the rest of the loop does not matter here ----

//govc:model (*loop).handleInvocationMessage
func c13invocation__timers(l *loop, m invocationMessage) {}

//govc:model (*loop).handleStreamItemMessage
func c13item__timers(l *loop, m streamItemMessage) error { return gvAny[error]() }

//govc:model (*loop).handleCompletionMessage
func c13completion__timers(l *loop, m completionMessage) error { return gvAny[error]() }

//govc:model (*streamer).Stop
func c13stop__timers(s *streamer, id string) {}

//govc:model (*invokeClient).cancelAllInvokes
func c13cancelAll__timers(i *invokeClient) {}

//govc:task C13 pings-and-timeout-follow-the-intervals mode=timers spawn=separate
func c13Run() {
	l := runLoop()
	gvSet("run.timers", 0, true)
	gvSet("run.check", 0, false)
	gvSet("run.pinged", 0, false)
	gvSet("run.timeout", 0, false)
	err := l.Run(make(chan struct{}, 1))
	gvCheck("a-timeout-is-an-error", gvImp(gvGet[bool]("run.timeout", 0), err != nil))
	gvCover("returns")
}

// ---- the configuration ----

//govc:task C13 the-intervals-are-the-configured-ones
func c13Configured() {
	p := gvAny[*partyBase]()
	gvAssume(p != nil)
	d, e := gvAny[time.Duration](), gvAny[time.Duration]()
	p.setTimeout(d)
	p.setKeepAliveInterval(e)
	gvCheck("the-timeout-is-the-configured-one", p.timeout() == d)
	gvCheck("the-keep-alive-interval-is-the-configured-one", p.keepAliveInterval() == e)
	gvCover("returns")
}

//govc:inv
func inv_c13interval() bool {
	d := gvGet[time.Duration]("run.d", gvGet[any]("run.K", 0))
	return gvAnd(0 < d, d <= gvGet[*loop]("run.l", 0).party.keepAliveInterval())
}

// ---- the time of the last write ----

//govc:model (hubProtocol).WriteMessage
func c13write__stamp(p hubProtocol, m interface{}, w io.Writer) error {
	gvSet("stamp.n", 0, gvGet[int]("stamp.n", 0)+1)
	if gvFork(2) == 1 {
		return errStamp
	}
	return nil
}

var errStamp = errors.New("write failed")

//govc:task C13 every-write-is-remembered mode=stamp
func c13Stamp() {
	c := gvAny[*defaultHubConnection]()
	gvAssume(c != nil)
	gvAssume(gvAnd(c.ctx != nil, c.protocol != nil))
	gvAssume(gvAnd(c.connection != nil, c.info != nil))
	ctx := c.ctx
	c.cancelFunc = func() { gvSet("ctx.cancelled", ctx, true) }
	gvSet("ctx.cancelled", ctx, gvAny[bool]())
	gvSet("stamp.n", 0, 0)
	gvSet("stamp.last", 0, c.lastWriteStamp)
	t0 := time.Now()
	gvAssume(gvNot(c.lastWriteStamp.After(t0)))
	var h HubConnection = c
	kind := gvFork(9)
	switch kind {
	case 0:
		_ = h.SendInvocation(gvAny[string](), gvAny[string](), gvAny[[]interface{}]())
	case 1:
		_ = h.SendStreamInvocation(gvAny[string](), gvAny[string](), gvAny[[]interface{}]())
	case 2:
		_ = h.SendInvocationWithStreamIds(gvAny[string](), gvAny[string](), gvAny[[]interface{}](), gvAny[[]string]())
	case 3:
		_ = h.StreamItem(gvAny[string](), gvAny[interface{}]())
	case 4:
		_ = h.Completion(gvAny[string](), gvAny[interface{}](), gvAny[string]())
	case 5:
		_ = h.Ping()
	case 6:
		h.Context()
	case 7:
		h.Items()
	case 8:
		h.ConnectionID()
	}
	s := h.LastWriteStamp()
	gvCheck("reading-the-time-does-not-change-it", h.LastWriteStamp() == s)
	gvCheck("no-time-in-the-future", gvNot(s.After(time.Now())))
	gvCheck("a-write-is-remembered", gvImp(gvGet[int]("stamp.n", 0) > 0, gvNot(s.Before(t0))))
	gvCheck("without-a-write-the-time-stays", gvImp(kind >= 6, s == gvGet[time.Time]("stamp.last", 0)))
	gvCover("returns")
}
