package signalr

import (
	"context"
	"time"
)

// The message loop (loop.Run), shared by C10 (mode life) and C13 (mode timers). The goroutine which passes received
// messages on is verified by itself, with the same ghost state: whoever receives a message passes it on or processes it.
//
// Ghost state:
//   run.holding   a message was received and neither passed on nor processed       run.v   that message
//   run.reason    there is a reason to end the loop, run.clean: it is a close message without error
//   run.conn      number of calls of onConnected, run.disc: of onDisconnected
//   run.closes    number of close messages sent, run.text / run.again: the last one
//   run.cancels   calls of cancelAllInvokes

func runCtx() context.Context {
	return gvPure[context.Context]("hubctx", gvGet[*loop]("run.l", 0).hubConn)
}

func runPartyCtx() context.Context {
	return gvPure[context.Context]("partyctx", gvGet[*loop]("run.l", 0).party)
}

func runLoop() *loop {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(l.party != nil, l.hubConn != nil))
	gvAssume(gvAnd(l.invokeClient != nil, gvAnd(l.streamer != nil, l.streamClient != nil)))
	gvAssume(gvAnd(l.info != nil, l.dbg != nil))
	gvAssume(l.closeMessage == nil)
	gvSet("run.l", 0, l)
	gvAssume(gvAnd(runCtx() != nil, runPartyCtx() != nil))
	gvAssume(gvNot(runCtx() == runPartyCtx()))
	gvAssume(l.party.timeout() != l.party.keepAliveInterval()) // tells the two timers apart
	gvSet("run.timers", 0, false)
	gvSet("run.holding", 0, false)
	gvSet("run.reason", 0, false)
	gvSet("run.clean", 0, false)
	gvSet("run.conn", 0, 0)
	gvSet("run.disc", 0, 0)
	gvSet("run.closes", 0, 0)
	gvSet("run.cancels", 0, 0)
	gvSet("run.tick", 0, 0)
	gvSet("run.gone", 0, false)
	gvSet("run.fresh", 0, false)
	gvSet("run.waited", 0, false)
	gvSet("run.restart", 0, false)
	gvSet("ctx.cancelled", runCtx(), false)
	gvSet("ctx.cancelled", runPartyCtx(), false)
	return l
}

func runOwn(h HubConnection) {
	gvCheck("the-own-connection-is-used", h == gvGet[*loop]("run.l", 0).hubConn)
}

func runReason() { gvSet("run.reason", 0, true) }

// ---- the party ----

//govc:model (Party).Context
func runPartyContext__life__timers(p Party) context.Context {
	return gvPure[context.Context]("partyctx", p)
}

//govc:model (Party).onConnected
func runConnected__life__timers(p Party, h HubConnection) {
	runOwn(h)
	gvCheck("connected-once-and-first", gvAnd(gvGet[int]("run.conn", 0) == 0, gvGet[int]("run.disc", 0) == 0))
	gvSet("run.conn", 0, gvGet[int]("run.conn", 0)+1)
}

//govc:model (Party).onDisconnected
func runDisconnected__life__timers(p Party, h HubConnection) {
	runOwn(h)
	gvCheck("disconnected-once", gvAnd(gvGet[int]("run.conn", 0) == 1, gvGet[int]("run.disc", 0) == 0))
	gvSet("run.disc", 0, gvGet[int]("run.disc", 0)+1)
}

//govc:model (Party).allowReconnect
func runReconnect__life__timers(p Party) bool { return gvPure[bool]("reconnect", p) }

//govc:model (Party).timeout
func runTimeout__life__timers(p Party) time.Duration {
	d := gvPure[time.Duration]("timeout", p)
	gvAssume(d > 0)
	return d
}

//govc:model (Party).keepAliveInterval
func runKeepAlive__life__timers(p Party) time.Duration {
	d := gvPure[time.Duration]("keepalive", p)
	gvAssume(d > 0)
	return d
}

// ---- the connection ----

//govc:model (HubConnection).Context
func runContext__life__timers(h HubConnection) context.Context {
	return gvPure[context.Context]("hubctx", h)
}

//govc:model (HubConnection).Receive
func runReceive__life__timers(h HubConnection) <-chan receiveResult {
	runOwn(h)
	ch := gvInj[<-chan receiveResult]("received", h)
	gvAssume(ch != nil)
	return ch
}

//govc:model (HubConnection).Close
func runClose__life__timers(h HubConnection, text string, again bool) error {
	runOwn(h)
	gvSet("run.closes", 0, gvGet[int]("run.closes", 0)+1)
	gvSet("run.text", 0, text)
	gvSet("run.again", 0, again)
	return gvAny[error]()
}

//govc:model (HubConnection).Abort
func runAbort__life__timers(h HubConnection) {
	runOwn(h)
	gvSet("ctx.cancelled", runCtx(), true)
}

// ---- timers: run.d is the interval of the timer with this channel, run.kind tells which of the two it is ----

func runTimerCheck(label string, c bool) {
	if gvGet[bool]("run.timers", 0) {
		gvCheck(label, c)
	}
}

func runTimer(ch <-chan time.Time, d time.Duration) {
	p := gvGet[*loop]("run.l", 0).party
	k := gvInj[any]("ch", ch)
	runTimerCheck("the-intervals-are-the-configured-ones", gvOr(d == p.timeout(), d == p.keepAliveInterval()))
	gvSet("run.d", k, d)
	gvSet("run.kind", k, gvIte(d == p.timeout(), 1, 2))
	if d == p.timeout() {
		gvSet("run.T", 0, k)
		runRestart()
	} else {
		gvSet("run.K", 0, k)
	}
}

//govc:model time.NewTicker
func runNewTicker__life__timers(d time.Duration) *time.Ticker {
	t := &time.Ticker{C: gvInj[<-chan time.Time]("tickchan", new(int))}
	runTimer(t.C, d)
	return t
}

//govc:model time.NewTimer
func runNewTimer__life__timers(d time.Duration) *time.Timer {
	t := &time.Timer{C: gvInj[<-chan time.Time]("tickchan", new(int))}
	runTimer(t.C, d)
	return t
}

//govc:model time.After
func runAfter__life__timers(d time.Duration) <-chan time.Time {
	ch := gvInj[<-chan time.Time]("tickchan", new(int))
	runTimer(ch, d)
	return ch
}

func runReset(ch <-chan time.Time, d time.Duration) {
	k := gvInj[any]("ch", ch)
	gvSet("run.d", k, d)
	if gvGet[int]("run.kind", k) == 1 {
		runTimerCheck("the-intervals-are-the-configured-ones", d == gvGet[*loop]("run.l", 0).party.timeout())
		runRestart()
	} else if gvGet[bool]("run.timers", 0) {
		runSchedule(d)
	}
}

//govc:model (*time.Ticker).Reset
func runTickerReset__life__timers(t *time.Ticker, d time.Duration) { runReset(t.C, d) }

//govc:model (*time.Timer).Reset
func runTimerReset__life__timers(t *time.Timer, d time.Duration) bool {
	runReset(t.C, d)
	return gvAny[bool]()
}

func runRestart() {
	runTimerCheck("only-a-message-restarts-the-timeout", gvOr(gvGet[bool]("run.fresh", 0), gvNot(gvGet[bool]("run.waited", 0))))
	gvSet("run.restart", 0, false)
}

// runSchedule: without ping the next check is due when the rest of the interval is over. The code has looked at the clock
// at some time after the check started.
func runSchedule(d time.Duration) {
	k := gvGet[*loop]("run.l", 0).party.keepAliveInterval()
	stamp := gvGet[time.Time]("run.stamp", 0)
	t0, t1 := gvGet[time.Time]("run.t0", 0), time.Now()
	in := gvAnd(d >= k-t1.Sub(stamp), d <= k-t0.Sub(stamp))
	gvSet("run.sched", 0, gvAnd(gvAnd(gvGet[bool]("run.check", 0), gvGet[bool]("run.asked", 0)), gvAnd(d > 0, in)))
}
