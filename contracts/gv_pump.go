package signalr

import (
	"context"
	"reflect"
	"sync"
)

// The pump of a stream (streamer.Start) and its cancellation, shared by C07 and C08 (mode pump).
//
// Ghost state of the stream under proof (id pump.id, channel pump.ch, streamer pump.s):
//   pump.pending  a value was received and not sent yet      pump.v     that value
//   pump.items    items sent                                  pump.n     completions sent
//   pump.closed   the channel was closed                      pump.stop  the stream was cancelled (Stop)
//   pump.must     a value was received after the cancellation: only the completion may follow
//   pump.dead     the connection was cancelled before the last receive
//   sm.size       number of remembered cancellations, sm.bad: it exceeded the maximum
// The environment may cancel the stream and the connection whenever the pump receives or sends; the streamer's own
// Stop runs then, so the pump is proved against the code of Stop and not against a description of it.

//govc:guarded streamer.mx f:streamer.running f:streamer.cancelCount
//govc:guarded streamer.mx f:runningStream.count

func pumpEntry(s *streamer, id string) (*runningStream, bool) {
	r, ok := s.running[id]
	return r, ok
}

func pumpCount(r *runningStream, ok bool) int {
	if ok {
		return r.count
	}
	return 0
}

//govc:hook onlock streamer.mx
func on_pumplock__pump(s *streamer) {
	id, k := gvGet[string]("pump.id", 0), gvGet[string]("pump.k", 0)
	r, ok := pumpEntry(s, id)
	rk, okk := pumpEntry(s, k)
	gvAssume(gvImp(ok, r != nil))
	gvAssume(gvImp(okk, rk != nil))
	gvAssume(gvImp(gvAnd(ok, okk), r != rk))
	if ok {
		gvAssume(r.count >= 1)
	}
	if okk {
		gvAssume(rk.count >= 1)
	}
	gvSet("sm.size", 0, gvAny[int]())
	size := gvGet[int]("sm.size", 0)
	gvAssume(gvAnd(size >= 0, size < 1<<40))
	gvAssume(gvOr(s.maxCancels == 0, uint(size) <= s.maxCancels))
	gvAssume(s.cancelCount == int64(size))
	_, remembered := s.cancels.Load(id)
	gvAssume(gvImp(remembered, size >= 1))
	// others touch the entry of this stream never
	gvAssume(gvIff(ok, gvGet[bool]("pump.is", 0)))
	gvAssume(gvImp(ok, gvSame(r, gvGet[*runningStream]("pump.e", 0))))
	if ok {
		gvAssume(r.count == gvGet[int]("pump.count", 0))
	}
	gvSet("pump.hask", 0, okk)
	gvSet("pump.ek", 0, rk)
	gvSet("pump.countk", 0, pumpCount(rk, okk))
}

//govc:hook onunlock streamer.mx
func on_pumpunlock__pump(s *streamer) {
	id, k := gvGet[string]("pump.id", 0), gvGet[string]("pump.k", 0)
	r, ok := pumpEntry(s, id)
	rk, okk := pumpEntry(s, k)
	gvCheck("other-streams-keep-running", gvIff(okk, gvGet[bool]("pump.hask", 0)))
	gvCheck("other-streams-keep-running", gvImp(okk, gvSame(rk, gvGet[*runningStream]("pump.ek", 0))))
	gvCheck("other-streams-keep-running", pumpCount(rk, okk) == gvGet[int]("pump.countk", 0))
	gvCheck("running-streams-are-counted", gvImp(ok, gvAnd(r != nil, r != rk)))
	gvCheck("running-streams-are-counted", gvImp(ok, pumpCount(r, ok) >= 1))
	gvCheck("remembered-cancellations-are-counted", s.cancelCount == int64(gvGet[int]("sm.size", 0)))
	gvSet("pump.is", 0, ok)
	gvSet("pump.e", 0, r)
	gvSet("pump.count", 0, pumpCount(r, ok))
}

func pumpBounded(s *streamer) {
	gvCheck("remembered-cancellations-are-bounded", gvOr(s.maxCancels == 0, uint(gvGet[int]("sm.size", 0)) <= s.maxCancels))
}

//govc:hook onsmstore
func on_pumpstore__pump(m *sync.Map, k any, v any) {
	s := gvGet[*streamer]("pump.s", 0)
	if m == &s.cancels {
		if _, had := m.Load(k); !had {
			gvSet("sm.size", 0, gvGet[int]("sm.size", 0)+1)
			pumpBounded(s)
		}
	}
}

//govc:hook onsmdelete
func on_pumpdelete__pump(m *sync.Map, k any, v any) {
	s := gvGet[*streamer]("pump.s", 0)
	if m == &s.cancels {
		if _, had := m.Load(k); had {
			gvSet("sm.size", 0, gvGet[int]("sm.size", 0)-1)
		}
	}
}

// pumpEvents lets the environment cancel the stream or the connection.
func pumpEvents() {
	s := gvGet[*streamer]("pump.s", 0)
	switch gvFork(3) {
	case 1:
		gvSet("ctx.cancelled", gvGet[context.Context]("pump.ctx", 0), true)
	case 2:
		s.Stop(gvGet[string]("pump.id", 0))
		gvSet("pump.stop", 0, true)
	}
}

//govc:model (reflect.Value).Recv
func pumpRecv__pump(ch reflect.Value) (reflect.Value, bool) {
	gvCheck("the-streamed-channel-is-read", gvSame(ch, gvGet[reflect.Value]("pump.ch", 0)))
	dead := gvGet[bool]("ctx.cancelled", gvGet[context.Context]("pump.ctx", 0))
	gvCheck("every-value-is-sent", gvImp(gvGet[bool]("pump.pending", 0), gvOr(gvGet[bool]("pump.stop", 0), dead)))
	gvCheck("a-cancelled-stream-ends", gvImp(gvGet[bool]("pump.must", 0), dead))
	pumpEvents()
	gvSet("pump.dead", 0, gvGet[bool]("ctx.cancelled", gvGet[context.Context]("pump.ctx", 0)))
	if gvFork(2) == 1 {
		gvSet("pump.closed", 0, true)
		gvSet("pump.pending", 0, false)
		return reflect.Value{}, false
	}
	gvSet("pump.must", 0, gvGet[bool]("pump.stop", 0))
	v := gvAny[reflect.Value]()
	gvSet("pump.v", 0, v)
	gvSet("pump.pending", 0, true)
	return v, true
}

//govc:model (HubConnection).StreamItem
func pumpItem__pump(h HubConnection, id string, item interface{}) error {
	gvCheck("an-item-is-a-received-value", gvAnd(gvGet[bool]("pump.pending", 0), gvSame(item, gvGet[reflect.Value]("pump.v", 0).Interface())))
	gvCheck("an-item-has-the-id-of-its-stream", id == gvGet[string]("pump.id", 0))
	gvCheck("sent-on-the-own-connection", h == gvGet[HubConnection]("pump.conn", 0))
	gvCheck("no-item-after-the-completion", gvGet[int]("pump.n", 0) == 0)
	gvCheck("no-item-after-the-channel-was-closed", gvNot(gvGet[bool]("pump.closed", 0)))
	gvCheck("no-item-after-the-connection-was-cancelled", gvNot(gvGet[bool]("pump.dead", 0)))
	gvCheck("no-further-item-after-the-cancellation", gvNot(gvGet[bool]("pump.must", 0)))
	gvSet("pump.pending", 0, false)
	gvSet("pump.sent", 0, true)
	if gvFork(2) == 1 {
		pumpEvents()
	}
	if gvFork(2) == 1 {
		// a failed send cancels the connection (C22)
		gvSet("ctx.cancelled", gvGet[context.Context]("pump.ctx", 0), true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	return nil
}

//govc:model (HubConnection).Completion
func pumpCompletion__pump(h HubConnection, id string, v interface{}, text string) error {
	gvCheck("a-completion-has-the-id-of-its-stream", id == gvGet[string]("pump.id", 0))
	gvCheck("sent-on-the-own-connection", h == gvGet[HubConnection]("pump.conn", 0))
	gvCheck("the-completion-has-neither-error-nor-result", gvAnd(v == nil, text == ""))
	gvCheck("one-completion-ends-the-stream", gvGet[int]("pump.n", 0) == 0)
	gvCheck("only-a-closed-or-cancelled-stream-is-completed", gvOr(gvGet[bool]("pump.closed", 0), gvGet[bool]("pump.stop", 0)))
	gvCheck("no-completion-after-the-connection-was-cancelled", gvNot(gvGet[bool]("pump.dead", 0)))
	gvSet("pump.n", 0, gvGet[int]("pump.n", 0)+1)
	return gvAny[error]()
}

//govc:model (HubConnection).Context
func pumpContext__pump(h HubConnection) context.Context { return gvPure[context.Context]("hubctx", h) }

// what the loop of the pump keeps

//govc:inv
func inv_pumpIdle() bool {
	return gvAnd(gvGet[int]("pump.n", 0) == 0, gvAnd(gvNot(gvGet[bool]("pump.closed", 0)), gvNot(gvGet[bool]("pump.must", 0))))
}

//govc:inv
func inv_pumpSent() bool { return gvNot(gvGet[bool]("pump.pending", 0)) }

//govc:inv
func inv_pumpAlive() bool { return gvNot(gvGet[bool]("pump.dead", 0)) }

//govc:inv
func inv_pumpCancelled(r *runningStream) bool {
	return gvIff(r.cancelled.Load(), gvGet[bool]("pump.stop", 0))
}

//govc:inv
func inv_pumpRegistered(r *runningStream) bool {
	return gvAnd(gvGet[bool]("pump.is", 0), gvSame(r, gvGet[*runningStream]("pump.e", 0)))
}

//govc:inv
func inv_pumpRemembered(s *streamer, id string) bool {
	_, ok := s.cancels.Load(id)
	return gvIff(ok, gvGet[bool]("pump.stop", 0))
}

//govc:inv
func inv_pumpNotRemembered(s *streamer, id string) bool {
	_, ok := s.cancels.Load(id)
	return gvNot(ok)
}

// pumpStreamer is a streamer in any state in which the stream id is not running.
func pumpStreamer() (*streamer, string, reflect.Value) {
	s, id, ch := gvAny[*streamer](), gvAny[string](), gvAny[reflect.Value]()
	gvAssume(s != nil)
	gvAssume(s.conn != nil)
	k := gvRigid[string]()
	gvAssume(k != id)
	ctx := s.conn.Context()
	gvAssume(ctx != nil)
	gvSet("pump.s", 0, s)
	gvSet("pump.id", 0, id)
	gvSet("pump.k", 0, k)
	gvSet("pump.ch", 0, ch)
	gvSet("pump.conn", 0, s.conn)
	gvSet("pump.ctx", 0, ctx)
	gvSet("pump.is", 0, false)
	gvSet("pump.count", 0, 0)
	_, running := s.running[id]
	gvAssume(gvNot(running))
	gvAssume(gvAnd(s.cancelCount >= 0, s.cancelCount < 1<<40))
	gvSet("sm.size", 0, int(s.cancelCount))
	gvAssume(gvOr(s.maxCancels == 0, uint(s.cancelCount) <= s.maxCancels))
	gvSet("pump.pending", 0, false)
	gvSet("pump.sent", 0, false)
	gvSet("pump.n", 0, 0)
	gvSet("pump.closed", 0, false)
	gvSet("pump.stop", 0, false)
	gvSet("pump.must", 0, false)
	gvSet("pump.dead", 0, false)
	return s, id, ch
}

func pumpForgotten(s *streamer, id string) {
	_, remembered := s.cancels.Load(id)
	gvAssume(gvNot(remembered))
}

// pumpEnd checks how the stream ended.
func pumpEnd() {
	n := gvGet[int]("pump.n", 0)
	if gvGet[bool]("ctx.cancelled", gvGet[context.Context]("pump.ctx", 0)) {
		gvCheck("at-most-one-completion", n <= 1)
		gvCover("connection cancelled")
		return
	}
	gvCheck("exactly-one-completion-follows", n == 1)
	gvCheck("only-a-closed-or-cancelled-stream-ends", gvOr(gvGet[bool]("pump.closed", 0), gvGet[bool]("pump.stop", 0)))
	gvCheck("every-value-is-sent", gvImp(gvGet[bool]("pump.pending", 0), gvGet[bool]("pump.stop", 0)))
	if gvGet[bool]("pump.stop", 0) {
		gvCover("stream cancelled")
	}
	if gvAnd(gvGet[bool]("pump.closed", 0), gvGet[bool]("pump.sent", 0)) {
		gvCover("stream closed")
	}
}
