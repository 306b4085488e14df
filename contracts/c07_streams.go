package signalr

import (
	"context"
	"reflect"
)

// C07: streams deliver every item once, in order, and end with one completion. See gv_pump.go for the ghost state.

//govc:task C07 a-stream-delivers-every-value-once mode=pump interfere spawn=any
func c07Pump() {
	s, id, ch := pumpStreamer()
	pumpForgotten(s, id)
	s.Start(id, ch)
	gvJoin()
	pumpEnd()
}

// ---- who starts streams ----

//govc:model (*streamer).Start
func c07start__push__ret(s *streamer, id string, ch reflect.Value) {
	gvCheck("started-by-the-own-streamer", s == gvGet[*loop]("s.l", 0).streamer)
	gvCheck("streams-start-after-they-were-announced", gvGet[bool]("s.sent", 0))
	if gvGet[bool]("s.push", 0) {
		if gvSame(ch, gvGet[reflect.Value]("s.target", 0)) {
			gvCheck("a-stream-is-started-once", gvGet[int]("s.starts", 0) == 0)
			gvCheck("a-stream-is-started-with-its-announced-id", id == gvGet[string]("s.announced", 0))
			gvSet("s.starts", 0, gvGet[int]("s.starts", 0)+1)
		}
		return
	}
	gvCheck("a-stream-is-started-once", gvGet[int]("s.starts", 0) == 0)
	gvCheck("a-stream-is-started-with-its-announced-id", id == gvGet[invocationMessage]("s.m", 0).InvocationID)
	gvCheck("the-returned-channel-is-streamed", gvSame(ch, gvGet[reflect.Value]("s.target", 0)))
	gvSet("s.starts", 0, gvGet[int]("s.starts", 0)+1)
}

//govc:hook onappend reflect.Value
func on_c07append__push(s []reflect.Value, v reflect.Value) {
	if gvSame(v, gvGet[reflect.Value]("s.target", 0)) {
		gvAssume(gvGet[int]("s.appended", 0) == 0) // the channel arguments are different ones
		gvSet("s.pos", 0, len(s))
		gvSet("s.appended", 0, 1)
	}
}

//govc:model (HubConnection).SendInvocationWithStreamIds
func c07send__push(h HubConnection, id, target string, args []interface{}, ids []string) error {
	l := gvGet[*loop]("s.l", 0)
	gvCheck("announced-on-the-own-connection", h == l.hubConn)
	gvCheck("announced-once", gvNot(gvGet[bool]("s.sent", 0)))
	gvSet("s.sent", 0, true)
	gvSet("s.announced", 0, gvElem(ids, gvGet[int]("s.pos", 0)))
	if gvFork(2) == 1 {
		gvSet("s.failed", 0, true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	return nil
}

//govc:model (*invokeClient).newInvocation
func c07new__push(i *invokeClient, id string) (chan interface{}, chan error) {
	return gvAny[chan interface{}](), gvAny[chan error]()
}

//govc:model newInvokeResultChan
func c07ir__push(ctx context.Context, rc <-chan interface{}, ec <-chan error) <-chan InvokeResult {
	return gvAny[<-chan InvokeResult]()
}

//govc:model (*invokeClient).deleteInvocation
func c07del__push(i *invokeClient, id string) {}

//govc:inv
func inv_c07arg(args []interface{}) bool {
	return gvElem(args, gvGet[int]("s.k", 0)) == gvGet[any]("s.arg", 0)
}

//govc:inv
func inv_c07appended(args []interface{}, chans []reflect.Value, i int) bool {
	k := gvGet[int]("s.k", 0)
	return gvImp(i > k, gvGet[int]("s.appended", 0) == 1)
}

//govc:inv
func inv_c07appendedTo(args []interface{}, chans []reflect.Value, i int) bool {
	k := gvGet[int]("s.k", 0)
	return gvImp(i >= k, gvGet[int]("s.appended", 0) == 1)
}

//govc:inv
func inv_c07pos(chans []reflect.Value) bool {
	pos := gvGet[int]("s.pos", 0)
	return gvImp(gvGet[int]("s.appended", 0) == 1, gvAnd(gvAnd(0 <= pos, pos < len(chans)), gvSame(gvElem(chans, pos), gvGet[reflect.Value]("s.target", 0))))
}

//govc:inv
func inv_c07len(chans []reflect.Value, ids []string) bool { return len(chans) == len(ids) }

//govc:inv
func inv_c07only(chans []reflect.Value, every int) bool {
	in := gvAnd(0 <= every, every < len(chans))
	hit := gvSame(gvElem(chans, every), gvGet[reflect.Value]("s.target", 0))
	return gvImp(gvAnd(in, hit), gvAnd(gvGet[int]("s.appended", 0) == 1, every == gvGet[int]("s.pos", 0)))
}

//govc:inv
func inv_c07started(chans []reflect.Value, i int) bool {
	return gvIff(gvGet[int]("s.starts", 0) == 1, gvAnd(gvGet[int]("s.appended", 0) == 1, i > gvGet[int]("s.pos", 0)))
}

//govc:inv
func inv_c07startedTo(chans []reflect.Value, i int) bool {
	return gvIff(gvGet[int]("s.starts", 0) == 1, gvAnd(gvGet[int]("s.appended", 0) == 1, i >= gvGet[int]("s.pos", 0)))
}

//govc:inv
func inv_c07startsRange() bool {
	n, a := gvGet[int]("s.starts", 0), gvGet[int]("s.appended", 0)
	return gvAnd(gvAnd(0 <= n, n <= 1), gvAnd(0 <= a, a <= 1))
}

func c07loop() *loop {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.streamer != nil, l.invokeClient != nil)))
	gvSet("s.l", 0, l)
	gvSet("s.starts", 0, 0)
	gvSet("s.appended", 0, 0)
	gvSet("s.sent", 0, false)
	gvSet("s.failed", 0, false)
	return l
}

//govc:task C07 every-channel-argument-is-streamed-once mode=push
func c07Push() {
	l := c07loop()
	gvSet("s.push", 0, true)
	args, k := gvAny[[]interface{}](), gvRigid[int]()
	gvAssume(gvAnd(0 <= k, k < len(args)))
	arg := args[k]
	gvAssume(arg != nil)
	gvAssume(reflect.TypeOf(arg).Kind() == reflect.Chan)
	gvSet("s.k", 0, k)
	gvSet("s.arg", 0, arg)
	gvSet("s.target", 0, reflect.ValueOf(arg))
	_, err := l.PushStreams(gvAny[string](), gvAny[string](), args...)
	starts := gvGet[int]("s.starts", 0)
	if err != nil {
		gvCheck("nothing-is-streamed-when-the-call-failed", starts == 0)
		gvCover("failed")
		return
	}
	gvCheck("the-streams-are-announced", gvGet[bool]("s.sent", 0))
	gvCheck("every-channel-is-streamed", starts == 1)
	gvCover("streaming")
}

//govc:task C07 a-returned-channel-is-streamed-once mode=ret
func c07Return() {
	l := c07loop()
	gvSet("s.push", 0, false)
	gvSet("s.sent", 0, true)
	m, r := gvAny[invocationMessage](), gvAny[[]reflect.Value]()
	gvAssume(gvAnd(m.Type == 4, m.InvocationID != ""))
	gvAssume(len(r) == 1)
	gvAssume(gvAnd(r[0].Kind() == reflect.Chan, r[0].Type().ChanDir() != reflect.SendDir))
	gvSet("s.m", 0, m)
	gvSet("s.target", 0, r[0])
	l.returnInvocationResult(m, r)
	gvJoin()
	gvCheck("the-stream-is-started", gvGet[int]("s.starts", 0) == 1)
	gvCover("returns")
}
