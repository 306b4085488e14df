package signalr

import (
	"context"
	"fmt"
	"reflect"
)

// C11: ids of one connection are unique under concurrency.
//
// Ghost state: handed(k) - the id number k was handed out by a call of GetNewID. k is rigid, i.e. one
// arbitrary number, so the contract holds for all. Invariant: handed(k) => k <= lastID.
// Rely: at any moment other goroutines may run GetNewID: the counter grows to some n, and k may
// become handed if it lies in the range the counter passed through.
// Guarantee: a call hands out a number which is not handed, and makes the counter grow.

//govc:rely
func c11rely() {
	l := gvGet[*loop]("c11.loop", 0)
	if l == nil {
		return
	}
	k := gvGet[uint64]("c11.k", 0)
	old := l.lastID
	n := gvAny[uint64]()
	gvAssume(n >= old)
	l.lastID = n
	if gvFork(2) == 1 {
		gvAssume(gvAnd(old < k, k <= n))
		gvSet("c11.handed", 0, true)
	}
}

//govc:atomic f:loop.lastID
//govc:closed f:loop.lastID

//govc:task C11 fresh-id-under-interference
func c11FreshID() {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	k := gvRigid[uint64]()
	gvSet("c11.k", 0, k)
	h := gvAny[bool]()
	gvSet("c11.handed", 0, h)
	gvAssume(gvImp(h, k <= l.lastID))
	gvSet("c11.loop", 0, l)
	id := l.GetNewID()
	gvSet("c11.loop", 0, (*loop)(nil))
	gvCheck("returned-id-was-never-handed-out", gvImp(gvGet[bool]("c11.handed", 0), id != fmt.Sprint(k)))
	gvCheck("handed-ids-stay-below-counter", gvImp(gvOr(id == fmt.Sprint(k), gvGet[bool]("c11.handed", 0)), k <= l.lastID))
	gvCover("returns")
}

//govc:task C11 counter-grows norely
func c11Grows() {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	before := l.lastID
	id := l.GetNewID()
	gvCheck("counter-grows", l.lastID > before)
	k := gvRigid[uint64]()
	gvCheck("id-is-in-the-range-passed", gvImp(id == fmt.Sprint(k), gvAnd(before < k, k <= l.lastID)))
	gvCover("returns")
}

// ---- who uses ids ----
//
// GetNewID by its contract above: an id nobody was given before. Every call and every stream uses an id of
// its own request, once.

//govc:model (*loop).GetNewID
func c11getID__use__caller(l *loop) string {
	gvCheck("ids-come-from-the-own-connection", l == gvGet[*loop]("c11.l", 0))
	id := gvAny[string]()
	gvAssume(id != gvGet[string]("c11.call", 0)) // handed out before
	gvSet("c11.last", 0, id)
	gvSet("c11.unused", 0, true)
	return id
}

func c11take(id string) {
	gvCheck("an-own-id-is-used", id == gvGet[string]("c11.last", 0))
	gvCheck("an-id-is-used-once", gvGet[bool]("c11.unused", 0))
	gvSet("c11.unused", 0, false)
	gvCover("uses an id")
}

//govc:hook onappend string
func on_c11append__use__caller(s []string, id string) { c11take(id) }

//govc:hook onelemset string
func on_c11elemset__use__caller(s []string, i int, id string) { c11take(id) }

func c11sent(id string) error {
	if gvGet[bool]("c11.given", 0) {
		gvCheck("the-call-uses-the-id-it-was-given", id == gvGet[string]("c11.call", 0))
		gvCheck("an-id-is-sent-once", gvGet[int]("c11.sent", 0) == 0)
	} else {
		c11take(id)
	}
	gvSet("c11.sent", 0, gvGet[int]("c11.sent", 0)+1)
	return gvAny[error]()
}

//govc:model (HubConnection).SendInvocation|(HubConnection).SendStreamInvocation
func c11send__use__caller(h HubConnection, id, target string, args []interface{}) error { return c11sent(id) }

//govc:model (HubConnection).SendInvocationWithStreamIds
func c11sendS__use__caller(h HubConnection, id, target string, args []interface{}, streamIds []string) error {
	return c11sent(id)
}

//govc:model (*loop).PullStream
func c11pull__caller(l *loop, method, id string, args ...interface{}) <-chan InvokeResult {
	c11sent(id)
	return gvAny[<-chan InvokeResult]()
}

//govc:model (*loop).PushStreams
func c11push__caller(l *loop, method, id string, args ...interface{}) (<-chan InvokeResult, error) {
	return gvAny[<-chan InvokeResult](), c11sent(id)
}

//govc:model newInvokeResultChan
func c11results__use__caller(ctx context.Context, rc <-chan interface{}, ec <-chan error) <-chan InvokeResult {
	return gvAny[<-chan InvokeResult]()
}

//govc:model (*streamer).Start
func c11start__use__caller(s *streamer, id string, ch reflect.Value) {}

//govc:model (*client).waitForConnected
func c11wait__use__caller(c *client) <-chan error { return gvAny[<-chan error]() }

func c11use(l *loop, given bool) string {
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.streamer != nil, l.invokeClient != nil)))
	gvAssume(gvAnd(l.streamClient != nil, gvAnd(l.invokeClient.resultChans != nil, l.streamClient.upstreamChannels != nil)))
	id := gvAny[string]()
	gvSet("c11.l", 0, l)
	gvSet("c11.call", 0, id)
	gvSet("c11.given", 0, given)
	gvSet("c11.unused", 0, false)
	gvSet("c11.sent", 0, 0)
	return id
}

func c11client() *client {
	c := gvAny[*client]()
	gvAssume(c != nil)
	gvAssume(c.ctx != nil)
	c11use(c.loop, false)
	return c
}

//govc:task C11 an-invocation-uses-an-own-id mode=caller norely spawn=late
func c11Invoke() {
	c11client().Invoke(gvAny[string](), gvAny[[]interface{}]()...)
	gvJoin()
	gvCover("returns")
}

//govc:task C11 a-send-uses-an-own-id mode=caller norely spawn=late
func c11Send() {
	c11client().Send(gvAny[string](), gvAny[[]interface{}]()...)
	gvJoin()
	gvCover("returns")
}

//govc:task C11 a-pulled-stream-uses-an-own-id mode=caller norely spawn=late
func c11Pull() {
	c11client().PullStream(gvAny[string](), gvAny[[]interface{}]()...)
	gvJoin()
	gvCover("returns")
}

//govc:task C11 a-call-with-streams-uses-an-own-id mode=caller norely spawn=late
func c11PushCaller() {
	c11client().PushStreams(gvAny[string](), gvAny[[]interface{}]()...)
	gvJoin()
	gvCover("returns")
}

//govc:task C11 every-pushed-stream-uses-an-own-id mode=use norely
func c11Push() {
	l := gvAny[*loop]()
	id := c11use(l, true)
	_, err := l.PushStreams(gvAny[string](), id, gvAny[[]interface{}]()...)
	gvCheck("the-call-is-sent-once", gvImp(err == nil, gvGet[int]("c11.sent", 0) == 1))
	gvCover("returns")
}

//govc:task C11 a-pulled-stream-keeps-its-id mode=use norely
func c11PullLoop() {
	l := gvAny[*loop]()
	id := c11use(l, true)
	l.PullStream(gvAny[string](), id, gvAny[[]interface{}]()...)
	gvCheck("the-call-is-sent-once", gvGet[int]("c11.sent", 0) == 1)
	gvCover("returns")
}
