package signalr

import (
	"bufio"
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"time"

	"github.com/coder/websocket"
	"github.com/go-kit/log"
	"github.com/vmihailenco/msgpack/v5"
)

// C19: no message crashes the process. Every function that handles what a peer sent runs here on arbitrary messages; a run
// time panic that leaves it, or the goroutine it runs in, is a violation. The operations of reflect are called as they
// allow it: a violation of their preconditions would panic.

const c19rule = "reflection-is-used-as-it-allows"

//govc:model (reflect.Value).Kind
func c19kind__safe__part__args(v reflect.Value) reflect.Kind {
	return reflect.Kind(gvPure[uint]("c19.kind", v))
}

//govc:model (reflect.Type).Kind
func c19tkind__safe__part(t reflect.Type) reflect.Kind {
	gvCheck(c19rule, t != nil)
	return reflect.Kind(gvPure[uint]("c19.tkind", t))
}

func c19kindOf(v reflect.Value) reflect.Kind { return reflect.Kind(gvPure[uint]("c19.kind", v)) }
func c19kindT(t reflect.Type) reflect.Kind   { return reflect.Kind(gvPure[uint]("c19.tkind", t)) }

func c19valid(v reflect.Value) { gvAssume(c19kindOf(v) != reflect.Invalid) }

// c19is: v is a valid value
func c19is(v reflect.Value) { gvCheck(c19rule, c19kindOf(v) != reflect.Invalid) }

//govc:model (reflect.Value).Type
func c19type__safe__part(v reflect.Value) reflect.Type {
	c19is(v)
	t := gvPure[reflect.Type]("c19.type", v)
	gvAssume(gvAnd(t != nil, c19kindT(t) == c19kindOf(v)))
	return t
}

//govc:model (reflect.Value).Interface
func c19interface__safe__part(v reflect.Value) interface{} {
	c19is(v)
	return gvPure[any]("c19.interface", v)
}

//govc:model (reflect.Value).Elem
func c19elem__safe__part__args(v reflect.Value) reflect.Value {
	gvCheck(c19rule, gvOr(c19kindOf(v) == reflect.Ptr, c19kindOf(v) == reflect.Interface))
	r := gvPure[reflect.Value]("c19.elem", v)
	gvAssume(gvImp(gvGet[bool]("c19.new", v), c19kindOf(r) != reflect.Invalid))
	return r
}

//govc:model reflect.New
func c19new__safe__part(t reflect.Type) reflect.Value {
	gvCheck(c19rule, t != nil)
	v := gvInj[reflect.Value]("c19.newed", new(int))
	gvAssume(c19kindOf(v) == reflect.Ptr)
	gvSet("c19.new", v, true)
	return v
}

//govc:model reflect.ValueOf
func c19valueOf__safe__part__args(x interface{}) reflect.Value {
	v := gvPure[reflect.Value]("c19.valueOf", x)
	gvAssume(gvIff(x == nil, c19kindOf(v) == reflect.Invalid))
	gvAssume(gvImp(gvIs[chan interface{}](x), c19kindOf(v) == reflect.Chan))
	gvAssume(gvNot(c19closed(v)))
	if gvAllocated(x) {
		// a new channel is in no table
		gvAssume(gvNot(gvGet[bool]("c19.known", v)))
	}
	return v
}

//govc:model reflect.TypeOf
func c19typeOf__safe__part(x interface{}) reflect.Type {
	t := gvPure[reflect.Type]("c19.typeOf", x)
	gvAssume(gvIff(x == nil, t == nil))
	return t
}

//govc:model (reflect.Type).NumMethod
func c19numMethod__safe__part(t reflect.Type) int {
	gvCheck(c19rule, t != nil)
	n := gvPure[int]("c19.methods", t)
	gvAssume(gvAnd(0 <= n, n < 1<<20))
	return n
}

//govc:model (reflect.Type).Method
func c19typeMethod__safe__part(t reflect.Type, i int) reflect.Method {
	gvCheck(c19rule, gvAnd(0 <= i, i < gvPure[int]("c19.methods", t)))
	return gvAny[reflect.Method]()
}

//govc:model (reflect.Value).NumMethod
func c19valueMethods__safe__part(v reflect.Value) int {
	c19is(v)
	return c19numMethod__safe__part(gvPure[reflect.Type]("c19.typeOf", gvPure[any]("c19.interface", v)))
}

//govc:model (reflect.Value).Method
func c19method__safe__part(v reflect.Value, i int) reflect.Value {
	x := gvGet[any]("c19.target", "")
	gvCheck(c19rule, gvAnd(gvSame(v, gvPure[reflect.Value]("c19.valueOf", x)), gvAnd(0 <= i, i < gvPure[int]("c19.methods", gvPure[reflect.Type]("c19.typeOf", x)))))
	m := gvPure[reflect.Value]("c19.method", v, i)
	gvAssume(c19kindOf(m) == reflect.Func)
	return m
}

//govc:model (reflect.Value).MethodByName
func c19methodByName__safe__part(v reflect.Value, name string) reflect.Value {
	c19is(v)
	return gvPure[reflect.Value]("c19.named", v, name)
}

//govc:model (reflect.Type).NumIn
func c19numIn__safe__part(t reflect.Type) int {
	gvCheck(c19rule, c19kindT(t) == reflect.Func)
	n := gvPure[int]("c19.in", t)
	gvAssume(gvAnd(0 <= n, n < 1<<20))
	return n
}

//govc:model (reflect.Type).NumOut
func c19numOut__safe__part(t reflect.Type) int {
	gvCheck(c19rule, c19kindT(t) == reflect.Func)
	n := gvPure[int]("c19.out", t)
	gvAssume(gvAnd(0 <= n, n < 1<<20))
	return n
}

//govc:model (reflect.Type).In
func c19in__safe__part(t reflect.Type, i int) reflect.Type {
	gvCheck(c19rule, gvAnd(c19kindT(t) == reflect.Func, gvAnd(0 <= i, i < gvPure[int]("c19.in", t))))
	r := gvPure[reflect.Type]("c19.inType", t, i)
	gvAssume(r != nil)
	return r
}

//govc:model (reflect.Type).Out
func c19out__safe__part(t reflect.Type, i int) reflect.Type {
	gvCheck(c19rule, gvAnd(c19kindT(t) == reflect.Func, gvAnd(0 <= i, i < gvPure[int]("c19.out", t))))
	r := gvPure[reflect.Type]("c19.outType", t, i)
	gvAssume(r != nil)
	return r
}

//govc:model (reflect.Type).Elem
func c19typeElem__safe__part(t reflect.Type) reflect.Type {
	k := c19kindT(t)
	gvCheck(c19rule, gvOr(gvOr(k == reflect.Chan, k == reflect.Ptr), gvOr(gvOr(k == reflect.Slice, k == reflect.Array), k == reflect.Map)))
	r := gvPure[reflect.Type]("c19.typeElem", t)
	gvAssume(r != nil)
	return r
}

//govc:model (reflect.Type).ChanDir
func c19chanDir__safe__part(t reflect.Type) reflect.ChanDir {
	gvCheck(c19rule, c19kindT(t) == reflect.Chan)
	return reflect.ChanDir(gvPure[int]("c19.dir", t))
}

//govc:model reflect.ChanOf
func c19chanOf__safe__part(d reflect.ChanDir, t reflect.Type) reflect.Type {
	gvCheck(c19rule, t != nil)
	r := gvPure[reflect.Type]("c19.chanOf", int(d), t)
	gvAssume(gvAnd(r != nil, gvAnd(c19kindT(r) == reflect.Chan, gvPure[int]("c19.dir", r) == int(d))))
	return r
}

// c19closed tells that the channel v was closed here
func c19closed(v reflect.Value) bool { return gvGet[bool]("c19.closed", v) }

// c19channel: v is a channel that can be sent to and is not closed
func c19channel(v reflect.Value) bool {
	return gvAnd(c19kindOf(v) == reflect.Chan, gvNot(c19closed(v)))
}

//govc:model reflect.MakeChan
func c19makeChan__safe__part(t reflect.Type, n int) reflect.Value {
	gvCheck(c19rule, gvAnd(c19kindT(t) == reflect.Chan, gvPure[int]("c19.dir", t) == int(reflect.BothDir)))
	gvCheck(c19rule, n >= 0)
	v := gvInj[reflect.Value]("c19.made", new(int))
	gvAssume(gvNot(gvGet[bool]("c19.known", v)))
	gvAssume(c19kindOf(v) == reflect.Chan)
	gvSet("c19.closed", v, false)
	return v
}

//govc:model (reflect.Value).Recv
func c19recv__safe__part(v reflect.Value) (reflect.Value, bool) {
	c19receivable(v)
	if gvFork(2) == 1 {
		return reflect.Value{}, false
	}
	x := gvAny[reflect.Value]()
	c19valid(x)
	return x, true
}

func c19receivable(v reflect.Value) {
	gvCheck(c19rule, c19kindOf(v) == reflect.Chan)
	t := gvPure[reflect.Type]("c19.type", v)
	gvCheck("only-what-can-be-received-from-is-received-from", gvOr(gvGet[bool]("c19.receivable", v), reflect.ChanDir(gvPure[int]("c19.dir", t)) != reflect.SendDir))
}

//govc:model (reflect.Value).TryRecv
func c19tryRecv__safe__part(v reflect.Value) (reflect.Value, bool) { return c19recv__safe__part(v) }

// The channel may be closed while a value waits for being received: sending panics.
//
//govc:model (reflect.Value).Send
func c19send__safe__part(v, x reflect.Value) {
	gvCheck(c19rule, c19kindOf(v) == reflect.Chan)
	c19is(x)
	if gvFork(2) == 1 {
		p := gvAny[error]()
		gvAssume(p != nil)
		panic(p)
	}
}

//govc:model (reflect.Value).Close
func c19close__safe__part(v reflect.Value) {
	gvCheck(c19rule, c19kindOf(v) == reflect.Chan)
	gvCheck("no-channel-is-closed-twice", gvNot(c19closed(v)))
	gvSet("c19.closed", v, true)
}

// A hub method returns what it likes, or panics.
//
//govc:model (reflect.Value).Call|(reflect.Value).CallSlice
func c19call__safe__part(f reflect.Value, in []reflect.Value) []reflect.Value {
	if gvFork(2) == 1 {
		p := gvAny[any]()
		gvAssume(p != nil)
		panic(p)
	}
	r := gvAny[[]reflect.Value]()
	gvAssume(len(r) < 1<<20)
	gvSet("c19.results", "", r)
	return r
}

//govc:hook onelemget reflect.Value
func on_c19result__safe__part(s []reflect.Value, i int, v reflect.Value) {
	if gvSame(s, gvGet[[]reflect.Value]("c19.results", "")) {
		c19valid(v)
	}
}

// An argument is decoded or refused (proved below for both protocols).
//
//govc:model (hubProtocol).UnmarshalArgument
func c19unmarshal__safe__part(p hubProtocol, src interface{}, dst interface{}) error {
	err := gvAny[error]()
	gvAssume(gvNot(gvIs[*hubChanTimeoutError](err)))
	return err
}

// The streams that run are there.
//
//govc:hook onmapread map[string]*runningStream
func on_c19running__safe__part(m map[string]*runningStream, id string, s *runningStream) {
	gvAssume(s != nil)
}

//govc:hook onmapwrite map[string]*runningStream
func on_c19run__safe__part(m map[string]*runningStream, id string, s *runningStream) {
	gvCheck("a-stream-that-runs-is-there", s != nil)
}

//govc:model (Party).Context
func c19partyContext__safe__part(p Party) context.Context {
	c := gvAny[context.Context]()
	gvAssume(c != nil)
	return c
}

//govc:model (HubConnection).Context
func c19hubContext__safe__part(h HubConnection) context.Context {
	c := gvAny[context.Context]()
	gvAssume(c != nil)
	return c
}

//govc:model (Party).invocationTarget
func c19target__safe__part(p Party, h HubConnection) interface{} {
	x := gvAny[any]()
	gvSet("c19.target", "", x)
	return x
}

// ---- the tables of streams and calls ----
//
// The tables exist whenever their lock is free, the channels in there are open, and each is there once. Other goroutines
// may change the tables while the lock is free. id is the id of the message, k any other one.

//govc:guarded streamClient.mx f:streamClient.upstreamChannels f:streamClient.runningStreams
//govc:guarded invokeClient.mx f:invokeClient.resultChans

func c19up(c *streamClient, key string) (reflect.Value, bool) {
	v, ok := c.upstreamChannels[gvGet[string](key, "")]
	return v, ok
}

//govc:hook onlock streamClient.mx
func on_c19lock__safe__part(c *streamClient) {
	gvAssume(gvAnd(c.upstreamChannels != nil, c.runningStreams != nil))
	v, has := c19up(c, "c19.id")
	w, hask := c19up(c, "c19.k")
	gvAssume(gvImp(has, c19channel(v)))
	gvAssume(gvImp(hask, c19channel(w)))
	gvAssume(gvImp(gvAnd(has, hask), gvNot(gvSame(v, w))))
	if has {
		gvSet("c19.known", v, true)
	}
	if hask {
		gvSet("c19.known", w, true)
	}
}

//govc:hook onunlock streamClient.mx
func on_c19unlock__safe__part(c *streamClient) {
	gvCheck("the-tables-exist", gvAnd(c.upstreamChannels != nil, c.runningStreams != nil))
	v, has := c19up(c, "c19.id")
	w, hask := c19up(c, "c19.k")
	gvCheck("a-bound-channel-is-open", gvAnd(gvImp(has, c19channel(v)), gvImp(hask, c19channel(w))))
	gvCheck("a-channel-is-bound-once", gvImp(gvAnd(has, hask), gvNot(gvSame(v, w))))
}

func c19call(i *invokeClient, key string) (invocationResultChans, bool) {
	r, ok := i.resultChans[gvGet[string](key, "")]
	return r, ok
}

// c19open: the channels of a call exist, are buffered and not closed
func c19open(r invocationResultChans) bool {
	return gvAnd(gvAnd(gvAnd(r.resultChan != nil, r.errChan != nil), gvAnd(cap(r.resultChan) >= 1, cap(r.errChan) >= 1)),
		gvAnd(gvAnd(gvNot(gvClosed(r.resultChan)), gvNot(gvClosed(r.errChan))), gvInj[any]("ch", r.resultChan) != gvInj[any]("ch", r.errChan)))
}

func c19apart(r, s invocationResultChans) bool {
	return gvAnd(gvAnd(gvInj[any]("ch", r.resultChan) != gvInj[any]("ch", s.resultChan), gvInj[any]("ch", r.resultChan) != gvInj[any]("ch", s.errChan)),
		gvAnd(gvInj[any]("ch", r.errChan) != gvInj[any]("ch", s.resultChan), gvInj[any]("ch", r.errChan) != gvInj[any]("ch", s.errChan)))
}

//govc:hook onlock invokeClient.mx
func on_c19lockCalls__safe__part(i *invokeClient) {
	gvAssume(i.resultChans != nil)
	r, has := c19call(i, "c19.id")
	s, hask := c19call(i, "c19.k")
	gvAssume(gvImp(has, c19open(r)))
	gvAssume(gvImp(hask, c19open(s)))
	gvAssume(gvImp(gvAnd(has, hask), c19apart(r, s)))
	gvSet("c19.left", "", false)
}

//govc:hook onunlock invokeClient.mx
func on_c19unlockCalls__safe__part(i *invokeClient) {
	gvCheck("the-table-exists", i.resultChans != nil)
	r, has := c19call(i, "c19.id")
	s, hask := c19call(i, "c19.k")
	gvCheck("the-channels-of-a-call-are-open", gvAnd(gvImp(has, c19open(r)), gvImp(hask, c19open(s))))
	gvCheck("channels-belong-to-one-call", gvImp(gvAnd(has, hask), c19apart(r, s)))
	gvSet("c19.left", "", has)
	gvSet("c19.entry", "", r)
}

// While the lock is free, another goroutine may close the channels of the calls in the table: nobody else does anything
// with them.
//
//govc:hook onsend iface
func on_c19send__safe__part(ch chan any, v any) { c19others(gvInj[any]("ch", ch)) }

//govc:hook onclose iface
func on_c19closeChan__safe__part(ch chan any) { c19others(gvInj[any]("ch", ch)) }

func c19others(ch any) {
	r := gvGet[invocationResultChans]("c19.entry", "")
	gvCheck("the-channels-of-pending-calls-are-left-alone", gvImp(gvGet[bool]("c19.left", ""), gvAnd(gvInj[any]("ch", r.resultChan) != ch, gvInj[any]("ch", r.errChan) != ch)))
}

// At the end of the loop, each call is visited once; its channels are open and those of no other call.
//
//govc:hook onmapnext map[string]invocationResultChans
func on_c19nextCall__safe__part(m map[string]invocationResultChans, id string, r invocationResultChans) {
	gvAssume(c19open(r))
}

// c19loop is a loop at any time.
func c19loop(id string) *loop {
	l := gvAny[*loop]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.info != nil, l.dbg != nil)))
	gvAssume(gvAnd(gvAnd(l.streamer != nil, l.streamClient != nil), gvAnd(l.invokeClient != nil, l.protocol != nil)))
	gvAssume(l.streamer.conn != nil)
	gvAssume(gvAnd(l.streamClient.protocol != nil, l.invokeClient.protocol != nil))
	gvAssume(l.streamClient.streamBufferCapacity < 1<<31)
	k := gvRigid[string]()
	gvAssume(k != id)
	gvSet("c19.id", "", id)
	gvSet("c19.k", "", k)
	gvSet("c19.left", "", false)
	return l
}

//govc:task C19 invocations-do-not-crash mode=safe interfere panics spawn=any
func c19Invocation() {
	m := gvAny[invocationMessage]()
	l := c19loop(gvAny[string]())
	gvAssume(gvAnd(len(m.Arguments) < 1<<40, len(m.StreamIds) < 1<<40))
	l.handleInvocationMessage(m)
	gvJoin()
	gvCover("returns")
}

//govc:task C19 stream-items-do-not-crash mode=safe interfere panics spawn=any
func c19Item() {
	m := gvAny[streamItemMessage]()
	l := c19loop(m.InvocationID)
	_ = l.handleStreamItemMessage(m)
	gvJoin()
	gvCover("returns")
}

// The completion of an uploaded stream and that of a call are handled each in a proof of its own.
//
//govc:model (*streamClient).receiveCompletionItem
func c19streamCompletion__safe(c *streamClient, m completionMessage, i *invokeClient) error {
	gvCheck("the-clients-exist", gvAnd(c != nil, i != nil))
	return gvAny[error]()
}

//govc:model (*invokeClient).receiveCompletionItem
func c19callCompletion__part(i *invokeClient, m completionMessage) error {
	gvCheck("the-client-exists", i != nil)
	return gvAny[error]()
}

//govc:model (*invokeClient).deleteInvocation
func c19forget__part(i *invokeClient, id string) { gvCheck("the-client-exists", i != nil) }

//govc:model (*streamClient).receiveStreamItem
func c19item__part(c *streamClient, m streamItemMessage) error { return gvAny[error]() }

//govc:task C19 completions-do-not-crash mode=safe interfere panics spawn=any
func c19Completion() {
	m := gvAny[completionMessage]()
	l := c19loop(m.InvocationID)
	_ = l.handleCompletionMessage(m)
	gvJoin()
	gvCover("returns")
}

//govc:task C19 completions-of-streams-do-not-crash mode=part interfere panics spawn=any
func c19StreamCompletion() {
	m := gvAny[completionMessage]()
	l := c19loop(m.InvocationID)
	_ = l.streamClient.receiveCompletionItem(m, l.invokeClient)
	gvJoin()
	gvCover("returns")
}

//govc:task C19 forgetting-a-call-does-not-crash mode=safe interfere panics spawn=any
func c19Forget() {
	id := gvAny[string]()
	l := c19loop(id)
	l.invokeClient.deleteInvocation(id)
	gvCover("returns")
}

//govc:task C19 other-messages-do-not-crash mode=safe interfere panics spawn=any
func c19Other() {
	l := c19loop(gvAny[string]())
	if gvFork(2) == 0 {
		_ = l.handleOtherMessage(gvAny[hubMessage]())
		gvCover("other")
		return
	}
	l.streamer.Stop(gvAny[string]())
	gvCover("cancelled")
}

//govc:task C19 the-end-of-the-loop-does-not-crash mode=safe interfere panics spawn=any
func c19End() {
	l := c19loop(gvAny[string]())
	l.invokeClient.cancelAllInvokes()
	gvJoin()
	gvCover("returns")
}

//govc:task C19 calls-and-streams-keep-the-tables mode=safe interfere panics
func c19Tables() {
	id := gvAny[string]()
	l := c19loop(id)
	switch gvFork(4) {
	case 0:
		_, _ = l.invokeClient.newInvocation(id)
		gvCover("call")
	case 1:
		_ = l.streamClient.newUpstreamChannel(id)
		gvCover("stream")
	case 2:
		l.streamClient.deleteUpstreamChannel(id)
		gvCover("deleted")
	case 3:
		i, c := newInvokeClient(l.protocol, 0), newStreamClient(l.protocol, 0, gvAny[uint](), gvAny[uint]())
		gvCheck("the-table-exists", i.resultChans != nil)
		gvCheck("the-tables-exist", gvAnd(c.upstreamChannels != nil, c.runningStreams != nil))
		gvCheck("the-protocol-is-there", gvAnd(i.protocol != nil, c.protocol != nil))
		gvCover("new")
	}
}

// ---- decoding ----
//
// Readers return what they like, as io.Reader allows it; the parts of the libraries that decode do so too. Only what they
// are called with and what is done with their results is checked.

const c19lib = "the-library-is-used-as-it-allows"

//govc:model (io.Reader).Read|(Connection).Read
func c19read__text__pack__hand__pipe(r io.Reader, p []byte) (int, error) {
	s := gvAny[string]()
	gvAssume(len(s) <= len(p))
	gvSetBytes(p, s)
	return len(s), gvAny[error]()
}

//govc:model (*bytes.Buffer).Next
func c19next__text__pack(b *bytes.Buffer, n int) []byte {
	gvCheck(c19lib, n >= 0)
	return gvBufNext(b, n)
}

//govc:model (*bytes.Buffer).Truncate
func c19truncate__text__pack(b *bytes.Buffer, n int) {
	gvCheck(c19lib, gvAnd(0 <= n, n <= len(gvBuf(b))))
	gvBufTruncate(b, n)
}

//govc:model (*bytes.Buffer).Grow
func c19grow__text__pack(b *bytes.Buffer, n int) {
	gvCheck(c19lib, n >= 0)
	gvBufGrow(b, n)
}

func c19debug() log.Logger {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	return dbg
}

//govc:task C19 reading-json-records-does-not-crash mode=text panics
func c19ReadJSON() {
	r, b := gvAny[io.Reader](), &bytes.Buffer{}
	gvAssume(r != nil)
	gvSet("buf", b, gvAny[string]())
	frames, err := readJSONFrames(r, b, gvAny[int]())
	gvCheck("there-is-a-record-or-an-error", gvOr(err != nil, len(frames) > 0))
	gvCover("read")
}

//govc:task C19 decoding-json-messages-does-not-crash mode=hand panics
func c19DecodeJSON() {
	j := &jsonHubProtocol{dbg: c19debug(), maximumReceiveMessageSize: gvAny[uint]()}
	r := gvAny[io.Reader]()
	gvAssume(r != nil)
	_, _ = j.ParseMessages(r, &bytes.Buffer{})
	gvCover("decoded")
}

//govc:model encoding/json.Unmarshal
func c19unmarshalJSON__args(data []byte, v any) error {
	gvCheck(c19lib, v != nil)
	return gvAny[error]()
}

//govc:task C19 decoding-arguments-does-not-crash mode=args panics
func c19Arguments() {
	var p hubProtocol
	if gvFork(2) == 1 {
		p = &jsonHubProtocol{dbg: c19debug()}
		gvCover("json")
	} else {
		p = &messagePackHubProtocol{dbg: c19debug()}
		gvCover("messagepack")
	}
	dst := gvAny[any]()
	gvAssume(dst != nil)
	gvAssume(c19kindOf(gvPure[reflect.Value]("c19.valueOf", dst)) == reflect.Ptr)
	_ = p.UnmarshalArgument(gvAny[any](), dst)
	gvCover("decoded")
}

// ---- the MessagePack library ----

func c19decoder(d *msgpack.Decoder) { gvCheck(c19lib, d != nil) }

//govc:model github.com/vmihailenco/msgpack/v5.NewDecoder
func c19newDecoder__unpack__args(r io.Reader) *msgpack.Decoder { return new(msgpack.Decoder) }

//govc:model github.com/vmihailenco/msgpack/v5.GetDecoder
func c19getDecoder__unpack__args() *msgpack.Decoder { return new(msgpack.Decoder) }

// What the value is decoded to may make the decoder panic: a map with a key that can not be one.
//
//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).Decode
func c19decode__unpack__args(d *msgpack.Decoder, v interface{}) error {
	c19decoder(d)
	return c19maybe()
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInterface|(*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInterfaceLoose
func c19decodeInterface__unpack__args(d *msgpack.Decoder) (interface{}, error) {
	c19decoder(d)
	return gvAny[any](), c19maybe()
}

func c19maybe() error {
	if gvFork(2) == 1 {
		x := gvAny[error]()
		gvAssume(x != nil)
		panic(x)
	}
	return gvAny[error]()
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeUntypedMap
func c19decodeUntypedMap__unpack__args(d *msgpack.Decoder) (map[interface{}]interface{}, error) {
	c19decoder(d)
	return gvAny[map[interface{}]interface{}](), c19maybe()
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeMap
func c19decodeMap__unpack__args(d *msgpack.Decoder) (map[string]interface{}, error) {
	c19decoder(d)
	return gvAny[map[string]interface{}](), gvAny[error]()
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeArrayLen|(*github.com/vmihailenco/msgpack/v5.Decoder).DecodeMapLen
func c19decodeLen__unpack(d *msgpack.Decoder) (int, error) {
	c19decoder(d)
	n := gvAny[int]()
	gvAssume(gvAnd(-1 <= n, n < 1<<32))
	return n, gvAny[error]()
}

//govc:model encoding/binary.Uvarint
func c19uvarint__pack(p []byte) (uint64, int) {
	n := gvPure[int]("c19.lenLen", string(p))
	gvAssume(gvAnd(-11 <= n, gvAnd(n <= len(p), n <= 10)))
	return gvPure[uint64]("c19.length", string(p)), n
}

//govc:model (*messagePackHubProtocol).parseMessage
func c19parse__pack(m *messagePackHubProtocol, b *bytes.Buffer) (interface{}, error) {
	gvCheck(c19lib, b != nil)
	return gvAny[any](), gvAny[error]()
}

//govc:task C19 reading-messagepack-messages-does-not-crash mode=pack panics feas=100
func c19ReadMessagePack() {
	m := &messagePackHubProtocol{dbg: c19debug(), maximumReceiveMessageSize: gvAny[uint]()}
	r, b := gvAny[io.Reader](), &bytes.Buffer{}
	gvAssume(r != nil)
	gvSet("buf", b, gvAny[string]())
	_, _ = m.ParseMessages(r, b)
	gvCover("parsed")
}

//govc:task C19 decoding-messagepack-messages-does-not-crash mode=unpack panics
func c19DecodeMessagePack() {
	m := &messagePackHubProtocol{dbg: c19debug(), maximumReceiveMessageSize: gvAny[uint]()}
	_, _ = m.parseMessage(&bytes.Buffer{})
	gvCover("decoded")
}

// ---- handshakes ----

//govc:model readJSONFrames
func c19records__hand(r io.Reader, b *bytes.Buffer, max int) ([][]byte, error) {
	gvCheck(c19lib, gvAnd(r != nil, b != nil))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return gvAny[[][]byte](), err
	}
	frames := gvAny[[][]byte]()
	gvAssume(len(frames) > 0)
	return frames, nil
}

//govc:model (*server).prefixLoggers
func c19serverLoggers__hand(s *server, id string) (StructuredLogger, StructuredLogger) {
	return c19debug(), c19debug()
}

//govc:model (*client).prefixLoggers
func c19clientLoggers__hand(c *client, id string) (StructuredLogger, StructuredLogger) {
	return c19debug(), c19debug()
}

//govc:task C19 handshakes-do-not-crash mode=hand spawn=any panics
func c19Handshake() {
	conn, ctx := gvAny[Connection](), gvAny[context.Context]()
	gvAssume(gvAnd(conn != nil, ctx != nil))
	if gvFork(2) == 1 {
		s := gvAny[*server]()
		gvAssume(s != nil)
		s.ctx = ctx
		gvInit()
		p, err := s.processHandshake(conn)
		gvCheck("there-is-a-protocol-or-an-error", gvOr(err != nil, p != nil))
		gvJoin()
		gvCover("server")
		return
	}
	c := gvAny[*client]()
	gvAssume(c != nil)
	c.ctx = ctx
	c.conn = conn
	_, _ = c.receiveHandshakeResponse()
	gvJoin()
	gvCover("client")
}

// ---- the way of the messages ----

//govc:model io.Pipe
func c19pipe__pipe() (*io.PipeReader, *io.PipeWriter) { return &io.PipeReader{}, &io.PipeWriter{} }

//govc:model (*io.PipeReader).CloseWithError
func c19closeReader__pipe(r *io.PipeReader, err error) error {
	gvCheck(c19lib, r != nil)
	return gvAny[error]()
}

//govc:model (*io.PipeWriter).CloseWithError
func c19closeWriter__pipe(w *io.PipeWriter, err error) error {
	gvCheck(c19lib, w != nil)
	return gvAny[error]()
}

//govc:model (*io.PipeWriter).Write|(io.Writer).Write
func c19write__pipe(w *io.PipeWriter, p []byte) (int, error) {
	gvCheck(c19lib, w != nil)
	return gvAny[int](), gvAny[error]()
}

//govc:model (hubProtocol).ParseMessages
func c19messages__pipe(h hubProtocol, r io.Reader, b *bytes.Buffer) ([]interface{}, error) {
	gvCheck(c19lib, gvAnd(r != nil, b != nil))
	ms := gvAny[[]interface{}]()
	gvAssume(len(ms) < 1<<40)
	return ms, gvAny[error]()
}

//govc:task C19 receiving-does-not-crash mode=pipe spawn=separate panics
func c19Receive() {
	conn, ctx, p := gvAny[Connection](), gvAny[context.Context](), gvAny[hubProtocol]()
	gvAssume(gvAnd(conn != nil, gvAnd(ctx != nil, p != nil)))
	max := gvAny[uint]()
	gvAssume(max < 1<<31)
	c := &defaultHubConnection{ctx: ctx, connection: conn, protocol: p, maximumReceiveMessageSize: max}
	_ = c.Receive()
	gvCover("started")
}

//govc:task C19 passing-results-on-does-not-crash mode=pipe spawn=separate panics
func c19Results() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	r, e := gvAny[chan interface{}](), gvAny[chan error]()
	gvAssume(gvAnd(r != nil, e != nil))
	_ = newInvokeResultChan(ctx, r, e)
	gvCover("started")
}

// ---- the loop: the handlers were looked at above ----

//govc:model (*loop).handleInvocationMessage
func c19invocation__run(l *loop, m invocationMessage) {}

//govc:model (*loop).handleStreamItemMessage
func c19streamItem__run(l *loop, m streamItemMessage) error { return gvAny[error]() }

//govc:model (*loop).handleCompletionMessage
func c19completion__run(l *loop, m completionMessage) error { return gvAny[error]() }

//govc:model (*loop).handleOtherMessage
func c19other__run(l *loop, m hubMessage) error { return gvAny[error]() }

//govc:model (*streamer).Stop
func c19stop__run(s *streamer, id string) { gvCheck("there-is-a-streamer", s != nil) }

//govc:model (*invokeClient).cancelAllInvokes
func c19cancelAll__run(i *invokeClient) { gvCheck("there-is-a-client", i != nil) }

//govc:model (Party).Context
func c19partyCtx__run(p Party) context.Context { return c19ctx() }

//govc:model (HubConnection).Context
func c19hubCtx__run(h HubConnection) context.Context { return c19ctx() }

func c19ctx() context.Context {
	c := gvAny[context.Context]()
	gvAssume(c != nil)
	return c
}

//govc:model (Party).timeout
func c19timeout__run(p Party) time.Duration {
	d := gvPure[time.Duration]("c19.timeout", p)
	gvAssume(d > 0)
	return d
}

//govc:model (Party).keepAliveInterval
func c19keepAlive__run(p Party) time.Duration {
	d := gvPure[time.Duration]("c19.keepAlive", p)
	gvAssume(d > 0)
	return d
}

//govc:model time.NewTicker
func c19newTicker__run(d time.Duration) *time.Ticker {
	gvCheck("tickers-have-an-interval", d > 0)
	return &time.Ticker{C: gvInj[<-chan time.Time]("tickchan", new(int))}
}

//govc:model (*time.Ticker).Reset
func c19reset__run(t *time.Ticker, d time.Duration) {
	gvCheck("tickers-have-an-interval", gvAnd(t != nil, d > 0))
}

//govc:task C19 the-loop-does-not-crash mode=run spawn=separate panics
func c19Run() {
	l := c19loop("")
	connected := make(chan struct{}, 1)
	_ = l.Run(connected)
	gvCover("ended")
}

// ---- connections ----

// The jobs are closed with the lock held after the context was cancelled (newServerSSEConnection).
//
//govc:hook onlock serverSSEConnection.mx
func on_c19job__sse(s *serverSSEConnection) {
	if gvFork(2) == 1 {
		gvSet("ctx.cancelled", s.ctx, true)
		close(s.jobChan)
	}
}

//govc:task C19 writing-events-does-not-crash mode=sse panics
func c19WriteEvent() {
	s, ctx := &serverSSEConnection{}, c19ctx()
	s.ctx = ctx
	s.jobChan, s.jobResultChan = make(chan []byte, 1), gvAny[chan RWJobResult]()
	gvSet("ctx.cancelled", ctx, gvAny[bool]())
	_, _ = s.Write(gvAny[[]byte]())
	gvCover("written")
}

//govc:model (io.Reader).Read
func c19wsRead__ws(r io.Reader, p []byte) (int, error) {
	gvCheck("a-reader-is-read", r != nil)
	n := gvAny[int]()
	gvAssume(gvAnd(0 <= n, n <= len(p)))
	return n, gvAny[error]()
}

//govc:model (*github.com/coder/websocket.Conn).Reader
func c19wsReader__ws(c *websocket.Conn, ctx context.Context) (websocket.MessageType, io.Reader, error) {
	gvCheck(c19lib, gvAnd(c != nil, ctx != nil))
	r, err := gvAny[io.Reader](), gvAny[error]()
	gvAssume(gvOr(err != nil, r != nil))
	return gvAny[websocket.MessageType](), r, err
}

//govc:task C19 reading-web-sockets-does-not-crash mode=ws panics spawn=any
func c19Socket() {
	w := &webSocketConnection{conn: &websocket.Conn{}}
	w.ctx = c19ctx()
	if gvFork(2) == 1 {
		r := gvAny[io.Reader]()
		gvAssume(r != nil)
		w.reader = r
	}
	_, _ = w.Read(gvAny[[]byte]())
	gvJoin()
	gvCover("read")
}

//govc:model (*bufio.Reader).ReadLine
func c19readLine__events(r *bufio.Reader) ([]byte, bool, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, false, err
	}
	return []byte(gvAny[string]()), gvAny[bool](), nil
}

//govc:model bufio.NewReaderSize
func c19newReader__events(r io.Reader, n int) *bufio.Reader { return new(bufio.Reader) }

//govc:model (io.Writer).Write
func c19passOn__events(w io.Writer, p []byte) (int, error) { return gvAny[int](), gvAny[error]() }

//govc:task C19 reading-events-does-not-crash mode=events panics
func c19Events() {
	c, r := &clientSSEConnection{}, gvAny[io.Reader]()
	w := gvAny[io.Writer]()
	gvAssume(gvAnd(w != nil, r != nil))
	c.sseWriter = w
	_ = c.readEvents(r)
	gvCover("ended")
}

// ---- the answer to a negotiation ----

//govc:model (Doer).Do
func c19do__negotiate(d Doer, r *http.Request) (*http.Response, error) {
	gvCheck(c19lib, r != nil)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	resp := gvAny[*http.Response]()
	gvAssume(resp != nil)
	gvAssume(resp.Body != nil)
	return resp, nil
}

//govc:model net/url.Parse
func c19parseURL__negotiate(s string) (*url.URL, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	return &url.URL{}, nil
}

//govc:model (*net/url.URL).Query
func c19query__negotiate(u *url.URL) url.Values { return make(url.Values) }

//govc:model net/http.NewRequest
func c19newRequest__negotiate(method, u string, body io.Reader) (*http.Request, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	return &http.Request{Header: make(http.Header), URL: &url.URL{}}, nil
}

//govc:model net/http.NewRequestWithContext
func c19newRequestCtx__negotiate(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	return c19newRequest__negotiate(method, u, body)
}

//govc:model io.ReadAll
func c19readAll__negotiate(r io.Reader) ([]byte, error) {
	gvCheck(c19lib, r != nil)
	return gvAny[[]byte](), gvAny[error]()
}

//govc:model closeResponseBody
func c19closeBody__negotiate(b io.ReadCloser) { gvCheck(c19lib, b != nil) }

//govc:model newClientSSEConnection
func c19sse__negotiate(address string, id string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
	gvCheck(c19lib, body != nil)
	return &clientSSEConnection{}, nil
}

//govc:model newWebSocketConnection
func c19ws__negotiate(ctx context.Context, id string, c *websocket.Conn) *webSocketConnection {
	return &webSocketConnection{}
}

//govc:task C19 answers-to-negotiations-do-not-crash mode=negotiate panics
func c19Negotiate() {
	d := gvAny[Doer]()
	gvAssume(d != nil)
	_, _ = NewHTTPConnection(c19ctx(), gvAny[string](), WithHTTPClient(d))
	gvCover("returns")
}
