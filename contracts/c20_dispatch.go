package signalr

import (
	"reflect"
	"strings"
)

// C20: hub methods are called only with the arguments that were sent, in order.

// ---- the method of a name ----

//govc:model (reflect.Value).Method
func c20method__look(v reflect.Value, i int) reflect.Value {
	gvCheck("a-method-of-the-hub", gvSame(v.Interface(), gvGet[any]("c20.target", 0)))
	r := gvInj[reflect.Value]("rv.method", v, i)
	gvSet("c20.index", r, i)
	return r
}

//govc:model (reflect.Value).NumMethod
func c20numMethod__look(v reflect.Value) int { return reflect.TypeOf(v.Interface()).NumMethod() }

//govc:model (reflect.Value).Type
func c20type__look(v reflect.Value) reflect.Type { return reflect.TypeOf(v.Interface()) }

//govc:model (reflect.Type).NumMethod
func c20count__look(t reflect.Type) int {
	n := gvPure[int]("rt.nummethod", t)
	gvAssume(n >= 0)
	return n
}

func c20name(i int) string {
	return strings.ToLower(reflect.TypeOf(gvGet[any]("c20.target", 0)).Method(i).Name)
}

//govc:inv
func inv_c20notYet__look(i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k < i), gvNot(c20name(k) == gvGet[string]("c20.name", 0)))
}

//govc:inv
func inv_c20notYetDown__look(i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(i < k, k < reflect.TypeOf(gvGet[any]("c20.target", 0)).NumMethod()), gvNot(c20name(k) == gvGet[string]("c20.name", 0)))
}

//govc:task C20 a-name-finds-the-method-of-that-name mode=look panics
func c20Lookup() {
	target, name := gvAny[interface{}](), gvAny[string]()
	k := gvRigid[int]()
	gvSet("c20.target", 0, target)
	gvSet("c20.k", 0, k)
	gvSet("c20.name", 0, strings.ToLower(name))
	m, ok := getMethod(target, name)
	if target == nil {
		gvCheck("nothing-has-no-methods", gvNot(ok))
		gvCover("nil")
		return
	}
	n := reflect.TypeOf(target).NumMethod()
	if ok {
		i := gvGet[int]("c20.index", m)
		gvCheck("a-method-of-the-hub-is-returned", gvAnd(gvSame(m, gvInj[reflect.Value]("rv.method", reflect.ValueOf(target), i)), gvAnd(0 <= i, i < n)))
		gvCheck("the-method-has-the-name", c20name(i) == strings.ToLower(name))
		gvCover("found")
	} else {
		gvCheck("a-method-with-the-name-is-found", gvImp(gvAnd(0 <= k, k < n), gvNot(c20name(k) == strings.ToLower(name))))
		gvCover("missing")
	}
}

//govc:task C20 alternate-names-stand-for-their-method
func c20Alternate() {
	p := gvAny[*partyBase]()
	gvAssume(p != nil)
	gvAssume(p.methodNamesByAlternateName != nil)
	method, alt, other := gvAny[string](), gvAny[string](), gvAny[string]()
	before := p.getMethodNameByAlternateName(other)
	_, had := p.methodNamesByAlternateName[other]
	gvCheck("a-name-without-alternate-stands-for-itself", gvOr(had, before == other))
	p.setAlternateMethodName(method, alt)
	gvCheck("the-alternate-name-stands-for-the-method", p.getMethodNameByAlternateName(alt) == method)
	gvCheck("other-names-are-unchanged", gvOr(other == alt, p.getMethodNameByAlternateName(other) == before))
	gvCover("returns")
}

// ---- the arguments of a call ----
//
// c20.cnt(i) is the number of channel parameters before parameter i. Ghost state: c20.bound counts the channels bound so
// far; new.type, elem.of, from, ok describe decoded values; chan.index, chan.type bound channels; c20.good(i): argument i
// is what parameter i has to get; c20.arg(i) is argument i.

func c20cnt(i int) int { return gvPure[int]("c20.cnt", i) }

func c20isChan(t reflect.Type) bool {
	return gvAnd(t.Kind() == reflect.Chan, t.ChanDir() != reflect.SendDir)
}

func c20n() int { return gvGet[int]("c20.n", 0) }

//govc:model (reflect.Type).NumIn
func c20numIn__bind(t reflect.Type) int {
	n := gvPure[int]("rt.numin", t)
	gvAssume(gvAnd(0 <= n, n < 1<<20))
	return n
}

//govc:model (reflect.Type).In
func c20in__bind(t reflect.Type, i int) reflect.Type {
	gvCheck("only-parameters-are-asked-for", gvAnd(0 <= i, i < t.NumIn()))
	r := gvPure[reflect.Type]("rt.in", t, i)
	gvAssume(r != nil)
	gvSet("c20.last", 0, -1)
	// definition of c20.cnt for this parameter
	n := c20n()
	gvAssume(gvAnd(0 <= c20cnt(i), c20cnt(i) <= i))
	gvAssume(c20cnt(i+1) == c20cnt(i)+gvIte(c20isChan(r), 1, 0))
	gvAssume(gvAnd(0 <= c20cnt(n)-c20cnt(i+1), c20cnt(n)-c20cnt(i+1) <= n-(i+1)))
	return r
}

//govc:model reflect.New
func c20new__bind(t reflect.Type) reflect.Value {
	v := gvInj[reflect.Value]("rvNew", t, new(int))
	gvSet("new.type", v, t)
	gvSet("ok", v.Interface(), false)
	return v
}

//govc:model (reflect.Value).Elem
func c20elem__bind(v reflect.Value) reflect.Value {
	r := gvInj[reflect.Value]("rvElem", v)
	gvSet("elem.of", r, v)
	return r
}

//govc:model (hubProtocol).UnmarshalArgument
func c20decode__bind(p hubProtocol, src interface{}, dst interface{}) error {
	gvCheck("the-protocol-of-the-connection-decodes", gvSame(p, gvGet[hubProtocol]("c20.protocol", 0)))
	if gvFork(2) == 1 {
		gvSet("c20.reason", 0, true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	gvSet("from", dst, src)
	gvSet("ok", dst, true)
	// the argument may be in its place already
	if last := gvGet[int]("c20.last", 0); last >= 0 {
		c20set(last, gvGet[reflect.Value]("c20.arg", last))
	}
	return nil
}

//govc:model (*streamClient).buildChannelArgument
func c20channel__bind(c *streamClient, m invocationMessage, t reflect.Type, n int) (reflect.Value, bool, error) {
	gvCheck("the-stream-table-of-the-connection", c == gvGet[*streamClient]("c20.streams", 0))
	gvCheck("the-streams-of-the-invocation", gvSame(m.StreamIds, gvGet[invocationMessage]("c20.m", 0).StreamIds))
	if gvNot(c20isChan(t)) {
		return reflect.Value{}, false, nil
	}
	gvCheck("every-stream-is-bound-once-and-in-order", n == gvGet[int]("c20.bound", 0))
	if n >= len(m.StreamIds) || gvFork(2) == 1 {
		gvSet("c20.reason", 0, true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return reflect.Value{}, true, err
	}
	gvSet("c20.bound", 0, n+1)
	v := gvInj[reflect.Value]("rvChan", new(int))
	gvSet("chan.index", v, n)
	gvSet("chan.type", v, t)
	gvCover("stream")
	return v, true, nil
}

// c20set: parameter i gets v
func c20set(i int, v reflect.Value) {
	m, t := gvGet[invocationMessage]("c20.m", 0), gvGet[reflect.Value]("c20.method", 0).Type()
	in := gvPure[reflect.Type]("rt.in", t, i)
	isStream := gvAnd(gvGet[int]("chan.index", v) == c20cnt(i), gvGet[reflect.Type]("chan.type", v) == in)
	w := gvGet[reflect.Value]("elem.of", v)
	dst := w.Interface()
	isValue := gvAnd(gvAnd(gvGet[reflect.Type]("new.type", w) == in, gvGet[bool]("ok", dst)), gvSame(gvGet[any]("from", dst), gvElem(m.Arguments, i-c20cnt(i))))
	gvSet("c20.good", i, gvIte(c20isChan(in), isStream, isValue))
	gvSet("c20.arg", i, v)
	gvSet("c20.last", 0, i)
}

//govc:hook onelemset reflect.Value
func on_c20set__bind(s []reflect.Value, i int, v reflect.Value) { c20set(i, v) }

//govc:hook onappend reflect.Value
func on_c20append__bind(s []reflect.Value, v reflect.Value) { c20set(len(s), v) }

//govc:inv
func inv_c20count__bind(x, i int) bool { return x == c20cnt(i) }

//govc:inv
func inv_c20rest__bind(x, i int) bool { return x == i-c20cnt(i) }

//govc:inv
func inv_c20left__bind(i int) bool {
	return i-c20cnt(i) <= len(gvGet[invocationMessage]("c20.m", 0).Arguments)
}

//govc:inv
func inv_c20leftTo__bind(i int) bool {
	return i+1-c20cnt(i+1) <= len(gvGet[invocationMessage]("c20.m", 0).Arguments)
}

//govc:inv
func inv_c20bound__bind(x int) bool { return x == gvGet[int]("c20.bound", 0) }

//govc:inv
func inv_c20bound2__bind(i int) bool { return c20cnt(i) == gvGet[int]("c20.bound", 0) }

// the same for loops whose variable is the last index

//govc:inv
func inv_c20countTo__bind(x, i int) bool { return x == c20cnt(i+1) }

//govc:inv
func inv_c20boundTo__bind(i int) bool { return c20cnt(i+1) == gvGet[int]("c20.bound", 0) }

//govc:inv
func inv_c20goodTo__bind(i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k <= i), gvGet[bool]("c20.good", k))
}

//govc:inv
func inv_c20argsTo__bind(r []reflect.Value, i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k <= i), gvSame(gvElem(r, k), gvGet[reflect.Value]("c20.arg", k)))
}

//govc:inv
func inv_c20len__bind(r []reflect.Value, i int) bool { return len(r) == i }

//govc:inv
func inv_c20good__bind(i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k < i), gvGet[bool]("c20.good", k))
}

//govc:inv
func inv_c20args__bind(r []reflect.Value, i int) bool {
	k := gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k < i), gvSame(gvElem(r, k), gvGet[reflect.Value]("c20.arg", k)))
}

//govc:task C20 every-parameter-gets-what-was-sent-for-it mode=bind panics
func c20Bind() {
	m, method := gvAny[invocationMessage](), gvAny[reflect.Value]()
	c, p := gvAny[*streamClient](), gvAny[hubProtocol]()
	gvAssume(gvAnd(c != nil, p != nil))
	gvAssume(gvAnd(len(m.Arguments) < 1<<40, len(m.StreamIds) < 1<<40))
	k := gvRigid[int]()
	gvSet("c20.m", 0, m)
	gvSet("c20.method", 0, method)
	gvSet("c20.streams", 0, c)
	gvSet("c20.protocol", 0, p)
	gvSet("c20.k", 0, k)
	gvSet("c20.bound", 0, 0)
	gvSet("c20.last", 0, -1)
	gvSet("c20.reason", 0, false)
	n := method.Type().NumIn()
	gvSet("c20.n", 0, n)
	gvAssume(c20cnt(0) == 0)
	gvAssume(gvAnd(0 <= c20cnt(n), c20cnt(n) <= n))
	args, err := buildMethodArguments(method, m, c, p)
	fits := gvAnd(n == len(m.StreamIds)+len(m.Arguments), c20cnt(n) == len(m.StreamIds))
	if err != nil {
		gvCheck("only-a-bad-invocation-is-refused", gvOr(gvGet[bool]("c20.reason", 0), gvNot(fits)))
		gvCover("refused")
		return
	}
	gvCheck("as-many-arguments-and-streams-as-parameters", fits)
	gvCheck("every-parameter-has-an-argument", len(args) == n)
	gvAssume(gvAnd(0 <= k, k < n))
	gvCheck("each-parameter-gets-what-was-sent-for-it", gvAnd(gvGet[bool]("c20.good", k), gvSame(gvElem(args, k), gvGet[reflect.Value]("c20.arg", k))))
	gvCheck("every-stream-is-bound", gvGet[int]("c20.bound", 0) == len(m.StreamIds))
	gvCover("called")
}

// ---- the call ----

//govc:model (Party).getMethodNameByAlternateName
func c20alt__call(p Party, name string) string {
	gvCheck("the-name-that-was-sent", name == gvGet[invocationMessage]("c20.m", 0).Target)
	return gvPure[string]("c20.alt", p, name)
}

//govc:model (Party).invocationTarget
func c20target__call(p Party, hc HubConnection) interface{} {
	gvCheck("the-hub-of-the-own-connection", hc == gvGet[*loop]("c20.l", 0).hubConn)
	t := gvAny[any]()
	gvSet("c20.target", 0, t)
	return t
}

//govc:model getMethod
func c20getMethod__call(target interface{}, name string) (reflect.Value, bool) {
	l := gvGet[*loop]("c20.l", 0)
	gvCheck("the-method-of-the-name", name == gvPure[string]("c20.alt", l.party, gvGet[invocationMessage]("c20.m", 0).Target))
	gvCheck("the-method-of-the-hub", gvSame(target, gvGet[any]("c20.target", 0)))
	m := gvAny[reflect.Value]()
	gvSet("c20.method", 0, m)
	if gvFork(2) == 0 {
		gvSet("c20.refused", 0, true)
		return m, false
	}
	gvSet("c20.found", 0, true)
	return m, true
}

//govc:model buildMethodArguments
func c20args__call(method reflect.Value, m invocationMessage, c *streamClient, p hubProtocol) ([]reflect.Value, error) {
	l, was := gvGet[*loop]("c20.l", 0), gvGet[invocationMessage]("c20.m", 0)
	gvCheck("arguments-for-the-method", gvAnd(gvGet[bool]("c20.found", 0), gvSame(method, gvGet[reflect.Value]("c20.method", 0))))
	gvCheck("the-arguments-that-were-sent", gvAnd(gvSame(m.Arguments, was.Arguments), gvSame(m.StreamIds, was.StreamIds)))
	k := gvGet[int]("c20.k", 0)
	gvCheck("the-arguments-are-as-they-were-sent", gvImp(gvAnd(0 <= k, k < len(m.Arguments)), gvSame(gvElem(m.Arguments, k), gvGet[any]("c20.sent", 0))))
	gvCheck("the-stream-table-of-the-connection", c == l.streamClient)
	gvCheck("the-protocol-of-the-connection", gvSame(p, l.protocol))
	if gvFork(2) == 1 {
		gvSet("c20.refused", 0, true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return gvAny[[]reflect.Value](), err
	}
	r := gvAny[[]reflect.Value]()
	gvSet("c20.args", 0, r)
	gvSet("c20.built", 0, true)
	j := gvGet[int]("c20.j", 0)
	gvSet("c20.argj", 0, gvElem(r, j))
	return r, nil
}

//govc:model (reflect.Value).Call|(reflect.Value).CallSlice
func c20call__call(f reflect.Value, in []reflect.Value) []reflect.Value {
	gvCheck("only-the-method-is-called", gvSame(f, gvGet[reflect.Value]("c20.method", 0)))
	gvCheck("only-with-the-arguments-that-were-built", gvAnd(gvGet[bool]("c20.built", 0), gvSame(in, gvGet[[]reflect.Value]("c20.args", 0))))
	j := gvGet[int]("c20.j", 0)
	gvCheck("the-arguments-are-as-they-were-built", gvImp(gvAnd(0 <= j, j < len(in)), gvSame(gvElem(in, j), gvGet[reflect.Value]("c20.argj", 0))))
	gvCheck("called-once", gvGet[int]("c20.calls", 0) == 0)
	gvSet("c20.calls", 0, 1)
	return gvAny[[]reflect.Value]()
}

//govc:model (*loop).returnInvocationResult
func c20result__call(l *loop, m invocationMessage, r []reflect.Value) {}

//govc:model (HubConnection).Completion
func c20completion__call(h HubConnection, id string, result interface{}, text string) error {
	return gvAny[error]()
}

//govc:task C20 an-invocation-calls-its-method-once-with-its-arguments mode=call
func c20Call() {
	l, m := gvAny[*loop](), gvAny[invocationMessage]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.info != nil, l.dbg != nil)))
	gvAssume(gvAnd(gvAnd(l.streamer != nil, l.streamClient != nil), gvAnd(l.invokeClient != nil, l.protocol != nil)))
	gvSet("c20.l", 0, l)
	gvSet("c20.m", 0, m)
	gvSet("c20.calls", 0, 0)
	gvSet("c20.found", 0, false)
	gvSet("c20.built", 0, false)
	gvSet("c20.refused", 0, false)
	k, j := gvRigid[int](), gvRigid[int]()
	gvSet("c20.k", 0, k)
	gvSet("c20.j", 0, j)
	gvSet("c20.sent", 0, gvElem(m.Arguments, k))
	l.handleInvocationMessage(m)
	gvJoin()
	calls := gvGet[int]("c20.calls", 0)
	if gvGet[bool]("c20.refused", 0) {
		gvCheck("a-refused-invocation-calls-nothing", calls == 0)
		gvCover("refused")
		return
	}
	f := gvGet[reflect.Value]("c20.method", 0)
	if m.Type == 4 && f.Type().NumOut() != 1 {
		gvCheck("a-refused-invocation-calls-nothing", calls == 0)
		return
	}
	gvCheck("an-invocation-that-fits-calls-its-method", calls == 1)
	gvCover("called")
}

//govc:inv
func inv_c20sent__call() bool {
	m, k := gvGet[invocationMessage]("c20.m", 0), gvGet[int]("c20.k", 0)
	return gvImp(gvAnd(0 <= k, k < len(m.Arguments)), gvSame(gvElem(m.Arguments, k), gvGet[any]("c20.sent", 0)))
}

//govc:task C20 a-stream-argument-is-bound-to-its-id
func c20Channel() {
	c := gvAny[*streamClient]()
	gvAssume(c != nil)
	gvAssume(c.upstreamChannels != nil)
	m, t, n := gvAny[invocationMessage](), gvAny[reflect.Type](), gvAny[int]()
	gvAssume(t != nil)
	gvAssume(n >= 0)
	id, other := "", gvAny[string]()
	if n < len(m.StreamIds) {
		id = m.StreamIds[n]
		gvAssume(other != id)
	}
	was, had := c.upstreamChannels[other]
	arg, ok, err := c.buildChannelArgument(m, t, n)
	now, has := c.upstreamChannels[other]
	gvCheck("other-streams-are-unchanged", gvAnd(gvIff(had, has), gvImp(had, gvSame(was, now))))
	gvCheck("streams-are-for-channels-that-can-be-received-from", gvIff(ok, c20isChan(t)))
	gvCheck("only-channels-are-refused", gvOr(ok, err == nil))
	if ok && err == nil {
		gvCheck("there-is-a-stream-for-the-channel", n < len(m.StreamIds))
		bound, is := c.upstreamChannels[id]
		gvCheck("the-channel-is-bound-to-its-id", gvAnd(is, gvSame(bound, arg)))
		gvCheck("the-channel-has-the-element-type", gvSame(gvGet[reflect.Type]("mk.type", arg), reflect.ChanOf(reflect.BothDir, t.Elem())))
		gvCover("bound")
	}
	gvCover("returns")
}

//govc:model reflect.MakeChan
func c20makeChan(t reflect.Type, n int) reflect.Value {
	v := gvInj[reflect.Value]("rvChan", new(int))
	gvSet("mk.type", v, t)
	return v
}
