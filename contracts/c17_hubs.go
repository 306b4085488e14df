package signalr

import (
	"context"
	"reflect"
	"sync"
)

// C17: with a per-connection factory each connection has exactly one hub instance.
//
// The instances are s.connectionHubs; other connections may change their own entries whenever the table is not locked
// (interfere). id is the id of an arbitrary connection, k any other id. Ghost state: c17.has and c17.ent the entry of id,
// c17.made instances created for id, c17.init(h) initialized instances.

//govc:guarded server.connectionHubsMutex f:server.connectionHubs

//govc:hook onlock server.connectionHubsMutex
func on_c17lock__hubs(s *server) {
	id, k := gvGet[string]("c17.id", 0), gvGet[string]("c17.k", 0)
	gvAssume(s.connectionHubs != nil)
	h, ok := s.connectionHubs[id]
	gvAssume(gvIff(ok, gvGet[bool]("c17.has", 0)))
	gvAssume(gvImp(ok, h == gvGet[HubInterface]("c17.ent", 0)))
	hk, okk := s.connectionHubs[k]
	gvSet("c17.entk", 0, hk)
	gvSet("c17.hask", 0, okk)
}

//govc:hook onunlock server.connectionHubsMutex
func on_c17unlock__hubs(s *server) {
	gvCheck("the-table-exists", s.connectionHubs != nil)
	id, k := gvGet[string]("c17.id", 0), gvGet[string]("c17.k", 0)
	hk, okk := s.connectionHubs[k]
	gvCheck("other-connections-keep-their-hub", gvIff(okk, gvGet[bool]("c17.hask", 0)))
	gvCheck("other-connections-keep-the-same-hub", gvImp(okk, hk == gvGet[HubInterface]("c17.entk", 0)))
	h, ok := s.connectionHubs[id]
	gvCheck("only-the-own-hub-is-stored", gvImp(ok, h == gvGet[HubInterface]("c17.hub", 0)))
	gvSet("c17.has", 0, ok)
	gvSet("c17.ent", 0, h)
}

func c17id(h HubConnection) string { return gvPure[string]("connid", h) }

func c17hc() HubConnection { return gvGet[HubConnection]("c17.hc", 0) }

//govc:model (HubConnection).ConnectionID
func c17connID__hubs(h HubConnection) string { return c17id(h) }

//govc:model (HubConnection).Context
func c17context__hubs(h HubConnection) context.Context {
	return gvPure[context.Context]("conncontext", h)
}

//govc:model (HubConnection).Items
func c17items__hubs(h HubConnection) *sync.Map { return gvPure[*sync.Map]("connitems", h) }

//govc:model (HubConnection).Close
func c17close__hubs(h HubConnection, text string, reconnect bool) error {
	gvSet("c17.closed", 0, gvAnd(h == c17hc(), gvAnd(text == gvGet[string]("c17.text", 0), reconnect == gvGet[bool]("c17.reconnect", 0))))
	return gvGet[error]("c17.err", 0)
}

//govc:model (HubConnection).Abort
func c17abort__hubs(h HubConnection) { gvSet("c17.aborted", 0, h == c17hc()) }

//govc:model (HubLifetimeManager).OnConnected
func c17lmConnected__hubs(l HubLifetimeManager, h HubConnection) {
	gvCheck("the-connected-connection-is-announced", h == c17hc())
}

//govc:model (HubLifetimeManager).OnDisconnected
func c17lmDisconnected__hubs(l HubLifetimeManager, h HubConnection) {
	gvCheck("the-disconnected-connection-is-announced", h == c17hc())
}

//govc:model (HubLifetimeManager).InvokeClient
func c17lmInvoke__hubs(l HubLifetimeManager, id, target string, args []interface{}) {
	gvSet("c17.caller", 0, id)
}

//govc:model (HubInterface).Initialize
func c17init__hubs(h HubInterface, ctx HubContext) {
	gvCheck("a-hub-is-initialized-once", gvNot(gvGet[bool]("c17.init", h)))
	gvCheck("only-a-hub-of-the-own-connection-is-initialized", gvGet[bool]("c17.mine", h))
	gvSet("c17.init", h, true)
	gvCheck("initialized-with-a-context", ctx != nil)
	gvCheck("the-context-has-the-id-of-the-connection", ctx.ConnectionID() == c17id(c17hc()))
	gvCheck("the-context-has-the-items-of-the-connection", ctx.Items() == c17hc().Items())
	gvCheck("the-context-has-the-context-of-the-connection", ctx.Context() == c17hc().Context())
	gvSet("c17.aborted", 0, false)
	ctx.Abort()
	gvCheck("the-context-aborts-the-connection", gvGet[bool]("c17.aborted", 0))
	gvSet("c17.closed", 0, false)
	err := ctx.Close(gvGet[string]("c17.text", 0), gvGet[bool]("c17.reconnect", 0))
	gvCheck("the-context-closes-the-connection", gvAnd(gvGet[bool]("c17.closed", 0), err == gvGet[error]("c17.err", 0)))
	gvSet("c17.caller", 0, "")
	ctx.Clients().Caller().Send("target")
	gvCheck("the-caller-is-the-own-client", gvGet[string]("c17.caller", 0) == c17id(c17hc()))
	gvCheck("the-groups-are-those-of-the-server", ctx.Groups() == gvGet[*server]("c17.s", 0).groupManager)
}

//govc:model (HubInterface).OnConnected
func c17connected__hubs(h HubInterface, id string) {
	gvCheck("the-connected-callback-gets-the-id", id == c17id(c17hc()))
	gvCheck("the-connected-callback-runs-on-an-initialized-hub", gvGet[bool]("c17.init", h))
	gvCheck("the-connected-callback-runs-on-the-hub-of-the-connection", gvGet[bool]("c17.mine", h))
	gvSet("c17.connected", 0, gvGet[int]("c17.connected", 0)+1)
	c17mayPanic()
}

//govc:model (HubInterface).OnDisconnected
func c17disconnected__hubs(h HubInterface, id string) {
	gvCheck("the-disconnected-callback-gets-the-id", id == c17id(c17hc()))
	gvCheck("the-disconnected-callback-runs-on-an-initialized-hub", gvGet[bool]("c17.init", h))
	gvCheck("the-disconnected-callback-runs-on-the-hub-of-the-connection", gvGet[bool]("c17.mine", h))
	gvSet("c17.disconnected", 0, gvGet[int]("c17.disconnected", 0)+1)
	c17mayPanic()
}

func c17mayPanic() {
	if gvGet[bool]("c17.mayPanic", 0) && gvFork(2) == 1 {
		gvSet("c17.panicked", 0, true)
		p := gvAny[any]()
		gvAssume(p != nil)
		panic(p)
	}
}

// c17server is a server with a per-connection factory (or only with a hub factory) and an arbitrary table of instances.
func c17server(perConnection bool) (*server, HubConnection) {
	s, hc := gvAny[*server](), gvAny[HubConnection]()
	gvAssume(gvAnd(s != nil, hc != nil))
	gvAssume(gvAnd(gvAnd(s.info != nil, s.dbg != nil), s.connectionHubs != nil))
	gvAssume(gvAnd(gvAnd(s.lifetimeManager != nil, s.groupManager != nil), s.defaultHubClients != nil))
	gvAssume(s.defaultHubClients.lifetimeManager != nil)
	gvAssume(s.ctx != nil)
	s.cancelFunc = func() {}
	id, k := c17id(hc), gvRigid[string]()
	gvAssume(k != id)
	gvSet("c17.s", 0, s)
	gvSet("c17.hc", 0, hc)
	gvSet("c17.id", 0, id)
	gvSet("c17.k", 0, k)
	gvSet("c17.text", 0, gvAny[string]())
	gvSet("c17.reconnect", 0, gvAny[bool]())
	gvSet("c17.err", 0, gvAny[error]())
	gvSet("c17.made", 0, 0)
	gvSet("c17.connected", 0, 0)
	gvSet("c17.disconnected", 0, 0)
	gvSet("c17.panicked", 0, false)
	gvSet("c17.mayPanic", 0, false)
	s.perConnectionHubFactory = nil
	if perConnection {
		s.perConnectionHubFactory = func(connectionID string) HubInterface {
			gvCheck("the-factory-gets-the-id", connectionID == c17id(c17hc()))
			gvCheck("the-factory-is-not-called-for-a-connection-with-a-hub", gvNot(gvGet[bool]("c17.has", 0)))
			c17mayPanic()
			gvCheck("one-hub-is-created", gvGet[int]("c17.made", 0) == 0)
			h := gvInj[HubInterface]("hub", new(int))
			gvAssume(h != nil)
			gvSet("c17.made", 0, gvGet[int]("c17.made", 0)+1)
			gvSet("c17.init", h, false)
			gvSet("c17.mine", h, true)
			gvSet("c17.hub", 0, h)
			return h
		}
		// it replaces any hub factory
		s.newHub = func() HubInterface {
			gvCheck("only-the-per-connection-factory-is-used", false)
			return nil
		}
	} else {
		s.newHub = func() HubInterface {
			h := gvInj[HubInterface]("hub", new(int))
			gvAssume(h != nil)
			gvSet("c17.made", 0, gvGet[int]("c17.made", 0)+1)
			gvSet("c17.init", h, false)
			gvSet("c17.mine", h, true)
			return h
		}
	}
	return s, hc
}

//govc:task C17 a-connection-keeps-its-hub mode=hubs panics interfere
func c17Target() {
	s, hc := c17server(true)
	h, has := s.connectionHubs[c17id(hc)]
	gvSet("c17.has", 0, has)
	gvSet("c17.ent", 0, h)
	if has {
		gvAssume(h != nil)
		gvSet("c17.hub", 0, h)
		gvSet("c17.init", h, true)
		gvSet("c17.mine", h, true)
	}
	t := s.invocationTarget(hc)
	hub := gvGet[HubInterface]("c17.hub", 0)
	gvCheck("the-hub-of-the-connection-is-the-target", gvSame[any](t, hub))
	gvCheck("a-connection-with-hub-gets-no-other", gvImp(has, gvGet[int]("c17.made", 0) == 0))
	gvCheck("a-connection-without-hub-gets-one", gvOr(has, gvGet[int]("c17.made", 0) == 1))
	gvCheck("the-hub-is-initialized", gvGet[bool]("c17.init", hub))
	gvCheck("the-hub-is-remembered", gvAnd(gvGet[bool]("c17.has", 0), gvGet[HubInterface]("c17.ent", 0) == hub))
	gvCheck("the-same-target-again", gvSame[any](s.invocationTarget(hc), hub))
	gvCover("found")
}

//govc:task C17 one-hub-from-connect-to-disconnect mode=hubs panics interfere spawn=any
func c17Life() {
	s, hc := c17server(true)
	gvSet("c17.has", 0, false)
	gvSet("c17.mayPanic", 0, true)
	s.onConnected(hc)
	gvSet("c17.mayPanic", 0, false)
	if gvFork(2) == 1 {
		t := s.invocationTarget(hc)
		gvCheck("invocations-run-on-the-hub-of-the-connection", gvSame[any](t, gvGet[HubInterface]("c17.hub", 0)))
		gvCheck("invocations-run-on-an-initialized-hub", gvGet[bool]("c17.init", gvGet[HubInterface]("c17.hub", 0)))
	}
	gvSet("c17.mayPanic", 0, true)
	s.onDisconnected(hc)
	gvCheck("no-hub-is-kept", gvNot(gvGet[bool]("c17.has", 0)))
	gvJoin()
	gvCheck("no-hub-is-kept", gvNot(gvGet[bool]("c17.has", 0)))
	if gvGet[bool]("c17.panicked", 0) {
		gvCheck("at-most-one-hub", gvGet[int]("c17.made", 0) <= 1)
		gvCheck("callbacks-at-most-once", gvAnd(gvGet[int]("c17.connected", 0) <= 1, gvGet[int]("c17.disconnected", 0) <= 1))
		gvCover("panics")
		return
	}
	gvCheck("exactly-one-hub", gvGet[int]("c17.made", 0) == 1)
	gvCheck("connected-once", gvGet[int]("c17.connected", 0) == 1)
	gvCheck("disconnected-once", gvGet[int]("c17.disconnected", 0) == 1)
	gvCover("life")
}

//govc:task C17 logging-creates-no-hub mode=hubs panics interfere
func c17Log() {
	s, hc := c17server(true)
	h, has := s.connectionHubs[c17id(hc)]
	gvSet("c17.has", 0, has)
	gvSet("c17.ent", 0, h)
	gvSet("c17.hub", 0, h)
	gvSet("c17.init", h, true)
	if gvFork(2) == 0 {
		s.prefixLoggers(c17id(hc))
	} else {
		s.prefixLoggers("")
	}
	gvCheck("no-hub-is-created", gvGet[int]("c17.made", 0) == 0)
	gvCheck("the-hub-stays", gvAnd(gvIff(gvGet[bool]("c17.has", 0), has), gvImp(has, gvGet[HubInterface]("c17.ent", 0) == h)))
	gvCover("logs")
}

//govc:task C17 without-factory-every-target-is-a-new-hub mode=hubs panics interfere spawn=any
func c17Transient() {
	s, hc := c17server(false)
	gvSet("c17.has", 0, false)
	t := s.invocationTarget(hc)
	h, ok := t.(HubInterface)
	gvCheck("the-target-is-a-new-hub", gvAnd(ok, gvGet[bool]("c17.mine", h)))
	gvCheck("the-hub-is-initialized", gvGet[bool]("c17.init", h))
	gvSet("c17.mayPanic", 0, true)
	s.onConnected(hc)
	s.onDisconnected(hc)
	gvJoin()
	if !gvGet[bool]("c17.panicked", 0) {
		gvCheck("connected-once", gvGet[int]("c17.connected", 0) == 1)
		gvCheck("disconnected-once", gvGet[int]("c17.disconnected", 0) == 1)
		gvCover("life")
	}
	gvCheck("no-hub-is-kept", gvNot(gvGet[bool]("c17.has", 0)))
}

// ---- invocations get their hub on the message loop, before the connection can be disconnected ----

//govc:model (Party).invocationTarget
func c17target__when(p Party, hc HubConnection) interface{} {
	l := gvGet[*loop]("c17.l", 0)
	gvCheck("the-target-of-the-own-connection", gvAnd(p == l.party, hc == l.hubConn))
	gvCheck("the-hub-is-fetched-on-the-message-loop", gvNot(gvGet[bool]("c17.returned", 0)))
	t := gvAny[any]()
	gvSet("c17.target", 0, t)
	gvSet("c17.targets", 0, gvGet[int]("c17.targets", 0)+1)
	return t
}

//govc:model getMethod
func c17getMethod__when(target interface{}, name string) (reflect.Value, bool) {
	gvCheck("a-method-of-the-hub", gvAnd(gvGet[int]("c17.targets", 0) >= 1, gvSame(target, gvGet[any]("c17.target", 0))))
	m := gvAny[reflect.Value]()
	gvSet("c17.method", 0, m)
	return m, gvAny[bool]()
}

//govc:model buildMethodArguments
func c17args__when(method reflect.Value, m invocationMessage, c *streamClient, p hubProtocol) ([]reflect.Value, error) {
	return gvAny[[]reflect.Value](), gvAny[error]()
}

//govc:model (reflect.Value).Call|(reflect.Value).CallSlice
func c17call__when(f reflect.Value, in []reflect.Value) []reflect.Value {
	gvCheck("only-methods-of-the-hub-are-called", gvSame(f, gvGet[reflect.Value]("c17.method", 0)))
	gvCover("called")
	return gvAny[[]reflect.Value]()
}

//govc:model (*loop).returnInvocationResult
func c17result__when(l *loop, m invocationMessage, r []reflect.Value) {}

//govc:task C17 an-invocation-runs-on-the-hub-of-the-time-it-was-received mode=when spawn=late
func c17When() {
	l, m := gvAny[*loop](), gvAny[invocationMessage]()
	gvAssume(l != nil)
	gvAssume(gvAnd(gvAnd(l.party != nil, l.hubConn != nil), gvAnd(l.info != nil, l.dbg != nil)))
	gvAssume(gvAnd(gvAnd(l.streamer != nil, l.streamClient != nil), gvAnd(l.invokeClient != nil, l.protocol != nil)))
	gvSet("c17.l", 0, l)
	gvSet("c17.targets", 0, 0)
	gvSet("c17.returned", 0, false)
	l.handleInvocationMessage(m)
	gvSet("c17.returned", 0, true)
	gvJoin()
	gvCover("returns")
}

// ---- a hub embedding Hub works with the context it was initialized with ----

//govc:model (HubContext).Clients
func c17cClients__base(c HubContext) HubClients { return gvPure[HubClients]("ctx.clients", c) }

//govc:model (HubContext).Groups
func c17cGroups__base(c HubContext) GroupManager { return gvPure[GroupManager]("ctx.groups", c) }

//govc:model (HubContext).Items
func c17cItems__base(c HubContext) *sync.Map { return gvPure[*sync.Map]("ctx.items", c) }

//govc:model (HubContext).ConnectionID
func c17cID__base(c HubContext) string { return gvPure[string]("ctx.id", c) }

//govc:model (HubContext).Context
func c17cContext__base(c HubContext) context.Context {
	return gvPure[context.Context]("ctx.context", c)
}

//govc:model (HubContext).Abort
func c17cAbort__base(c HubContext) {
	gvSet("ctx.aborts", c, gvGet[int]("ctx.aborts", c)+1)
}

//govc:model (HubContext).Close
func c17cClose__base(c HubContext, text string, reconnect bool) error {
	gvSet("ctx.closes", c, gvGet[int]("ctx.closes", c)+1)
	return gvPure[error]("ctx.close", c, text, reconnect)
}

//govc:task C17 a-hub-works-with-its-context mode=base
func c17Base() {
	h, c := gvAny[*Hub](), gvAny[HubContext]()
	gvAssume(gvAnd(h != nil, c != nil))
	gvSet("ctx.aborts", c, 0)
	gvSet("ctx.closes", c, 0)
	text, reconnect := gvAny[string](), gvAny[bool]()
	h.Initialize(c)
	gvCheck("id-of-the-context", h.ConnectionID() == c.ConnectionID())
	gvCheck("items-of-the-context", h.Items() == c.Items())
	gvCheck("clients-of-the-context", h.Clients() == c.Clients())
	gvCheck("groups-of-the-context", h.Groups() == c.Groups())
	gvCheck("context-of-the-context", h.Context() == c.Context())
	gvCheck("nothing-is-aborted", gvAnd(gvGet[int]("ctx.aborts", c) == 0, gvGet[int]("ctx.closes", c) == 0))
	h.Abort()
	gvCheck("aborts-the-own-connection", gvAnd(gvGet[int]("ctx.aborts", c) == 1, gvGet[int]("ctx.closes", c) == 0))
	err := h.Close(text, reconnect)
	gvCheck("closes-the-own-connection", gvAnd(gvGet[int]("ctx.closes", c) == 1, err == gvPure[error]("ctx.close", c, text, reconnect)))
	gvCover("returns")
}
