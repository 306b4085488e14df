package signalr

import (
	"context"
	"sync"
)

// C12: messages reach exactly the addressed connections; groups follow membership.
//
// h0 is a rigid, i.e. arbitrary, connection and k0 its id; c0 counts the messages sent to it. What is proved
// for h0 therefore holds for every connection.
// Entry invariants (assumed when an entry is read, checked where one is written): an entry of a group or of the table of
// clients is a connection stored under its own id, an entry of the table of groups is a group stored under its own name.
// Rely (tasks without norely): at any step others may connect or disconnect one client, and whenever a group is not
// locked they may change its members (interfere).

//govc:guarded groupMap.mu f:groupMap.members
//govc:closed f:groupMap.members

func c12id(h HubConnection) string { return gvPure[string]("connid", h) }

//govc:model (HubConnection).ConnectionID
func c12modelID(h HubConnection) string { return c12id(h) }

//govc:model (HubConnection).SendInvocation
func c12modelSend__mgr(h HubConnection, id, target string, args []interface{}) error {
	gvCheck("no-invocation-id", id == "")
	gvCheck("target-is-unchanged", target == gvGet[string]("c12.target", 0))
	gvCheck("arguments-are-unchanged", gvSame(args, gvGet[[]interface{}]("c12.args", 0)))
	if h == gvGet[HubConnection]("c12.h0", 0) {
		gvCheck("sent-at-most-once", gvGet[int]("c12.c0", 0) == 0)
		gvSet("c12.c0", 0, gvGet[int]("c12.c0", 0)+1)
	}
	if gvFork(2) == 0 {
		return nil
	}
	return gvAny[error]()
}

// ---- entry invariants ----

//govc:hook onmapread map[string]HubConnection
func on_c12read__mgr(m map[string]HubConnection, k string, v HubConnection) {
	gvAssume(v != nil)
	gvAssume(c12id(v) == k)
}

//govc:hook onmapwrite map[string]HubConnection
func on_c12write__mgr(m map[string]HubConnection, k string, v HubConnection) {
	gvCheck("entry-is-a-connection", v != nil)
	gvCheck("stored-under-its-own-id", c12id(v) == k)
	gvCheck("only-adding-adds", gvGet[bool]("c12.adding", 0))
	gvCheck("only-a-client-found-connected-is-added", gvGet[bool]("c12.seen", k))
	gvSet("c12.unconfirmed", 0, true)
}

func c12name(g *groupMap) string { return gvGet[string]("group.name", g) }

func c12clientInv(k any, v any) string {
	h, ok := v.(HubConnection)
	gvAssume(ok)
	gvAssume(h != nil)
	s, isstr := k.(string)
	gvAssume(isstr)
	gvAssume(c12id(h) == s)
	return s
}

func c12groupInv(k any, v any) *groupMap {
	g, ok := v.(*groupMap)
	gvAssume(ok)
	gvAssume(g != nil)
	s, isstr := k.(string)
	gvAssume(isstr)
	gvAssume(c12name(g) == s)
	return g
}

//govc:hook onsmload
func on_c12load__mgr(m *sync.Map, k any, v any) {
	d := gvGet[*defaultHubLifetimeManager]("c12.d", 0)
	if m == &d.clients {
		s := c12clientInv(k, v)
		gvSet("c12.seen", s, true)
		if s == gvGet[string]("c12.cid", 0) {
			gvSet("c12.unconfirmed", 0, false)
		}
		return
	}
	if m == &d.groups {
		c12groupInv(k, v)
	}
}

//govc:hook onsmstore
func on_c12store__mgr(m *sync.Map, k any, v any) {
	d := gvGet[*defaultHubLifetimeManager]("c12.d", 0)
	s, isstr := k.(string)
	gvCheck("keys-are-strings", isstr)
	if m == &d.clients {
		gvCheck("only-connecting-registers-clients", gvGet[bool]("c12.connecting", 0))
		h, ok := v.(HubConnection)
		gvCheck("entry-is-a-connection", gvAnd(ok, v != nil))
		gvCheck("stored-under-its-own-id", c12id(h) == s)
		return
	}
	gvCheck("known-table", m == &d.groups)
	gvCheck("only-adding-makes-groups", gvGet[bool]("c12.adding", 0))
	gvCheck("only-the-named-group-is-made", s == gvGet[string]("c12.group", 0))
	g, ok := v.(*groupMap)
	gvCheck("entry-is-a-group", ok)
	gvCheck("entry-is-a-group", g != nil)
	gvCheck("group-has-members", g.members != nil)
	gvCheck("group-is-made-once", gvAnd(gvAllocated(g), gvGet[int]("c12.made", 0) == 0))
	_, has := g.members[gvRigid[string]()]
	gvCheck("new-group-is-empty", gvNot(has))
	gvSet("c12.made", 0, 1)
	gvSet("group.name", g, s)
}

//govc:hook onsmdelete
func on_c12smdelete__mgr(m *sync.Map, k any, v any) {
	d := gvGet[*defaultHubLifetimeManager]("c12.d", 0)
	gvCheck("groups-stay", m == &d.clients)
	gvCheck("only-disconnecting-removes-clients", gvGet[bool]("c12.disconnecting", 0))
	gvCheck("only-that-client-is-removed", gvSame[any](k, gvGet[string]("c12.cid", 0)))
	gvSet("c12.deleted", 0, true)
	gvSet("c12.cleaned", 0, false)
	v, ok := d.groups.Load(gvGet[string]("c12.gname", 0))
	gvSet("c12.had", 0, ok)
	if ok {
		gvSet("c12.gm", 0, c12groupInv(gvGet[string]("c12.gname", 0), v))
	}
}

//govc:hook onlock groupMap.mu
func on_c12lock__mgr(g *groupMap) {
	gvAssume(g.members != nil)
	h, ok := g.members[gvGet[string]("c12.k", 0)]
	gvSet("lk.had", 0, ok)
	gvSet("lk.h", 0, h)
	h, ok = g.members[gvGet[string]("c12.cid", 0)]
	gvSet("lk.chad", 0, ok)
	gvSet("lk.ch", 0, h)
	if c12name(g) == gvGet[string]("c12.gname", 0) {
		_, ok = g.members[c12id(gvGet[HubConnection]("c12.h0", 0))]
		in := gvAnd(ok, g.members[c12id(gvGet[HubConnection]("c12.h0", 0))] == gvGet[HubConnection]("c12.h0", 0))
		gvSet("c12.ever", 0, gvOr(in, gvGet[bool]("c12.ever", 0)))
		gvSet("c12.always", 0, gvAnd(in, gvGet[bool]("c12.always", 0)))
		gvSet("c12.locks", 0, gvGet[int]("c12.locks", 0)+1)
	}
}

//govc:hook onunlock groupMap.mu
func on_c12unlock__mgr(g *groupMap) {
	gvCheck("group-has-members", g.members != nil)
	h, ok := g.members[gvGet[string]("c12.k", 0)]
	gvCheck("other-connections-stay", gvIff(ok, gvGet[bool]("lk.had", 0)))
	gvCheck("other-connections-stay-the-same", gvImp(ok, h == gvGet[HubConnection]("lk.h", 0)))
	h, ok = g.members[gvGet[string]("c12.cid", 0)]
	if !gvGet[bool]("c12.disconnecting", 0) && c12name(g) != gvGet[string]("c12.group", 0) {
		gvCheck("other-groups-stay", gvIff(ok, gvGet[bool]("lk.chad", 0)))
		gvCheck("other-groups-stay-the-same", gvImp(ok, h == gvGet[HubConnection]("lk.ch", 0)))
	}
	if !ok {
		gvSet("c12.unconfirmed", 0, false)
	}
	if gvGet[bool]("c12.deleted", 0) && gvGet[bool]("c12.had", 0) && g == gvGet[*groupMap]("c12.gm", 0) {
		gvSet("c12.cleaned", 0, gvNot(ok))
	}
}

//govc:rely
func c12rely() {
	d := gvGet[*defaultHubLifetimeManager]("c12.d", 0)
	if d == nil {
		return
	}
	gvHavocSM(&d.clients, any(gvGet[string]("c12.cid", 0)))
}

func c12manager(cid string) *defaultHubLifetimeManager {
	d := gvAny[*defaultHubLifetimeManager]()
	gvAssume(d != nil)
	h0 := gvRigid[HubConnection]()
	gvAssume(h0 != nil)
	gvAssume(c12id(h0) == gvRigid[string]())
	gvSet("c12.h0", 0, h0)
	gvSet("c12.c0", 0, 0)
	gvSet("c12.cid", 0, cid)
	k := gvRigid[string]()
	gvAssume(k != cid)
	gvSet("c12.k", 0, k)
	gvSet("c12.d", 0, d)
	gvSet("c12.gname", 0, gvRigid[string]())
	gvSet("c12.adding", 0, false)
	gvSet("c12.connecting", 0, false)
	gvSet("c12.disconnecting", 0, false)
	gvSet("c12.deleted", 0, false)
	gvSet("c12.had", 0, false)
	gvSet("c12.unconfirmed", 0, false)
	gvSet("c12.seen", cid, false)
	gvSet("c12.seen", k, false)
	gvSet("c12.made", 0, 0)
	gvSet("c12.ever", 0, false)
	gvSet("c12.always", 0, true)
	gvSet("c12.locks", 0, 0)
	gvSet("c12.n", 0, 0)
	gvSet("c12.pos", 0, -1)
	return d
}

// ---- membership ----

//govc:task C12 add-changes-one-group-and-connection mode=mgr interfere panics
func c12Add() {
	cid, group := gvAny[string](), gvAny[string]()
	d := c12manager(cid)
	gvSet("c12.adding", 0, true)
	gvSet("c12.group", 0, group)
	d.AddToGroup(group, cid)
	gvCheck("a-member-was-still-connected-after-it-was-added", gvNot(gvGet[bool]("c12.unconfirmed", 0)))
	gvCheck("nothing-is-sent", gvGet[int]("c12.c0", 0) == 0)
	gvCover("returns")
}

//govc:task C12 add-adds-a-connected-client mode=mgr norely panics
func c12AddSeq() {
	cid, group := gvAny[string](), gvAny[string]()
	d := c12manager(cid)
	gvSet("c12.adding", 0, true)
	gvSet("c12.group", 0, group)
	v, ok := d.clients.Load(cid)
	_, hadg := d.groups.Load(group)
	d.AddToGroup(group, cid)
	x, is := d.groups.Load(group)
	if !ok {
		gvCheck("only-connected-clients-make-groups", gvIff(is, hadg))
		gvCover("not connected")
		return
	}
	gvCheck("group-exists", is)
	h, in := x.(*groupMap).members[cid]
	gvCheck("client-is-a-member", in)
	gvCheck("member-is-the-connection-of-the-client", gvSame[any](h, v))
	gvCover("connected")
}

//govc:task C12 remove-changes-one-group-and-connection mode=mgr interfere panics
func c12Remove() {
	cid, group := gvAny[string](), gvAny[string]()
	d := c12manager(cid)
	gvSet("c12.group", 0, group)
	d.RemoveFromGroup(group, cid)
	gvCheck("nothing-is-sent", gvGet[int]("c12.c0", 0) == 0)
	gvCover("returns")
}

//govc:task C12 remove-removes-the-client mode=mgr norely panics
func c12RemoveSeq() {
	cid, group := gvAny[string](), gvAny[string]()
	d := c12manager(cid)
	gvSet("c12.group", 0, group)
	x, is := d.groups.Load(group)
	if is {
		gvAssume(x.(*groupMap).members != nil)
	}
	d.RemoveFromGroup(group, cid)
	if is {
		_, in := x.(*groupMap).members[cid]
		gvCheck("client-is-no-member", gvNot(in))
		gvCover("group exists")
	}
	gvCover("returns")
}

//govc:task C12 connect-registers-one-client mode=mgr norely panics
func c12Connect() {
	h := gvAny[HubConnection]()
	gvAssume(h != nil)
	cid := c12id(h)
	d := c12manager(cid)
	gvSet("c12.connecting", 0, true)
	k := gvGet[string]("c12.k", 0)
	v0, ok0 := d.clients.Load(k)
	d.OnConnected(h)
	v, ok := d.clients.Load(cid)
	gvCheck("client-is-registered", gvAnd(ok, gvSame[any](v, h)))
	v1, ok1 := d.clients.Load(k)
	gvCheck("other-clients-stay", gvAnd(gvIff(ok0, ok1), gvSame(v0, v1)))
	gvCheck("nothing-is-sent", gvGet[int]("c12.c0", 0) == 0)
	gvCover("returns")
}

//govc:task C12 disconnect-leaves-all-groups mode=mgr interfere panics norely
func c12Disconnect() {
	h := gvAny[HubConnection]()
	gvAssume(h != nil)
	cid := c12id(h)
	d := c12manager(cid)
	gvSet("c12.disconnecting", 0, true)
	gvSet("rigid.key", 0, any(gvGet[string]("c12.gname", 0)))
	k := gvGet[string]("c12.k", 0)
	v0, ok0 := d.clients.Load(k)
	d.OnDisconnected(h)
	_, ok := d.clients.Load(cid)
	gvCheck("client-is-forgotten", gvAnd(gvNot(ok), gvGet[bool]("c12.deleted", 0)))
	v1, ok1 := d.clients.Load(k)
	gvCheck("other-clients-stay", gvAnd(gvIff(ok0, ok1), gvSame(v0, v1)))
	gvCheck("left-every-group-after-it-was-forgotten", gvImp(gvGet[bool]("c12.had", 0), gvGet[bool]("c12.cleaned", 0)))
	gvCheck("nothing-is-sent", gvGet[int]("c12.c0", 0) == 0)
	gvCover("returns")
}

//govc:inv
func inv_c12cleaned(it *int) bool {
	return gvImp(gvAnd(gvGet[bool]("c12.had", 0), gvGet[bool]("sm.visited", gvKey(it, gvGet[any]("rigid.key", 0)))),
		gvGet[bool]("c12.cleaned", 0))
}

// ---- sending ----

func c12message() (string, []interface{}) {
	t, a := gvAny[string](), gvAny[[]interface{}]()
	gvSet("c12.target", 0, t)
	gvSet("c12.args", 0, a)
	return t, a
}

//govc:inv
func inv_c12all(it *int) bool {
	h0 := gvGet[HubConnection]("c12.h0", 0)
	return gvIff(gvGet[int]("c12.c0", 0) == 1, gvAnd(gvGet[bool]("sm.visited", gvKey(it, any(c12id(h0)))), gvGet[bool]("c12.is", 0)))
}

//govc:inv
func inv_c12count() bool {
	n := gvGet[int]("c12.c0", 0)
	return gvAnd(0 <= n, n <= 1)
}

//govc:task C12 all-reaches-every-client-once mode=mgr norely
func c12All() {
	d := c12manager(gvAny[string]())
	h0 := gvGet[HubConnection]("c12.h0", 0)
	gvSet("rigid.key", 0, any(c12id(h0)))
	v, ok := d.clients.Load(c12id(h0))
	gvSet("c12.is", 0, gvAnd(ok, gvSame[any](v, h0)))
	t, a := c12message()
	d.InvokeAll(t, a)
	gvCheck("sent-to-exactly-the-clients", gvIff(gvGet[int]("c12.c0", 0) == 1, gvGet[bool]("c12.is", 0)))
	gvCover("returns")
}

//govc:task C12 client-reaches-only-that-client mode=mgr norely panics
func c12Client() {
	cid := gvAny[string]()
	d := c12manager(cid)
	h0 := gvGet[HubConnection]("c12.h0", 0)
	v, ok := d.clients.Load(cid)
	is := gvAnd(ok, gvSame[any](v, h0))
	t, a := c12message()
	d.InvokeClient(cid, t, a)
	gvCheck("sent-to-exactly-that-client", gvIff(gvGet[int]("c12.c0", 0) == 1, is))
	gvCover("returns")
}

//govc:task C12 group-reaches-exactly-its-members mode=mgr interfere norely
func c12Group() {
	d := c12manager(gvAny[string]())
	gname := gvGet[string]("c12.gname", 0)
	gvSet("c12.group", 0, gname)
	_, is := d.groups.Load(gname)
	t, a := c12message()
	d.InvokeGroup(gname, t, a)
	sent := gvGet[int]("c12.c0", 0) == 1
	gvCheck("members-of-an-existing-group-are-looked-up", gvIff(is, gvGet[int]("c12.locks", 0) >= 1))
	gvCheck("only-members-are-reached", gvImp(sent, gvGet[bool]("c12.ever", 0)))
	gvCheck("every-member-is-reached", gvImp(gvAnd(is, gvGet[bool]("c12.always", 0)), sent))
	if sent {
		gvCover("member")
	}
	gvCover("returns")
}

// Where h0 stands in a list of connections: c12.pos is the place it was last appended at, c12.n how often that happened.

//govc:hook onappend HubConnection
func on_c12append__mgr(s []HubConnection, v HubConnection) {
	if v == gvGet[HubConnection]("c12.h0", 0) {
		gvSet("c12.pos", 0, len(s))
		gvSet("c12.n", 0, gvGet[int]("c12.n", 0)+1)
	}
}

//govc:hook onelemset HubConnection
func on_c12elemset__mgr(s []HubConnection, i int, v HubConnection) {
	if v == gvGet[HubConnection]("c12.h0", 0) {
		gvSet("c12.pos", 0, i)
		gvSet("c12.n", 0, gvGet[int]("c12.n", 0)+1)
	}
}

//govc:inv
func inv_c12list(s []HubConnection) bool {
	n, p, h0 := gvGet[int]("c12.n", 0), gvGet[int]("c12.pos", 0), gvGet[HubConnection]("c12.h0", 0)
	return gvAnd(gvAnd(0 <= n, n <= 1), gvImp(n == 1, gvAnd(gvAnd(0 <= p, p < len(s)), gvElem(s, p) == h0)))
}

//govc:inv
func inv_c12once(s []HubConnection, every int) bool {
	n, p, h0 := gvGet[int]("c12.n", 0), gvGet[int]("c12.pos", 0), gvGet[HubConnection]("c12.h0", 0)
	return gvImp(gvAnd(gvAnd(0 <= every, every < len(s)), gvElem(s, every) == h0), gvAnd(n == 1, every == p))
}

//govc:inv
func inv_c12unset(s []HubConnection, i int, every int) bool {
	return gvImp(gvAnd(i <= every, every < len(s)), gvElem(s, every) == nil)
}

//govc:inv
func inv_c12posbelow(i int) bool {
	return gvImp(gvGet[int]("c12.n", 0) == 1, gvGet[int]("c12.pos", 0) < i)
}

//govc:inv
func inv_c12listed() bool {
	return gvIff(gvGet[int]("c12.n", 0) == 1, gvAnd(gvVisited(c12id(gvGet[HubConnection]("c12.h0", 0))), gvGet[bool]("c12.ever", 0)))
}

//govc:inv
func inv_c12sent() bool {
	return gvIff(gvGet[int]("c12.c0", 0) == 1, gvAnd(gvVisited(c12id(gvGet[HubConnection]("c12.h0", 0))), gvGet[bool]("c12.ever", 0)))
}

//govc:inv
func inv_c12sentat(i int) bool {
	return gvIff(gvGet[int]("c12.c0", 0) == 1, gvAnd(gvGet[int]("c12.n", 0) == 1, gvGet[int]("c12.pos", 0) <= i))
}

//govc:inv
func inv_c12sentbelow(i int) bool {
	return gvIff(gvGet[int]("c12.c0", 0) == 1, gvAnd(gvGet[int]("c12.n", 0) == 1, gvGet[int]("c12.pos", 0) < i))
}

var _ context.Context

// ---- from the hub to the lifetime manager ----

func c12called(what int, name, target string, args []interface{}) {
	gvSet("lm.calls", 0, gvGet[int]("lm.calls", 0)+1)
	gvSet("lm.what", 0, what)
	gvSet("lm.name", 0, name)
	gvSet("lm.target", 0, target)
	gvSet("lm.args", 0, args)
}

//govc:model (HubLifetimeManager).InvokeAll
func c12lmAll__fwd(m HubLifetimeManager, target string, args []interface{}) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	c12called(0, "", target, args)
}

//govc:model (HubLifetimeManager).InvokeClient
func c12lmClient__fwd(m HubLifetimeManager, id string, target string, args []interface{}) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	c12called(1, id, target, args)
}

//govc:model (HubLifetimeManager).InvokeGroup
func c12lmGroup__fwd(m HubLifetimeManager, group string, target string, args []interface{}) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	c12called(2, group, target, args)
}

//govc:model (HubLifetimeManager).AddToGroup
func c12lmAdd__fwd(m HubLifetimeManager, group, id string) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	c12called(3, group, id, nil)
}

//govc:model (HubLifetimeManager).RemoveFromGroup
func c12lmRemove__fwd(m HubLifetimeManager, group, id string) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	c12called(4, group, id, nil)
}

//govc:model (HubLifetimeManager).OnConnected
func c12lmConnected__fwd(m HubLifetimeManager, conn HubConnection) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	gvCheck("the-connection-is-passed", conn == gvGet[HubConnection]("lm.conn", 0))
	c12called(5, "", "", nil)
}

//govc:model (HubLifetimeManager).OnDisconnected
func c12lmDisconnected__fwd(m HubLifetimeManager, conn HubConnection) {
	gvCheck("the-lifetime-manager-of-the-server-is-called", m == gvGet[HubLifetimeManager]("lm", 0))
	gvCheck("the-connection-is-passed", conn == gvGet[HubConnection]("lm.conn", 0))
	c12called(6, "", "", nil)
}

// c12server is a server as NewServer makes it, with any lifetime manager an option installed.
func c12server() *server {
	lm := gvAny[HubLifetimeManager]()
	gvAssume(lm != nil)
	gvSet("lm", 0, lm)
	gvSet("lm.calls", 0, 0)
	hub := gvAny[func() HubInterface]()
	s, err := NewServer(gvAny[context.Context](), func(p Party) error {
		p.(*server).lifetimeManager = lm
		p.(*server).newHub = hub
		return nil
	})
	gvAssume(err == nil)
	return s.(*server)
}

//govc:task C12 hub-calls-reach-the-lifetime-manager-unchanged mode=fwd panics
func c12Forward() {
	s := c12server()
	conn := gvAny[HubConnection]()
	gvAssume(conn != nil)
	h := &Hub{}
	h.Initialize(s.newConnectionHubContext(conn))
	target, args, name := gvAny[string](), gvAny[[]interface{}](), gvAny[string]()
	what := 0
	var clients HubClients = s.HubClients()
	if gvFork(2) == 0 {
		clients = h.Clients()
	}
	var p ClientProxy
	k := gvFork(6)
	switch k {
	case 0:
		what, name = 0, ""
		p = clients.All()
	case 1:
		what = 1
		p = clients.Client(name)
	case 2:
		what = 2
		p = clients.Group(name)
	case 3:
		what, args = 3, nil
		h.Groups().AddToGroup(name, target)
	case 4:
		what, args = 4, nil
		h.Groups().RemoveFromGroup(name, target)
	case 5:
		what, name = 1, c12id(conn)
		p = h.Clients().Caller()
	}
	if k < 3 || k == 5 {
		// a proxy keeps its addressee whatever other proxies are made
		h.Clients().Group(gvAny[string]())
		h.Clients().Client(gvAny[string]())
		h.Clients().Caller()
		s.HubClients().Group(gvAny[string]())
		s.HubClients().Client(gvAny[string]())
		p.Send(target, args...)
	}
	gvCheck("called-exactly-once", gvGet[int]("lm.calls", 0) == 1)
	gvCheck("the-addressed-operation-is-called", gvGet[int]("lm.what", 0) == what)
	gvCheck("the-addressee-is-unchanged", gvGet[string]("lm.name", 0) == name)
	gvCheck("target-is-unchanged", gvGet[string]("lm.target", 0) == target)
	gvCheck("arguments-are-unchanged", gvSame(args, gvGet[[]interface{}]("lm.args", 0)))
	gvCover("returns")
}

//govc:model (HubInterface).OnConnected|(HubInterface).OnDisconnected
func c12hubEvent__fwd(h HubInterface, id string) {}

//govc:task C12 connections-are-registered-and-removed mode=fwd spawn=separate
func c12Lifecycle() {
	s := c12server()
	conn := gvAny[HubConnection]()
	gvAssume(conn != nil)
	gvSet("lm.conn", 0, conn)
	what := 5
	if gvFork(2) == 0 {
		s.onConnected(conn)
	} else {
		what = 6
		s.onDisconnected(conn)
	}
	gvCheck("called-exactly-once", gvGet[int]("lm.calls", 0) == 1)
	gvCheck("the-addressed-operation-is-called", gvGet[int]("lm.what", 0) == what)
	gvCover("returns")
}
