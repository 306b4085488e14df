package signalr

import (
	"context"
	"net/http"
	"net/url"
	"time"

	"github.com/cenkalti/backoff/v4"
)

// C23: options store exactly the given value, or return an error and change nothing.
//
// The parties are arbitrary: the whole party is compared with what it was before, with the given value in its place.

func c23server() *server {
	s := gvAny[*server]()
	gvAssume(s != nil)
	gvAssume(s.methodNamesByAlternateName != nil)
	return s
}

func c23client() *client {
	c := gvAny[*client]()
	gvAssume(c != nil)
	gvAssume(c.methodNamesByAlternateName != nil)
	return c
}

// c23apply applies an option to an arbitrary server and an arbitrary client. value is the party with the given value in
// place. ok: is the value valid for servers, for clients?
func c23apply(option func(Party) error, okServer, okClient bool, server_ func(want *server), client_ func(want *client)) {
	gvCheck("an-option-is-returned", option != nil)
	if gvFork(2) == 0 {
		s := c23server()
		want := *s
		if okServer {
			server_(&want)
		}
		err := option(s)
		gvCheck("exactly-the-given-value-is-stored", gvSame(*s, want))
		gvCheck("only-invalid-options-are-refused", gvIff(err == nil, okServer))
		gvCover("server")
		return
	}
	c := c23client()
	want := *c
	if okClient {
		client_(&want)
	}
	err := option(c)
	gvCheck("exactly-the-given-value-is-stored", gvSame(*c, want))
	gvCheck("only-invalid-options-are-refused", gvIff(err == nil, okClient))
	gvCover("client")
}

// c23party is c23apply for options of both kinds of party
func c23party(option func(Party) error, ok bool, set func(want *partyBase)) {
	c23apply(option, ok, ok, func(want *server) { set(&want.partyBase) }, func(want *client) { set(&want.partyBase) })
}

//govc:task C23 options-of-both-parties panics
func c23Both() {
	d := gvAny[time.Duration]()
	n := gvAny[uint]()
	b := gvAny[bool]()
	l := gvAny[[]string]()
	switch gvFork(10) {
	case 0:
		c23party(TimeoutInterval(d), true, func(p *partyBase) { p._timeout = d })
	case 1:
		c23party(HandshakeTimeout(d), true, func(p *partyBase) { p._handshakeTimeout = d })
	case 2:
		c23party(KeepAliveInterval(d), true, func(p *partyBase) { p._keepAliveInterval = d })
	case 3:
		c23party(StreamBufferCapacity(n), n > 0, func(p *partyBase) { p._streamBufferCapacity = n })
	case 4:
		c23party(MaxConcurrentStreams(n), true, func(p *partyBase) { p._maxConcurrentStreams = n })
	case 5:
		c23party(MaximumReceiveMessageSize(n), n > 0, func(p *partyBase) { p._maximumReceiveMessageSize = n })
	case 6:
		c23party(ChanReceiveTimeout(d), true, func(p *partyBase) { p._chanReceiveTimeout = d })
	case 7:
		c23party(EnableDetailedErrors(b), true, func(p *partyBase) { p._enableDetailedErrors = b })
	case 8:
		c23party(InsecureSkipVerify(b), true, func(p *partyBase) { p._insecureSkipVerify = b })
	case 9:
		c23party(AllowOriginPatterns(l), true, func(p *partyBase) { p._originPatterns = l })
	}
}

//govc:task C23 alternate-method-names panics
func c23Alternate() {
	method, alternate, k := gvAny[string](), gvAny[string](), gvAny[string]()
	var p *partyBase
	var party Party
	if gvFork(2) == 0 {
		s := c23server()
		p, party = &s.partyBase, s
	} else {
		c := c23client()
		p, party = &c.partyBase, c
	}
	want := *p
	old, was := p.methodNamesByAlternateName[k]
	err := WithAlternateMethodName(method, alternate)(party)
	gvCheck("the-option-is-valid", err == nil)
	gvCheck("nothing-else-is-changed", gvSame(*p, want))
	now, is := p.methodNamesByAlternateName[k]
	gvCheck("the-name-is-stored", gvImp(k == alternate, gvAnd(is, now == method)))
	gvCheck("other-names-are-kept", gvImp(k != alternate, gvAnd(gvIff(is, was), gvImp(is, now == old))))
	gvCheck("the-name-is-found", gvImp(k == alternate, party.getMethodNameByAlternateName(k) == method))
	gvCover("stored")
}

func c23noServer(*server) {}
func c23noClient(*client) {}

//govc:task C23 options-of-the-server panics
func c23ServerOptions() {
	switch gvFork(7) {
	case 4:
		hub := gvAny[HubInterface]()
		option := SimpleHubFactory(hub)
		if gvFork(2) == 0 {
			s := c23server()
			want := *s
			err := option(s)
			gvCheck("a-hub-factory-is-stored", s.newHub != nil)
			want.newHub = s.newHub
			gvCheck("nothing-else-is-changed", gvAnd(gvSame(*s, want), err == nil))
			return
		}
		c := c23client()
		want := *c
		err := option(c)
		gvCheck("a-client-refuses-it-unchanged", gvAnd(gvSame(*c, want), err != nil))
	case 5:
		mgr, failed := gvAny[HubLifetimeManager](), gvAny[error]()
		var server Server
		calls := 0
		option := WithHubLifetimeManager(func(s Server) (HubLifetimeManager, error) {
			server = s
			calls++
			return mgr, failed
		})
		if gvFork(2) == 0 {
			s := c23server()
			want := *s
			if failed == nil {
				want.lifetimeManager = mgr
			}
			err := option(s)
			gvCheck("exactly-the-given-value-is-stored", gvSame(*s, want))
			gvCheck("only-invalid-options-are-refused", gvIff(err == nil, failed == nil))
			gvCheck("the-manager-is-made-for-this-server", calls == 1 && gvSame[any](server, s))
			return
		}
		c := c23client()
		want := *c
		err := option(c)
		gvCheck("a-client-refuses-it-unchanged", gvAnd(gvSame(*c, want), err != nil))
		gvCheck("a-client-refuses-it-unchanged", calls == 0)
	case 6:
		logger, debug := gvAny[StructuredLogger](), gvAny[bool]()
		gvAssume(logger != nil)
		option := Logger(logger, debug)
		if gvFork(2) == 0 {
			s := c23server()
			want := *s
			err := option(s)
			gvCheck("loggers-are-stored", gvAnd(s.info != nil, s.dbg != nil))
			want.info, want.dbg = s.info, s.dbg
			gvCheck("nothing-else-is-changed", gvAnd(gvSame(*s, want), err == nil))
			return
		}
		c := c23client()
		want := *c
		err := option(c)
		gvCheck("loggers-are-stored", gvAnd(c.info != nil, c.dbg != nil))
		want.info, want.dbg = c.info, c.dbg
		gvCheck("nothing-else-is-changed", gvAnd(gvSame(*c, want), err == nil))
	case 0:
		f := gvAny[func() HubInterface]()
		c23apply(HubFactory(f), true, false, func(s *server) { s.newHub = f }, c23noClient)
	case 1:
		f := gvAny[func(string) HubInterface]()
		c23apply(PerConnectionHubFactory(f), true, false, func(s *server) { s.newHub, s.perConnectionHubFactory = nil, f }, c23noClient)
	case 2:
		n := gvAny[int]()
		c23apply(MaxNegotiationConnections(n), true, false, func(s *server) { s.negotiationConnectionLimit = n }, c23noClient)
	case 3:
		hub := gvAny[HubInterface]()
		option := UseHub(hub)
		if gvFork(2) == 0 {
			s := c23server()
			want := *s
			err := option(s)
			gvCheck("the-hub-is-used", s.newHub != nil && s.newHub() == hub)
			want.newHub = s.newHub
			gvCheck("nothing-else-is-changed", gvAnd(gvSame(*s, want), err == nil))
			return
		}
		c := c23client()
		want := *c
		err := option(c)
		gvCheck("a-client-refuses-it-unchanged", gvAnd(gvSame(*c, want), err != nil))
	}
}

//govc:task C23 options-of-the-client panics
func c23ClientOptions() {
	switch gvFork(3) {
	case 0:
		f := gvAny[func() backoff.BackOff]()
		c23apply(WithBackoff(f), false, true, c23noServer, func(c *client) { c.backoffFactory = f })
	case 1:
		f := gvAny[TransferFormatType]()
		format := ""
		switch f {
		case "Text":
			format = "json"
		case "Binary":
			format = "messagepack"
		}
		c23apply(TransferFormat(f), false, format != "", c23noServer, func(c *client) { c.format = format })
	case 2:
		if gvFork(2) == 0 {
			s := c23server()
			want := *s
			var option func(Party) error
			switch gvFork(3) {
			case 0:
				option = WithConnection(gvAny[Connection]())
			case 1:
				option = WithConnector(gvAny[func() (Connection, error)]())
			case 2:
				option = WithReceiver(gvAny[interface{}]())
			}
			err := option(s)
			gvCheck("a-server-refuses-it-unchanged", gvAnd(gvSame(*s, want), err != nil))
			gvCover("server")
			return
		}
		c := c23client()
		want := *c
		if gvFork(2) == 0 {
			conn := gvAny[Connection]()
			ok := want.connectionFactory == nil
			if ok {
				want.conn = conn
			}
			err := WithConnection(conn)(c)
			gvCheck("exactly-the-given-value-is-stored", gvSame(*c, want))
			gvCheck("a-connection-excludes-a-connector", gvIff(err == nil, ok))
			gvCover("connection")
			return
		}
		f := gvAny[func() (Connection, error)]()
		ok := want.conn == nil
		if ok {
			want.connectionFactory = f
		}
		err := WithConnector(f)(c)
		gvCheck("exactly-the-given-value-is-stored", gvSame(*c, want))
		gvCheck("a-connection-excludes-a-connector", gvIff(err == nil, ok))
		gvCover("connector")
	}
}

//govc:model (ReceiverInterface).Init
func c23init__receiver(r ReceiverInterface, c Client) {
	gvSet("c23.inits", "", gvGet[int]("c23.inits", "")+1)
	gvSet("c23.init", "", r)
	gvSet[any]("c23.client", "", c)
}

//govc:task C23 the-receiver-is-stored-and-initialized mode=receiver panics
func c23Receiver() {
	c := c23client()
	want := *c
	r := gvAny[interface{}]()
	_, init := r.(ReceiverInterface)
	want.receiver = r
	gvSet("c23.inits", "", 0)
	err := WithReceiver(r)(c)
	gvCheck("exactly-the-given-value-is-stored", gvAnd(gvSame(*c, want), err == nil))
	gvCheck("a-receiver-is-initialized-once", gvGet[int]("c23.inits", "") == gvIte(init, 1, 0))
	gvCheck("a-receiver-is-initialized-with-its-client", gvImp(init, gvAnd(gvSame[any](gvGet[ReceiverInterface]("c23.init", ""), r), gvSame[any](gvGet[any]("c23.client", ""), c))))
	gvCover("stored")
}

//govc:inv
func inv_c23valid__transports(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.k", "")
	return gvImp(k < i, c23valid(gvElem(transports, k)))
}

//govc:inv
func inv_c23validTo__transports(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.k", "")
	return gvImp(k <= i, c23valid(gvElem(transports, k)))
}

//govc:inv
func inv_c23stored__transports(all []TransportType, i int) bool {
	return len(all) == gvGet[int]("c23.n", "")+i
}

//govc:inv
func inv_c23storedTo__transports(all []TransportType, i int) bool {
	return len(all) == gvGet[int]("c23.n", "")+i+1
}

//govc:inv
func inv_c23storedval__transports(all []TransportType, i int) bool {
	k, n := gvGet[int]("c23.k", ""), gvGet[int]("c23.n", "")
	return gvImp(gvAnd(n+k < len(all), k < i), gvElem(all, n+k) == gvGet[TransportType]("c23.val", ""))
}

//govc:inv
func inv_c23storedvalTo__transports(all []TransportType, i int) bool {
	k, n := gvGet[int]("c23.k", ""), gvGet[int]("c23.n", "")
	return gvImp(gvAnd(n+k < len(all), k <= i), gvElem(all, n+k) == gvGet[TransportType]("c23.val", ""))
}

//govc:inv
func inv_c23storedold__transports(all []TransportType) bool {
	k := gvGet[int]("c23.k", "")
	return gvImp(k < gvGet[int]("c23.n", ""), gvElem(all, k) == gvGet[TransportType]("c23.old", ""))
}

func c23valid(t TransportType) bool {
	return gvOr(t == TransportWebSockets, t == TransportServerSentEvents)
}

//govc:task C23 transports-are-stored-if-all-are-supported mode=transports panics
func c23Transports() {
	transports := gvAny[[]TransportType]()
	k := gvRigid[int]()
	gvAssume(0 <= k)
	gvSet("c23.k", "", k)
	if gvFork(2) == 0 {
		c := c23client()
		want := *c
		err := HTTPTransports(transports...)(c)
		gvCheck("a-client-refuses-it-unchanged", gvAnd(gvSame(*c, want), err != nil))
		gvCover("client")
		return
	}
	s := c23server()
	want := *s
	n := len(want.transports)
	old := gvElem(want.transports, k)
	val := gvElem(transports, k)
	gvAssume(gvApart(s.transports, transports))
	gvSet("c23.n", "", n)
	gvSet("c23.val", "", val)
	gvSet("c23.old", "", old)
	err := HTTPTransports(transports...)(s)
	if err != nil {
		gvCheck("a-refused-option-changes-nothing", gvAnd(gvSame(*s, want), gvImp(k < n, gvElem(s.transports, k) == old)))
		gvCover("refused")
		return
	}
	gvCheck("only-supported-transports-are-accepted", gvImp(k < len(transports), c23valid(val)))
	gvCheck("all-transports-are-stored", gvAnd(len(s.transports) == n+len(transports), gvImp(k < len(transports), gvElem(s.transports, n+k) == val)))
	gvCheck("earlier-transports-are-kept", gvImp(k < n, gvElem(s.transports, k) == old))
	want.transports = s.transports
	gvCheck("nothing-else-is-changed", gvSame(*s, want))
	gvCover("stored")
}

//govc:task C23 connection-options panics
func c23Connection() {
	h := gvAny[*httpConnection]()
	gvAssume(h != nil)
	want := *h
	switch gvFork(3) {
	case 0:
		d := gvAny[Doer]()
		want.client = d
		err := WithHTTPClient(d)(h)
		gvCheck("exactly-the-given-value-is-stored", gvAnd(gvSame(*h, want), err == nil))
	case 1:
		f := gvAny[func() http.Header]()
		want.headers = f
		err := WithHTTPHeaders(f)(h)
		gvCheck("exactly-the-given-value-is-stored", gvAnd(gvSame(*h, want), err == nil))
	case 2:
		n := gvAny[int]()
		err := WithNegotiateVersion(n)(h)
		gvCheck("exactly-the-given-value-is-stored", gvAnd(h.negotiateVersion != nil, err == nil))
		gvCheck("exactly-the-given-value-is-stored", *h.negotiateVersion == n)
		want.negotiateVersion = h.negotiateVersion
		gvCheck("nothing-else-is-changed", gvSame(*h, want))
	}
}

//govc:task C23 transports-of-the-client-are-stored-if-all-are-supported mode=transports panics
func c23ClientTransports() {
	h := gvAny[*httpConnection]()
	gvAssume(h != nil)
	want := *h
	transports := gvAny[[]TransportType]()
	k := gvRigid[int]()
	gvAssume(0 <= k)
	gvSet("c23.k", "", k)
	val := gvElem(transports, k)
	gvSet("c23.n", "", 0)
	gvSet("c23.val", "", val)
	err := WithTransports(transports...)(h)
	if err != nil {
		gvCheck("a-refused-option-changes-nothing", gvSame(*h, want))
		gvCover("refused")
		return
	}
	gvCheck("only-supported-transports-are-accepted", gvImp(k < len(transports), c23valid(val)))
	gvCheck("all-transports-are-stored", gvAnd(len(h.transports) == len(transports), gvImp(k < len(transports), gvElem(h.transports, k) == val)))
	want.transports = h.transports
	gvCheck("nothing-else-is-changed", gvSame(*h, want))
	gvCover("stored")
}

// Building a party: every option is applied once, in order, to the new party, up to the first error.
//
// Option number i is gvInj("opt", i). Ghost state: c23.i is the number of the next option, c23.err the error of the last
// one, c23.party the party they were applied to, c23.server and c23.client what it was after the last option.

func c23option(i int) func(Party) error { return gvInj[func(Party) error]("opt", i) }

func c23options(n int) []func(Party) error {
	var options []func(Party) error
	for i := 0; i < n; i++ {
		o := c23option(i)
		gvAssume(o != nil)
		options = append(options, o)
	}
	return options
}

//govc:inv
func inv_c23options__build(every int, options []func(Party) error) bool {
	return gvImp(gvAnd(0 <= every, every < len(options)), gvAnd(gvSame(gvElem(options, every), c23option(every)), c23option(every) != nil))
}

//govc:inv
func inv_c23len__build(options []func(Party) error, i int) bool { return len(options) == i }

//govc:inv
func inv_c23applied__build(i int) bool { return gvGet[int]("c23.i", "") == i }

//govc:inv
func inv_c23appliedTo__build(i int) bool { return gvGet[int]("c23.i", "") == i+1 }

//govc:inv
func inv_c23noerror__build() bool { return gvGet[error]("c23.err", "") == nil }

// c23state is what options can store in a server
type c23state struct {
	base      partyBase
	hub       func() HubInterface
	perHub    func(string) HubInterface
	lifetime  HubLifetimeManager
	transport []TransportType
	limit     int
}

func c23stateOf(s *server) c23state {
	return c23state{s.partyBase, s.newHub, s.perConnectionHubFactory, s.lifetimeManager, s.transports, s.negotiationConnectionLimit}
}

//govc:inv
func inv_c23server__build(s *server) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame(c23stateOf(s), gvGet[c23state]("c23.server", "")))
}

//govc:inv
func inv_c23party__build(s *server) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame[any](s, gvGet[any]("c23.party", "")))
}

//govc:inv
func inv_c23client__build(c *client) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame(*c, gvGet[client]("c23.client", "")))
}

//govc:inv
func inv_c23partyc__build(c *client) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame[any](c, gvGet[any]("c23.party", "")))
}

//govc:inv
func inv_c23partyp__build(p Party) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame[any](p, gvGet[any]("c23.party", "")))
}

//govc:inv
func inv_c23clientp__build(p Party) bool {
	return gvImp(gvAnd(gvGet[int]("c23.i", "") > 0, gvIs[*client](p)), gvSame(*gvAs[*client](p), gvGet[client]("c23.client", "")))
}

//govc:inv
func inv_c23serverp__build(p Party) bool {
	return gvImp(gvAnd(gvGet[int]("c23.i", "") > 0, gvIs[*server](p)), gvSame(c23stateOf(gvAs[*server](p)), gvGet[c23state]("c23.server", "")))
}

//govc:model func:func(Party) error
func c23call__build(option func(Party) error, p Party) error {
	i := gvGet[int]("c23.i", "")
	gvCheck("no-option-is-applied-after-an-error", gvGet[error]("c23.err", "") == nil)
	gvCheck("options-are-applied-in-order", gvAnd(i < gvGet[int]("c23.n", ""), gvSame(option, c23option(i))))
	gvCheck("all-options-are-applied-to-the-same-party", gvImp(i > 0, gvSame[any](p, gvGet[any]("c23.party", ""))))
	gvSet("c23.i", "", i+1)
	gvSet[any]("c23.party", "", p)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c23.err", "", err)
		return err
	}
	switch p := p.(type) {
	case *server:
		p._timeout, p.transports, p.newHub, p.perConnectionHubFactory = gvAny[time.Duration](), gvAny[[]TransportType](), gvAny[func() HubInterface](), gvAny[func(string) HubInterface]()
		p.lifetimeManager, p._maximumReceiveMessageSize, p.negotiationConnectionLimit = gvAny[HubLifetimeManager](), gvAny[uint](), gvAny[int]()
		gvSet("c23.server", "", c23stateOf(p))
	case *client:
		p._timeout, p.conn, p.connectionFactory, p.format = gvAny[time.Duration](), gvAny[Connection](), gvAny[func() (Connection, error)](), gvAny[string]()
		p.receiver, p._maximumReceiveMessageSize, p.backoffFactory = gvAny[any](), gvAny[uint](), gvAny[func() backoff.BackOff]()
		gvSet("c23.client", "", *p)
	}
	return nil
}

func c23build(n int) {
	gvSet("c23.i", "", 0)
	gvSet("c23.n", "", n)
	gvSet[error]("c23.err", "", nil)
	gvAssume(ErrUnableToConnect != nil)
}

//govc:task C23 a-server-is-built-from-all-its-options mode=build
func c23Server() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	n := gvAny[int]()
	gvAssume(0 <= n)
	options := c23options(n)
	c23build(n)
	srv, err := NewServer(ctx, options...)
	i, failed := gvGet[int]("c23.i", ""), gvGet[error]("c23.err", "")
	if failed != nil {
		gvCheck("the-first-error-is-returned", gvAnd(srv == nil, gvSame(err, failed)))
		gvCover("failed")
		return
	}
	gvCheck("every-option-is-applied", i == n)
	gvAssume(n > 0)
	s, ok := srv.(*server)
	gvCheck("the-party-of-the-options-is-returned", gvAnd(ok, gvSame[any](s, gvGet[any]("c23.party", ""))))
	want := gvGet[c23state]("c23.server", "")
	gvCheck("a-server-has-hubs", gvIff(err != nil, gvAnd(want.hub == nil, want.perHub == nil)))
	group, ok := s.groupManager.(*defaultGroupManager)
	gvCheck("the-lifetime-manager-of-the-options-is-used", gvAnd(s.defaultHubClients != nil, gvAnd(ok, group != nil)))
	gvCheck("the-lifetime-manager-of-the-options-is-used", gvAnd(gvSame(s.defaultHubClients.lifetimeManager, want.lifetime), gvAnd(gvSame(s.defaultHubClients.allCache.lifetimeManager, want.lifetime), gvSame(group.lifetimeManager, want.lifetime))))
	if want.transport == nil {
		gvCheck("all-transports-are-the-default", len(s.transports) == 2 && s.transports[0] == TransportWebSockets && s.transports[1] == TransportServerSentEvents)
		want.transport = s.transports
	}
	gvCheck("what-the-options-stored-is-kept", gvSame(c23stateOf(s), want))
	gvCover("built")
}

//govc:task C23 a-client-is-built-from-all-its-options mode=build
func c23Client() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	n := gvAny[int]()
	gvAssume(0 <= n)
	options := c23options(n)
	c23build(n)
	cl, err := NewClient(ctx, options...)
	i, failed := gvGet[int]("c23.i", ""), gvGet[error]("c23.err", "")
	if failed != nil {
		gvCheck("the-first-error-is-returned", gvAnd(cl == nil, gvSame(err, failed)))
		gvCover("failed")
		return
	}
	gvCheck("every-option-is-applied", i == n)
	gvAssume(n > 0)
	want := gvGet[client]("c23.client", "")
	gvCheck("a-client-has-a-connection", gvIff(err != nil, gvAnd(want.conn == nil, want.connectionFactory == nil)))
	if err != nil {
		gvCheck("a-client-has-a-connection", cl == nil)
		return
	}
	c, ok := cl.(*client)
	gvCheck("the-party-of-the-options-is-returned", gvAnd(ok, gvSame[any](c, gvGet[any]("c23.party", ""))))
	want.info, want.dbg = c.info, c.dbg
	gvCheck("what-the-options-stored-is-kept", gvSame(*c, want))
	gvCover("built")
}

// The connection options. Option number i of the caller is gvInj("hopt", i); option number c23.t is the first one which
// stores transports.

func c23hopt(i int) func(*httpConnection) error { return gvInj[func(*httpConnection) error]("hopt", i) }

func c23hoptions(n int) []func(*httpConnection) error {
	var options []func(*httpConnection) error
	for i := 0; i < n; i++ {
		o := c23hopt(i)
		gvAssume(o != nil)
		options = append(options, o)
	}
	return options
}

//govc:inv
func inv_c23hoptions__http(every int, options []func(*httpConnection) error) bool {
	return gvImp(gvAnd(0 <= every, every < len(options)), gvAnd(gvSame(gvElem(options, every), c23hopt(every)), c23hopt(every) != nil))
}

//govc:inv
func inv_c23hlen__http(options []func(*httpConnection) error, i int) bool { return len(options) == i }

//govc:inv
func inv_c23happlied__http(i int) bool { return gvGet[int]("c23.i", "") == i }

//govc:inv
func inv_c23happliedTo__http(i int) bool { return gvGet[int]("c23.i", "") == i+1 }

//govc:inv
func inv_c23hnoerror__http() bool { return gvGet[error]("c23.err", "") == nil }

//govc:inv
func inv_c23hparty__http(h *httpConnection) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame[any](h, gvGet[any]("c23.party", "")))
}

//govc:inv
func inv_c23hstate__http(h *httpConnection) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame(*h, gvGet[httpConnection]("c23.conn", "")))
}

//govc:model func:func(*httpConnection) error
func c23hcall__http(option func(*httpConnection) error, h *httpConnection) error {
	i := gvGet[int]("c23.i", "")
	gvCheck("no-option-is-applied-after-an-error", gvGet[error]("c23.err", "") == nil)
	gvCheck("options-are-applied-in-order", gvAnd(i < gvGet[int]("c23.n", ""), gvSame(option, c23hopt(i))))
	gvCheck("all-options-are-applied-to-the-same-connection", gvImp(i > 0, gvSame[any](h, gvGet[any]("c23.party", ""))))
	gvSet("c23.i", "", i+1)
	gvSet[any]("c23.party", "", h)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c23.err", "", err)
		return err
	}
	*h = gvAny[httpConnection]()
	gvSet("c23.conn", "", *h)
	return nil
}

// The connection is made from what the options stored: the options are verified up to the first use of the network.
//
//govc:model net/url.Parse
func c23parse__http(address string) (*url.URL, error) {
	gvCheck("the-address-is-used", address == gvGet[string]("c23.address", ""))
	gvCheck("every-option-is-applied", gvGet[int]("c23.i", "") == gvGet[int]("c23.n", ""))
	if h, ok := gvGet[any]("c23.party", "").(*httpConnection); ok && gvGet[int]("c23.n", "") > 0 {
		gvAssume(h != nil)
		want := gvGet[httpConnection]("c23.conn", "")
		if want.client == nil {
			want.client = h.client
		}
		if len(want.transports) == 0 {
			gvCheck("all-transports-are-the-default", len(h.transports) == 2 && h.transports[0] == TransportWebSockets && h.transports[1] == TransportServerSentEvents)
			want.transports = h.transports
		}
		gvCheck("what-the-options-stored-is-used", gvSame(*h, want))
		gvCover("used")
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvSet("c23.err", "", err)
	return nil, err
}

//govc:task C23 a-connection-is-made-with-all-its-options mode=http
func c23HTTP() {
	ctx := gvAny[context.Context]()
	gvAssume(ctx != nil)
	n := gvAny[int]()
	gvAssume(0 <= n)
	address := gvAny[string]()
	gvSet("c23.address", "", address)
	options := c23hoptions(n)
	c23build(n)
	conn, err := NewHTTPConnection(ctx, address, options...)
	gvCheck("the-first-error-is-returned", gvAnd(conn == nil, gvSame(err, gvGet[error]("c23.err", ""))))
}

// HttpConnectionFactory. The caller's list has n options, number c23.t (if any) is the first one which stores transports:
// the list c23.x. The options given to NewHTTPConnection must be those of the caller without number c23.t, and one which
// stores a single transport.

//govc:model func:func(*httpConnection) error
func c23hcall__factory(option func(*httpConnection) error, h *httpConnection) error {
	i := gvGet[int]("c23.i", "")
	gvCheck("no-option-is-applied-after-an-error", gvGet[error]("c23.err", "") == nil)
	gvCheck("options-are-applied-in-order", gvAnd(i < gvGet[int]("c23.n", ""), gvSame(option, c23hopt(i))))
	gvCheck("all-options-are-applied-to-the-same-connection", gvImp(i > 0, gvSame[any](h, gvGet[any]("c23.party", ""))))
	gvSet("c23.i", "", i+1)
	gvSet[any]("c23.party", "", h)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("c23.err", "", err)
		return err
	}
	h.client, h.headers, h.negotiateVersion = gvAny[Doer](), gvAny[func() http.Header](), gvAny[*int]()
	if i == gvGet[int]("c23.t", "") {
		h.transports = gvGet[[]TransportType]("c23.x", "")
	}
	return nil
}

//govc:inv
func inv_c23foptions__factory(every int, options []func(*httpConnection) error) bool {
	return gvImp(gvAnd(0 <= every, every < len(options)), gvAnd(gvSame(gvElem(options, every), c23hopt(every)), c23hopt(every) != nil))
}

//govc:inv
func inv_c23flen__factory(options []func(*httpConnection) error, i int) bool {
	return len(options) == i
}

//govc:inv
func inv_c23fapplied__factory(i int) bool { return gvGet[int]("c23.i", "") == i }

//govc:inv
func inv_c23fappliedTo__factory(i int) bool { return gvGet[int]("c23.i", "") == i+1 }

//govc:inv
func inv_c23fnoerror__factory() bool { return gvGet[error]("c23.err", "") == nil }

//govc:inv
func inv_c23fparty__factory(h *httpConnection) bool {
	return gvImp(gvGet[int]("c23.i", "") > 0, gvSame[any](h, gvGet[any]("c23.party", "")))
}

//govc:inv
func inv_c23ftransports__factory(h *httpConnection) bool {
	return gvImp(gvGet[int]("c23.i", "") <= gvGet[int]("c23.t", ""), h.transports == nil)
}

//govc:model NewHTTPConnection
func c23new__factory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
	gvCheck("the-address-is-used", gvAnd(address == gvGet[string]("c23.address", ""), gvSame(ctx, gvGet[context.Context]("c23.ctx", ""))))
	n, t, k := gvGet[int]("c23.n", ""), gvGet[int]("c23.t", ""), gvGet[int]("c23.k", "")
	want := n
	if t < n {
		want = n - 1
	}
	gvCheck("all-other-options-are-passed-on", len(options) == want+1)
	gvCheck("all-other-options-are-passed-on", gvImp(gvAnd(k < n, k < t), gvSame(gvElem(options, k), c23hopt(k))))
	gvCheck("all-other-options-are-passed-on", gvImp(gvAnd(k < n, t < k), gvSame(gvElem(options, k-1), c23hopt(k))))
	calls := gvGet[int]("c23.calls", "")
	gvSet("c23.calls", "", calls+1)
	if len(options) > 0 {
		h := &httpConnection{}
		err := options[len(options)-1](h)
		gvCheck("one-transport-is-chosen", err == nil && len(h.transports) == 1)
		if err == nil && len(h.transports) == 1 {
			x := h.transports[0]
			gvCheck("one-transport-is-chosen", gvOr(x == TransportWebSockets, x == TransportServerSentEvents))
			if calls == 0 {
				gvSet("c23.first", "", string(x))
			} else {
				gvSet("c23.second", "", string(x))
			}
		}
	}
	conn, err := gvAny[Connection](), gvAny[error]()
	gvAssume(gvIff(err == nil, conn != nil))
	gvSet("c23.result", "", conn)
	gvSet("c23.err", "", err)
	return conn, err
}

//govc:inv
func inv_c23nows__factory(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.r", "")
	return gvImp(gvAnd(k < i, gvGet[int]("c23.calls", "") == 0), gvElem(transports, k) != TransportWebSockets)
}

//govc:inv
func inv_c23nowsTo__factory(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.r", "")
	return gvImp(gvAnd(k <= i, gvGet[int]("c23.calls", "") == 0), gvElem(transports, k) != TransportWebSockets)
}

//govc:inv
func inv_c23nosseTo__factory(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.r", "")
	return gvImp(k <= i, gvElem(transports, k) != TransportServerSentEvents)
}

//govc:inv
func inv_c23nosse__factory(transports []TransportType, i int) bool {
	k := gvGet[int]("c23.r", "")
	return gvImp(k < i, gvElem(transports, k) != TransportServerSentEvents)
}

//govc:task C23 the-options-of-the-caller-are-not-altered mode=factory
func c23Factory() {
	ctx, address := gvAny[context.Context](), gvAny[string]()
	gvAssume(ctx != nil)
	n := gvAny[int]()
	gvAssume(0 <= n)
	gvSet("c23.address", "", address)
	gvSet("c23.ctx", "", ctx)
	t, k := gvRigid[int](), gvRigid[int]()
	gvAssume(0 <= t)
	gvAssume(0 <= k)
	x := gvAny[[]TransportType]()
	gvAssume(x != nil)
	r := gvRigid[int]()
	gvAssume(0 <= r)
	gvAssume(r < len(x))
	gvSet("c23.r", "", r)
	gvSet("c23.t", "", t)
	gvSet("c23.k", "", k)
	gvSet("c23.x", "", x)
	gvSet("c23.calls", "", 0)
	options := c23hoptions(n)
	c23build(n)
	conn, err := HttpConnectionFactory(ctx, address, options...)
	gvCheck("the-options-of-the-caller-are-kept", gvAnd(len(options) == n, gvImp(k < n, gvSame(gvElem(options, k), c23hopt(k)))))
	if gvGet[int]("c23.calls", "") > 0 {
		result, failed := gvGet[Connection]("c23.result", ""), gvGet[error]("c23.err", "")
		gvCheck("the-connection-is-returned", gvAnd(gvIff(conn == nil, failed != nil), gvIff(err == nil, failed == nil)))
		gvCheck("the-connection-is-returned", gvImp(failed == nil, gvSame(conn, result)))
		given := t < n
		xr := gvElem(x, r)
		first, last := gvGet[string]("c23.first", ""), gvGet[string]("c23.first", "")
		if gvGet[int]("c23.calls", "") > 1 {
			last = gvGet[string]("c23.second", "")
		}
		gvCheck("web-sockets-are-tried-first", gvImp(gvOr(gvNot(given), xr == TransportWebSockets), first == string(TransportWebSockets)))
		gvCheck("server-sent-events-are-tried-last", gvImp(gvAnd(failed != nil, gvOr(gvNot(given), xr == TransportServerSentEvents)), last == string(TransportServerSentEvents)))
		gvCover("connected")
	} else if failed := gvGet[error]("c23.err", ""); failed != nil {
		gvCheck("the-first-error-is-returned", gvAnd(conn == nil, gvSame(err, failed)))
		gvCover("refused")
	} else {
		gvCheck("a-supported-transport-is-tried", gvAnd(gvAnd(t < n, conn == nil), gvAnd(err != nil, gvNot(c23valid(gvElem(x, r))))))
		gvCover("no transport")
	}
}

//govc:inv
func inv_c23ffirst__factory() bool { return gvGet[int]("c23.i", "") <= gvGet[int]("c23.t", "") }

//govc:model HttpConnectionFactory
func c23factory__reconnect(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
	k := gvGet[int]("c23.k", "")
	gvCheck("the-address-is-used", gvAnd(address == gvGet[string]("c23.address", ""), gvSame(ctx, gvGet[context.Context]("c23.ctx", ""))))
	gvCheck("all-options-are-passed-on", gvAnd(len(options) == gvGet[int]("c23.n", ""), gvImp(k < len(options), gvSame(gvElem(options, k), gvGet[func(*httpConnection) error]("c23.opt", "")))))
	gvSet("c23.calls", "", gvGet[int]("c23.calls", "")+1)
	conn, err := gvAny[Connection](), gvAny[error]()
	gvSet("c23.result", "", conn)
	gvSet("c23.err", "", err)
	return conn, err
}

//govc:task C23 every-connection-uses-the-given-options mode=reconnect panics
func c23Reconnect() {
	ctx, address, options := gvAny[context.Context](), gvAny[string](), gvAny[[]func(*httpConnection) error]()
	k := gvRigid[int]()
	gvAssume(0 <= k)
	gvSet("c23.k", "", k)
	gvSet("c23.n", "", len(options))
	gvSet("c23.address", "", address)
	gvSet("c23.ctx", "", ctx)
	gvSet("c23.opt", "", gvElem(options, k))
	gvSet("c23.calls", "", 0)
	c := c23client()
	want := *c
	err := WithHttpConnection(ctx, address, options...)(c)
	gvCheck("a-connection-excludes-a-connector", gvIff(err == nil, want.conn == nil))
	if err != nil {
		gvCheck("a-refused-option-changes-nothing", gvSame(*c, want))
		return
	}
	gvCheck("a-connector-is-stored", c.connectionFactory != nil)
	want.connectionFactory = c.connectionFactory
	gvCheck("nothing-else-is-changed", gvSame(*c, want))
	for i := 1; i <= 2; i++ {
		conn, err := c.connectionFactory()
		gvCheck("every-connection-is-made-with-them", gvGet[int]("c23.calls", "") == i)
		gvCheck("the-connection-is-returned", gvAnd(gvSame(conn, gvGet[Connection]("c23.result", "")), gvSame(err, gvGet[error]("c23.err", ""))))
	}
	gvCover("reconnected")
}

//govc:task C23 the-stored-values-are-used panics
func c23Getters() {
	check := func(party Party, p *partyBase) {
		gvCheck("the-stored-value-is-returned", gvAnd(party.timeout() == p._timeout, gvAnd(party.handshakeTimeout() == p._handshakeTimeout, party.keepAliveInterval() == p._keepAliveInterval)))
		gvCheck("the-stored-value-is-returned", gvAnd(party.streamBufferCapacity() == p._streamBufferCapacity, gvAnd(party.maxConcurrentStreams() == p._maxConcurrentStreams, party.maximumReceiveMessageSize() == p._maximumReceiveMessageSize)))
		gvCheck("the-stored-value-is-returned", gvAnd(party.chanReceiveTimeout() == p._chanReceiveTimeout, gvAnd(gvIff(party.enableDetailedErrors(), p._enableDetailedErrors), gvIff(party.insecureSkipVerify(), p._insecureSkipVerify))))
		gvCheck("the-stored-value-is-returned", gvSame(party.originPatterns(), p._originPatterns))
	}
	if gvFork(2) == 0 {
		s := c23server()
		check(s, &s.partyBase)
		gvCheck("the-stored-value-is-returned", s.HandshakeTimeout() == s._handshakeTimeout)
		gvCheck("the-stored-value-is-returned", gvAnd(gvSame(s.availableTransports(), s.transports), s.maxNegotiationConnections() == s.negotiationConnectionLimit))
		return
	}
	c := c23client()
	check(c, &c.partyBase)
	gvCheck("the-stored-value-is-returned", c.HandshakeTimeout() == c._handshakeTimeout)
}
