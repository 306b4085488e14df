package signalr

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/go-kit/log"
)

type rpHub23 struct{ Hub }

type rpReceiver23 struct {
	Receiver
	inits []Client
}

func (r *rpReceiver23) Init(c Client) { r.inits = append(r.inits, c) }

// rpFields is a description of every field of a party
func rpFields23(v reflect.Value) map[string]string {
	m := map[string]string{}
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if n == "partyBase" {
			for k, x := range rpFields23(v.Field(i)) {
				m[k] = x
			}
			continue
		}
		m[n] = fmt.Sprintf("%#v", v.Field(i))
	}
	return m
}

func rpParty23(t *testing.T, isServer bool) (Party, map[string]string) {
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	if isServer {
		s, err := NewServer(ctx, UseHub(&rpHub23{}), Logger(log.NewNopLogger(), false))
		if err != nil {
			t.Fatal(err)
		}
		return s.(*server), rpFields23(reflect.ValueOf(s).Elem())
	}
	c, err := NewClient(ctx, WithConnector(func() (Connection, error) { return nil, errors.New("none") }), Logger(log.NewNopLogger(), false))
	if err != nil {
		t.Fatal(err)
	}
	return c.(*client), rpFields23(reflect.ValueOf(c).Elem())
}

func rpChanged23(p Party, was map[string]string) map[string]bool {
	m := map[string]bool{}
	for k, x := range rpFields23(reflect.ValueOf(p).Elem()) {
		if was[k] != x {
			m[k] = true
		}
	}
	return m
}

type rpDoer23 struct {
	fail     int // fail the negotiation number fail, 0: all
	requests []*http.Request
	offer    string
}

func (d *rpDoer23) Do(req *http.Request) (*http.Response, error) {
	d.requests = append(d.requests, req)
	if req.Method == "GET" {
		return nil, errors.New("GET " + req.Header.Get("X-Test"))
	}
	return &http.Response{StatusCode: 200, Request: req, Body: io.NopCloser(bytes.NewBufferString(
		`{"negotiateVersion":1,"connectionId":"c","connectionToken":"t","availableTransports":[` + d.offer + `]}`))}, nil
}

const rpSSE23 = `{"transport":"ServerSentEvents","transferFormats":["Text"]}`
const rpWS23 = `{"transport":"WebSockets","transferFormats":["Text","Binary"]}`

func TestReplayC23(t *testing.T) {
	t.Run("options", func(t *testing.T) {
		hub := &rpHub23{}
		factory := func() HubInterface { return hub }
		perFactory := func(string) HubInterface { return hub }
		connector := func() (Connection, error) { return nil, nil }
		back := func() backoff.BackOff { return &backoff.StopBackOff{} }
		receiver := &rpReceiver23{}
		manager := &defaultHubLifetimeManager{}
		addr := func(f interface{}) string { return fmt.Sprintf("%#v", f) }
		for _, o := range []struct {
			name   string
			option func(Party) error
			parts  string // b: both, s: server, c: client
			fields map[string]string
			bad    bool
		}{
			{"timeout", TimeoutInterval(7), "b", map[string]string{"_timeout": "7"}, false},
			{"timeout 0", TimeoutInterval(0), "b", map[string]string{"_timeout": "0"}, false},
			{"timeout less than keep alive", TimeoutInterval(time.Second), "b", map[string]string{"_timeout": "1000000000"}, false},
			{"handshake", HandshakeTimeout(8), "b", map[string]string{"_handshakeTimeout": "8"}, false},
			{"handshake 0", HandshakeTimeout(0), "b", map[string]string{"_handshakeTimeout": "0"}, false},
			{"keepalive", KeepAliveInterval(9), "b", map[string]string{"_keepAliveInterval": "9"}, false},
			{"keepalive longer than timeout", KeepAliveInterval(time.Hour), "b", map[string]string{"_keepAliveInterval": "3600000000000"}, false},
			{"buffer", StreamBufferCapacity(1), "b", map[string]string{"_streamBufferCapacity": "0x1"}, false},
			{"buffer big", StreamBufferCapacity(1 << 40), "b", map[string]string{"_streamBufferCapacity": "0x10000000000"}, false},
			{"buffer 0", StreamBufferCapacity(0), "b", nil, true},
			{"streams 0", MaxConcurrentStreams(0), "b", map[string]string{"_maxConcurrentStreams": "0x0"}, false},
			{"streams big", MaxConcurrentStreams(1 << 40), "b", map[string]string{"_maxConcurrentStreams": "0x10000000000"}, false},
			{"size 1", MaximumReceiveMessageSize(1), "b", map[string]string{"_maximumReceiveMessageSize": "0x1"}, false},
			{"size big", MaximumReceiveMessageSize(1 << 40), "b", map[string]string{"_maximumReceiveMessageSize": "0x10000000000"}, false},
			{"size 0", MaximumReceiveMessageSize(0), "b", nil, true},
			{"chan", ChanReceiveTimeout(11), "b", map[string]string{"_chanReceiveTimeout": "11"}, false},
			{"chan 0", ChanReceiveTimeout(0), "b", map[string]string{"_chanReceiveTimeout": "0"}, false},
			{"detailed", EnableDetailedErrors(true), "b", map[string]string{"_enableDetailedErrors": "true"}, false},
			{"skip", InsecureSkipVerify(true), "b", map[string]string{"_insecureSkipVerify": "true"}, false},
			{"origins", AllowOriginPatterns([]string{"a", "", "A"}), "b", map[string]string{"_originPatterns": `[]string{"a", "", "A"}`}, false},
			{"alternate", WithAlternateMethodName("Foo", "bar"), "b", map[string]string{"methodNamesByAlternateName": `map[string]string{"bar":"Foo"}`}, false},
			{"hub factory", HubFactory(factory), "s", map[string]string{"newHub": addr(factory)}, false},
			{"per connection", PerConnectionHubFactory(perFactory), "s", map[string]string{"newHub": "(func() signalr.HubInterface)(nil)", "perConnectionHubFactory": addr(perFactory)}, false},
			{"simple", SimpleHubFactory(hub), "s", map[string]string{"newHub": ""}, false},
			{"use", UseHub(hub), "s", map[string]string{"newHub": ""}, false},
			{"negotiations", MaxNegotiationConnections(0), "s", map[string]string{"negotiationConnectionLimit": "0"}, false},
			{"negotiations negative", MaxNegotiationConnections(-3), "s", map[string]string{"negotiationConnectionLimit": "-3"}, false},
			{"manager", WithHubLifetimeManager(func(s Server) (HubLifetimeManager, error) { return manager, nil }), "s", map[string]string{"lifetimeManager": ""}, false},
			{"manager error", WithHubLifetimeManager(func(s Server) (HubLifetimeManager, error) { return manager, errors.New("no") }), "s", nil, true},
			{"transports", HTTPTransports(TransportWebSockets), "s", map[string]string{"transports": ""}, false},
			{"transports bad", HTTPTransports(TransportWebSockets, "LongPolling"), "s", nil, true},
			{"transports bad first", HTTPTransports("LongPolling", TransportServerSentEvents), "s", nil, true},
			{"transports other", HTTPTransports(TransportServerSentEvents, TransportWebTransports), "s", nil, true},
			{"connector", WithConnector(connector), "c", map[string]string{"connectionFactory": addr(connector)}, false},
			{"connection", WithConnection(newRpConn("c")), "c", nil, true},
			{"receiver", WithReceiver(receiver), "c", map[string]string{"receiver": ""}, false},
			{"backoff", WithBackoff(back), "c", map[string]string{"backoffFactory": addr(back)}, false},
			{"binary", TransferFormat("Binary"), "c", map[string]string{"format": `"messagepack"`}, false},
			{"text", TransferFormat("Text"), "c", nil, false},
			{"format bad", TransferFormat("text"), "c", nil, true},
			{"format empty", TransferFormat(""), "c", nil, true},
			{"http", WithHttpConnection(context.Background(), "http://127.0.0.1:0"), "c", map[string]string{"connectionFactory": ""}, false},
		} {
			for _, isServer := range []bool{true, false} {
				p, was := rpParty23(t, isServer)
				belongs := o.parts == "b" || (o.parts == "s") == isServer
				err := o.option(p)
				if (err == nil) != (belongs && !o.bad) {
					t.Errorf("%v (server %v): error %v", o.name, isServer, err)
				}
				changed := rpChanged23(p, was)
				now := rpFields23(reflect.ValueOf(p).Elem())
				for f := range changed {
					if _, ok := o.fields[f]; !ok || !belongs || o.bad {
						t.Errorf("%v (server %v): changes %v from %v to %v", o.name, isServer, f, was[f], now[f])
					}
				}
				if belongs && !o.bad {
					for f, want := range o.fields {
						if want != "" && now[f] != want {
							t.Errorf("%v (server %v): %v is %v, not %v", o.name, isServer, f, now[f], want)
						}
						if want == "" && !changed[f] {
							t.Errorf("%v (server %v): %v is not changed", o.name, isServer, f)
						}
					}
				}
			}
		}
		if len(receiver.inits) != 1 {
			t.Errorf("the receiver is initialized %v times", len(receiver.inits))
		}
		ss, _ := rpParty23(t, true)
		s := ss.(*server)
		if a, b := SimpleHubFactory(hub)(s), s.newHub(); a != nil || b == HubInterface(hub) || reflect.TypeOf(b) != reflect.TypeOf(hub) || b == s.newHub() {
			t.Errorf("SimpleHubFactory: %v %T", a, b)
		}
		_ = UseHub(hub)(s)
		if s.newHub() != HubInterface(hub) {
			t.Errorf("UseHub uses an other hub")
		}
	})
	t.Run("getters", func(t *testing.T) {
		for _, isServer := range []bool{true, false} {
			p, _ := rpParty23(t, isServer)
			for _, o := range []func(Party) error{TimeoutInterval(1), HandshakeTimeout(2), KeepAliveInterval(3), ChanReceiveTimeout(4), StreamBufferCapacity(5), MaxConcurrentStreams(6),
				MaximumReceiveMessageSize(7), EnableDetailedErrors(true), InsecureSkipVerify(true), AllowOriginPatterns([]string{"x"})} {
				_ = o(p)
			}
			got := fmt.Sprint(p.timeout(), p.handshakeTimeout(), p.keepAliveInterval(), p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams(), p.maximumReceiveMessageSize(),
				p.enableDetailedErrors(), p.insecureSkipVerify(), p.originPatterns())
			if got != "1ns 2ns 3ns 4ns 5 6 7 true true [x]" {
				t.Errorf("the party has %v", got)
			}
			h := p.(interface{ HandshakeTimeout() time.Duration }).HandshakeTimeout()
			if h != 2 {
				t.Errorf("HandshakeTimeout %v", h)
			}
		}
	})
	t.Run("building", func(t *testing.T) {
		hub := func() HubInterface { return &rpHub23{} }
		for _, n := range []int{1, 2, 5} {
			for fail := -1; fail < n; fail++ {
				var applied []int
				var parties []Party
				bad := errors.New("bad")
				options := []func(Party) error{nil}
				for i := 0; i < n; i++ {
					i := i
					options = append(options, func(p Party) error {
						applied = append(applied, i)
						parties = append(parties, p)
						if i == fail {
							return bad
						}
						p.setTimeout(time.Duration(1000 + i))
						return nil
					}, nil)
				}
				check := func(kind string, p interface{}, timeout time.Duration, err error) {
					want := n
					if fail >= 0 {
						want = fail + 1
						if err != bad {
							t.Errorf("%v: option %v of %v fails, but the error is %v", kind, fail, n, err)
						}
					} else if err != nil || timeout != time.Duration(1000+n-1) {
						t.Errorf("%v: error %v, timeout %v", kind, err, timeout)
					}
					if len(applied) != want {
						t.Errorf("%v: option %v of %v fails, applied: %v", kind, fail, n, applied)
					}
					for i := range applied {
						if applied[i] != i || parties[i] != parties[0] || fail < 0 && parties[i] != p {
							t.Errorf("%v: applied %v to %p, not %p", kind, applied, parties, p)
							break
						}
					}
					applied, parties = nil, nil
				}
				s, err := NewServer(context.Background(), append([]func(Party) error{HubFactory(hub), Logger(log.NewNopLogger(), false), HTTPTransports(TransportServerSentEvents)}, options...)...)
				if x, ok := s.(*server); ok && err == nil {
					check("server", x, x.timeout(), err)
					if len(x.transports) != 1 {
						t.Errorf("transports %v", x.transports)
					}
				} else {
					check("server", nil, 0, err)
				}
				c, err := NewClient(context.Background(), append([]func(Party) error{WithConnection(newRpConn("c")), Logger(log.NewNopLogger(), false)}, options...)...)
				if x, ok := c.(*client); ok && err == nil {
					check("client", x, x.timeout(), err)
				} else {
					check("client", nil, 0, err)
				}
			}
		}
		if _, err := NewServer(context.Background()); err == nil {
			t.Errorf("a server without a hub")
		}
		if c, err := NewClient(context.Background()); err == nil || c != nil {
			t.Errorf("a client without a connection")
		}
		manager := &defaultHubLifetimeManager{}
		s, err := NewServer(context.Background(), HubFactory(hub), WithHubLifetimeManager(func(Server) (HubLifetimeManager, error) { return manager, nil }))
		if err != nil {
			t.Fatal(err)
		}
		x := s.(*server)
		if x.lifetimeManager != HubLifetimeManager(manager) || x.defaultHubClients.lifetimeManager != HubLifetimeManager(manager) || x.defaultHubClients.allCache.lifetimeManager != HubLifetimeManager(manager) ||
			x.groupManager.(*defaultGroupManager).lifetimeManager != HubLifetimeManager(manager) || fmt.Sprint(x.availableTransports()) != "[WebSockets ServerSentEvents]" {
			t.Errorf("the lifetime manager is not used everywhere")
		}
	})
	t.Run("connections", func(t *testing.T) {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		const bad = "connections: option bad"
		for _, transports := range [][]TransportType{nil, {}, {TransportWebSockets}, {TransportServerSentEvents}, {TransportServerSentEvents, TransportWebSockets}, {TransportWebSockets, TransportServerSentEvents}, {TransportWebSockets, TransportWebSockets, TransportServerSentEvents}} {
			for pos := 0; pos < 3; pos++ {
				for spare := 0; spare < 2; spare++ {
					d := &rpDoer23{offer: rpWS23 + "," + rpSSE23}
					options := []func(*httpConnection) error{WithHTTPClient(d), WithHTTPHeaders(func() http.Header { return http.Header{"X-Test": {"yes"}} })}
					if transports != nil {
						options = append(options[:pos:pos], append([]func(*httpConnection) error{WithTransports(transports...)}, options[pos:]...)...)
					}
					canary := func(h *httpConnection) error { return errors.New("canary") }
					if spare > 0 {
						options = append(options, canary)[:len(options)]
					}
					addrs := func() string { return fmt.Sprintf("%#v", options[:len(options)+spare]) }
					was := addrs()
					kinds := func() []string {
						_, err := HttpConnectionFactory(ctx, "http://127.0.0.1:1/hub", options...)
						if err == nil {
							t.Errorf("connected?")
						}
						var k []string
						for _, r := range d.requests {
							if r.Header.Get("X-Test") != "yes" {
								t.Errorf("%v at %v: the headers are not used for %v", transports, pos, r.URL)
							}
							k = append(k, r.Method+" "+r.URL.String())
						}
						d.requests = nil
						return append(k, fmt.Sprint(err))
					}
					first := kinds()
					if now := addrs(); now != was {
						t.Errorf("%v at %v: the option list is altered", transports, pos)
					}
					if second := kinds(); !reflect.DeepEqual(first, second) {
						t.Errorf("%v at %v: the first connection does %v, the second one %v", transports, pos, first, second)
					}
					ws, sse := transports == nil, transports == nil
					for _, x := range transports {
						ws, sse = ws || x == TransportWebSockets, sse || x == TransportServerSentEvents
					}
					if got := strings.Contains(strings.Join(first, "\n"), "GET http"); got != sse {
						t.Errorf("%v at %v: %v", transports, pos, first)
					}
					if posts := strings.Count(strings.Join(first, "\n"), "POST"); ws && sse && posts != 2 || ws != sse && posts != 1 {
						t.Errorf("%v at %v: %v", transports, pos, first)
					}
				}
			}
		}
		for i := 0; i < 3; i++ {
			d := &rpDoer23{offer: rpSSE23}
			applied := 0
			options := []func(*httpConnection) error{}
			for j := 0; j < 3; j++ {
				j := j
				options = append(options, func(h *httpConnection) error {
					applied++
					h.client = d
					if i == j {
						return errors.New(bad)
					}
					return nil
				})
			}
			for k, f := range []func(context.Context, string, ...func(*httpConnection) error) (Connection, error){NewHTTPConnection, HttpConnectionFactory} {
				applied = 0
				c, err := f(ctx, "http://127.0.0.1:1", options...)
				if c != nil || err == nil || err.Error() != bad || applied != i+1 || len(d.requests) > 0 {
					t.Errorf("%v: option %v fails, %v applied, error %v", k, i, applied, err)
				}
			}
		}
		for _, list := range [][]TransportType{{"x"}, {TransportWebSockets, "LongPolling"}, {TransportWebTransports}} {
			h := &httpConnection{transports: []TransportType{TransportServerSentEvents}}
			if err := WithTransports(list...)(h); err == nil || len(h.transports) != 1 || h.transports[0] != TransportServerSentEvents {
				t.Errorf("WithTransports(%v): %v %v", list, err, h.transports)
			}
		}
		h := &httpConnection{}
		for _, n := range []int{0, 1, -1, 7} {
			if err := WithNegotiateVersion(n)(h); err != nil || *h.negotiateVersion != n {
				t.Errorf("WithNegotiateVersion(%v): %v %v", n, err, *h.negotiateVersion)
			}
		}
		if _, err := NewHTTPConnection(ctx, "http://127.0.0.1:1", nil, WithHTTPClient(&rpDoer23{offer: rpSSE23}), nil); err == nil || !strings.HasPrefix(err.Error(), "GET") {
			t.Errorf("nil options: %v", err)
		}
		d := &rpDoer23{offer: rpSSE23}
		p, _ := rpParty23(t, false)
		c := p.(*client)
		if err := WithHttpConnection(ctx, "http://127.0.0.1:1", WithHTTPClient(d), WithTransports(TransportServerSentEvents))(c); err != nil {
			t.Fatal(err)
		}
		for i := 1; i < 4; i++ {
			_, err := c.connectionFactory()
			if err == nil || len(d.requests) != 2*i {
				t.Errorf("connection %v: %v, %v requests", i, err, len(d.requests))
			}
		}
	})
}
