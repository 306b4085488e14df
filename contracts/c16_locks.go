package signalr

import (
	"context"
	"net/http"
	"reflect"
)

// C16: shared tables are only touched under their lock, and every lock is released on every path.

//govc:guarded invokeClient.mx f:invokeClient.resultChans
//govc:guarded streamClient.mx f:streamClient.upstreamChannels f:streamClient.runningStreams
//govc:guarded groupMap.mu f:groupMap.members
//govc:guarded httpMux.mx f:httpMux.connectionMap
//govc:guarded server.connectionHubsMutex f:server.connectionHubs
//govc:guarded client.mx f:client.state f:client.stateChangeChans f:client.err
//govc:guarded ConnectionBase.mx f:ConnectionBase.connectionID
//govc:guarded defaultHubConnection.mx f:defaultHubConnection.lastWriteStamp
//govc:guarded serverSSEConnection.mx f:serverSSEConnection.postWriting
//govc:auto lockset spawn=separate
//govc:closed f:invokeClient.resultChans f:streamClient.upstreamChannels f:streamClient.runningStreams f:groupMap.members
//govc:closed f:httpMux.connectionMap f:server.connectionHubs f:client.state f:client.stateChangeChans f:client.err
//govc:closed f:ConnectionBase.connectionID f:defaultHubConnection.lastWriteStamp f:serverSSEConnection.postWriting

//govc:task C16 invoke-client lockset spawn=separate
func c16InvokeClient() {
	i := gvAny[*invokeClient]()
	gvAssume(i != nil)
	switch gvFork(5) {
	case 0:
		i.newInvocation(gvAny[string]())
	case 1:
		i.deleteInvocation(gvAny[string]())
	case 2:
		i.cancelAllInvokes()
	case 3:
		i.handlesInvocationID(gvAny[string]())
	case 4:
		_ = i.receiveCompletionItem(gvAny[completionMessage]())
	}
	gvCover("returns")
}

//govc:task C16 stream-client lockset spawn=separate
func c16StreamClient() {
	c := gvAny[*streamClient]()
	gvAssume(c != nil)
	i := gvAny[*invokeClient]()
	gvAssume(i != nil)
	switch gvFork(6) {
	case 0:
		_, _, _ = c.buildChannelArgument(gvAny[invocationMessage](), gvAny[reflect.Type](), gvAny[int]())
	case 1:
		c.newUpstreamChannel(gvAny[string]())
	case 2:
		c.deleteUpstreamChannel(gvAny[string]())
	case 3:
		_ = c.receiveStreamItem(gvAny[streamItemMessage]())
	case 4:
		c.handlesInvocationID(gvAny[string]())
	case 5:
		_ = c.receiveCompletionItem(gvAny[completionMessage](), i)
	}
	gvCover("returns")
}

//govc:task C16 groups lockset spawn=separate
func c16Groups() {
	d := gvAny[*defaultHubLifetimeManager]()
	gvAssume(d != nil)
	conn := gvAny[HubConnection]()
	gvAssume(conn != nil)
	switch gvFork(7) {
	case 0:
		d.OnConnected(conn)
	case 1:
		d.OnDisconnected(conn)
	case 2:
		d.InvokeAll(gvAny[string](), gvAny[[]interface{}]())
	case 3:
		d.InvokeClient(gvAny[string](), gvAny[string](), gvAny[[]interface{}]())
	case 4:
		d.InvokeGroup(gvAny[string](), gvAny[string](), gvAny[[]interface{}]())
	case 5:
		d.AddToGroup(gvAny[string](), gvAny[string]())
	case 6:
		d.RemoveFromGroup(gvAny[string](), gvAny[string]())
	}
	gvCover("returns")
}

//govc:task C16 http-mux lockset spawn=separate
func c16HTTPMux() {
	h := gvAny[*httpMux]()
	gvAssume(gvAnd(h != nil, h.server != nil))
	w := gvAny[http.ResponseWriter]()
	r := gvAny[*http.Request]()
	gvAssume(gvAnd(w != nil, r != nil))
	gvAssume(r.URL != nil)
	switch gvFork(3) {
	case 0:
		h.ServeHTTP(w, r)
	case 1:
		h.negotiate(w, r)
	case 2:
		h.reaperLoop()
	}
	gvCover("returns")
}

//govc:task C16 server-hubs lockset spawn=separate
func c16Server() {
	s := gvAny[*server]()
	gvAssume(s != nil)
	conn := gvAny[HubConnection]()
	gvAssume(conn != nil)
	switch gvFork(3) {
	case 0:
		s.onConnected(conn)
	case 1:
		s.onDisconnected(conn)
	case 2:
		s.invocationTarget(conn)
	}
	gvCover("returns")
}

//govc:task C16 client-state lockset spawn=separate
func c16Client() {
	c := gvAny[*client]()
	gvAssume(c != nil)
	switch gvFork(6) {
	case 0:
		c.State()
	case 1:
		c.setState(gvAny[ClientState]())
	case 2:
		cancel := c.ObserveStateChanged(gvAny[chan ClientState]())
		cancel()
	case 3:
		_ = c.Err()
	case 4:
		c.setErr(gvAny[error]())
	case 5:
		c.WaitForState(gvAny[context.Context](), gvAny[ClientState]())
	}
	gvCover("returns")
}

//govc:task C16 connection-base lockset spawn=separate
func c16ConnectionBase() {
	c := gvAny[*ConnectionBase]()
	gvAssume(c != nil)
	switch gvFork(3) {
	case 0:
		c.ConnectionID()
	case 1:
		c.SetConnectionID(gvAny[string]())
	case 2:
		c.Context()
	}
	gvCover("returns")
}

//govc:task C16 hub-connection lockset spawn=separate
func c16HubConnection() {
	c := gvAny[*defaultHubConnection]()
	gvAssume(c != nil)
	switch gvFork(2) {
	case 0:
		c.LastWriteStamp()
	case 1:
		_ = c.Ping()
	}
	gvCover("returns")
}

//govc:task C16 sse-connection lockset spawn=separate
func c16SSE() {
	s := gvAny[*serverSSEConnection]()
	gvAssume(s != nil)
	switch gvFork(3) {
	case 0:
		r := gvAny[*http.Request]()
		gvAssume(r != nil)
		s.consumeRequest(r)
	case 1:
		_, _ = s.Write(gvAny[[]byte]())
	case 2:
		c, _, _, _ := newServerSSEConnection(gvAny[context.Context](), gvAny[string]())
		_ = c
	}
	gvCover("returns")
}
