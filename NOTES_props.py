import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
p("C01","JSON records are recovered exactly, however the byte stream is cut",
 "For every incoming byte stream and every way it is fragmented or coalesced into reads, the JSON protocol yields exactly one message per 0x1e-terminated record, in stream order, and each message depends on its own record only. Bytes after the last terminator are kept unchanged for the next read; no byte is lost, duplicated or reordered.",
 ["inputs","histories"],"all byte streams, all fragmentations into reads, all states of the leftover buffer",
 "the tests send whole records in one write; the guarantee is over every cut of every stream",
 ["jsonhubprotocol.go"],[("frame splitter","readJSONFrames, parseJSONFrames"),("record decoder","jsonHubProtocol.ParseMessages")],
 [("remainBuf","bytes after the last complete record","hubconnection.go Receive")],["ParseMessages results and leftover buffer"])
p("C02","MessagePack messages are recovered exactly, however the byte stream is cut",
 "For every incoming byte stream and every way it is fragmented or coalesced into reads, the MessagePack protocol yields exactly one message per length prefix, in stream order, decoded from exactly the announced bytes (frames of length zero are skipped; the messages before an invalid frame are delivered). Bytes that belong to a later frame are kept unchanged for the next read; no byte is invented, lost, duplicated or reordered.",
 ["inputs","histories"],"all byte streams, all fragmentations into reads, all states of the leftover buffer",
 "the tests feed one complete frame per read; short reads and coalesced frames are never tried",
 ["messagepackhubprotocol.go"],[("frame splitter","messagePackHubProtocol.readFrames"),("frame decoder loop","messagePackHubProtocol.ParseMessages")],
 [("remainBuf","bytes of the not yet complete frame","hubconnection.go Receive")],["ParseMessages results and leftover buffer"])
p("C03","The receive size limit rejects exactly the oversized messages",
 "With a maximum receive message size configured, no message whose body (without terminator or length prefix) is longer than the maximum is ever delivered: the reader reports an error instead. A message whose body is not longer than the maximum is never rejected for its size, whatever other messages share its reads, and no transport refuses it.",
 ["inputs","configurations"],"all limits, message sizes and fragmentations",
 "tests try one oversized message per protocol; boundary sizes and coalesced messages are not covered",
 ["jsonhubprotocol.go","messagepackhubprotocol.go","loop.go","options.go"],[("JSON limit","readJSONFrames"),("MessagePack limit","messagePackHubProtocol.readFrames"),("limit is passed on","newLoop, setMaxReceiveMessageSize")])
p("C04","JSON wire form of hub messages is faithful in both directions",
 "Every hub message is written to the transport in a single write as one JSON object carrying the SignalR field names and exactly the message's values, followed by one 0x1e and containing no other terminator; a message that cannot be encoded writes nothing and reports an error. Decoding a record gives the message kind named by its type field with target, ids, arguments, stream ids, item, result and error taken unchanged from the record, an absent result stays absent, and a malformed record gives an error.",
 ["inputs"],"all messages of every kind, all records",
 "round trips are sampled for a few values; dropped fields or kind confusion on other kinds would pass",
 ["jsonhubprotocol.go","hubprotocol.go"],[("encoder","jsonHubProtocol.WriteMessage"),("decoder","jsonHubProtocol.parseMessage"),("field names","struct tags in hubprotocol.go")])
p("C05","MessagePack wire form of hub messages is faithful in both directions",
 "Every hub message is written to the transport in a single write as its length prefix followed by the SignalR MessagePack array for its kind, with exactly the message's values in the specified positions; a message that cannot be encoded writes nothing and reports an error. Decoding any array a conforming peer may send gives the same kind and values back, and a truncated, mistyped or unknown array gives an error or is ignored but never a message with made-up values.",
 ["inputs"],"all messages of every kind, all frames",
 "round trips are sampled for a few values; array lengths, positions, optional parts and result kinds are not enumerated",
 ["messagepackhubprotocol.go"],[("encoder","messagePackHubProtocol.WriteMessage, encodeMsgHeader"),("decoder","messagePackHubProtocol.parseMessage, decodeInvocationID")])
p("C06","Each blocking invocation gets exactly one completion, non-blocking ones none",
 "Every received invocation that carries an invocation id is answered by exactly one completion with that id - also when the method is unknown, the arguments do not fit, the method panics, returns nothing, several values or a channel - and an invocation without id is never answered. An error completion carries an error text and no result, the answer to a successful call carries the returned value, and stack traces are only sent when detailed errors are enabled.",
 ["inputs","programs","schedules"],"all invocations, all hub methods and their outcomes, all interleavings of the goroutines serving them",
 "tests sample single outcomes and look only at the first answer; duplicates or answers to non-blocking calls go unnoticed",
 ["loop.go"],[("dispatch","loop.handleInvocationMessage"),("answer","loop.returnInvocationResult, loop.sendResult"),("panic","loop.recoverInvocationPanic")],
 None,["messages sent on the hub connection"])
p("C07","Streams deliver every item once, in order, and end with one completion",
 "While the connection lives, every value a streamed channel yields is sent as exactly one stream item with the id of that stream, in channel order, and when the channel is closed exactly one completion without error follows; nothing is sent for a stream after its completion. A stream an argument of a call starts only after the call that announces it was sent. Once the connection is cancelled nothing more is sent for the stream.",
 ["schedules","histories"],"all channel contents and lengths, all interleavings with cancellation",
 "tests stream a handful of items without concurrent events",
 ["streamer.go","loop.go"],[("stream pump","streamer.Start"),("ids for uploads","loop.PushStreams")],None,["StreamItem and Completion on the hub connection"])
p("C08","Cancelling a stream works every time and its bookkeeping stays bounded",
 "After the cancellation of a running stream has been received, the stream ends at the latest when its channel next yields a value or is closed: at most the item already being sent still goes out, then exactly one completion follows and no further item. This holds for every stream however many streams were cancelled on the connection before. A cancellation received before its stream starts is remembered, unless the configured maximum of remembered cancellations is reached, and the number of remembered cancellations never exceeds that maximum.",
 ["histories","schedules"],"all sequences of starts, cancels and items",
 "tests cancel one stream once; state left over by earlier cancellations needs long histories",
 ["streamer.go","loop.go"],[("cancel","streamer.Stop"),("pump","streamer.Start")],[("cancels","pending cancellations","streamer")])
p("C09","A completion resolves exactly the call it belongs to, once",
 "A completion received for a pending call delivers its result or its error to that call only, closes that call's channels and forgets the call, leaving every other pending call untouched; a completion for an unknown id is reported as an error. An error completion reaches the caller as exactly one error result, a completion with a value as exactly one result carrying that value, and neither adds spurious empty results.",
 ["inputs","histories","schedules"],"all sets of pending calls, all completions, all interleavings with other calls",
 "tests have one pending call at a time; BUILD notes report spurious empty results in up to 30% of runs",
 ["invokeclient.go","Invokeresult.go","loop.go"],[("pending table","invokeClient"),("routing","loop.handleCompletionMessage"),("result channel","newInvokeResultChan")],
 [("resultChans","pending calls by invocation id","invokeClient")])
p("C10","The message loop's life cycle is complete on every exit path",
 "For every connection the party is told exactly once that it is connected, before any message is processed, and exactly once that it is disconnected, after the last one, on every way the loop can end: peer close, protocol or transport error, timeout, failed ping or cancellation; every received message is processed once, in order, as what it is, until the loop ends. The loop ends without error only after a close message without error. When it ends every call still pending, also one started meanwhile, gets an error, its channels are closed, the hub connection is cancelled, and if it ended by an error a close message with that error and the party's reconnect permission is sent.",
 ["fault_sequences","histories","schedules"],"all message sequences, faults and cancellation points",
 "tests exercise single endings; combinations of pending calls and endings are not enumerated",
 ["loop.go","invokeclient.go"],[("loop","loop.Run"),("pending calls","invokeClient.cancelAllInvokes")])
p("C11","Invocation and stream ids are unique per connection under concurrency",
 "No two requests for a new id on one connection return the same id, however many goroutines ask concurrently; every call of a client and every stream it pushes uses the id of an own request, once, so no two calls or streams of one connection share an id.",
 ["schedules"],"all interleavings of concurrent callers",
 "duplicates need two callers to interleave between two instructions",
 ["loop.go","client.go"],[("id source","loop.GetNewID"),("users of ids","client.Invoke, Send, PullStream, PushStreams; loop.PullStream, loop.PushStreams")],[("lastID","counter","loop")])
p("C12","Messages reach exactly the addressed connections; groups follow membership",
 "A message sent to all, to a client or to a group is sent once to every connected client, to exactly that client if it is connected, or to every current member of the group, with unchanged target and arguments and no invocation id, and to nobody else. Adding or removing a connection changes only that group and that connection, only connected clients can be added, and after a disconnect a connection is in no group and receives nothing, whatever else runs concurrently.",
 ["histories","schedules","inputs"],"all connection tables, groups and interleavings of add, remove, connect and disconnect",
 "tests use two connections and a fixed order of operations",
 ["hublifetimemanager.go","hubclients.go","clientproxy.go","groupmanager.go"],[("delivery","defaultHubLifetimeManager.Invoke*"),("membership","AddToGroup, RemoveFromGroup, OnDisconnected, groupMap"),("addressing","callerHubClients, client proxies")],
 [("clients","connected clients by id","defaultHubLifetimeManager"),("groups","members by group name","defaultHubLifetimeManager")])
p("C13","Keep-alive pings and receive timeout follow the configured intervals",
 "The message loop sends a ping whenever a keep-alive check finds that nothing was written for at least the keep-alive interval, never earlier, and otherwise schedules the next check for the end of the remaining time; after a ping the next check is due within the keep-alive interval. Every write of a message is remembered as the time of the last write. Every received message restarts the receive timeout, and the loop ends with an error only when the timeout interval has passed without one, with the intervals taken from the configuration.",
 ["histories","configurations","schedules"],"all sequences of messages, writes and ticks; all interval settings",
 "tests wait for one ping or one timeout with fixed settings",
 ["loop.go","hubconnection.go"],[("timers","loop.Run"),("write stamp","defaultHubConnection.writeMessage, LastWriteStamp")])
p("C14","No hub traffic without a successful handshake on the same protocol",
 "The server runs a connection only after it received a well-formed handshake naming a supported protocol and wrote one positive handshake response; otherwise it returns an error, and for an unsupported protocol it answers one handshake response that is a JSON object with an error. The client starts only after it wrote one handshake request and received a response without error, both sides give up after the handshake timeout, and they use the protocol that was requested. No byte behind the handshake message is lost, and a client does not use the connection of a failed handshake again when it can get a new one.",
 ["inputs","fault_sequences"],"all handshake bytes, all read and write failures, all timings",
 "tests send a few fixed handshakes",
 ["server.go","client.go"],[("server side","server.Serve, processHandshake, receiveHandshakeRequest, sendHandshakeResponse"),("client side","client.processHandshake, sendHandshakeRequest, receiveHandshakeResponse")])
p("C15","A negotiated connection id starts at most one connection, within the limit",
 "Every negotiation is answered with a fresh id and starts at most one connection: a second use, an unknown or an expired id is refused, also when requests race, and after the connection ends its id is unusable. The number of pending negotiations never exceeds the configured limit, requests over it get status 429 and leave the table unchanged, and only pending negotiations older than the handshake timeout are expired.",
 ["histories","schedules","inputs"],"all sequences and interleavings of negotiate, connect, post, expire and disconnect",
 "tests negotiate and connect once, in order",
 ["httpmux.go"],[("table","httpMux.connectionMap"),("entry points","negotiate, handlePost, handleServerSentEvent, handleWebsocket, serveConnection, reaperLoop")])
p("C16","Shared tables are only touched under their lock, and locks are always released",
 "Under every schedule, pending calls, upload streams, group members, the HTTP connection table, per-connection hubs, client state and observers, and the connection ids are read and written only while their lock is held, and every lock taken is released on every path, so no operation can race on them or leave them locked for ever.",
 ["schedules"],"all interleavings and all paths, including error and cancellation paths",
 "the race detector only sees schedules that happen; a leaked lock needs a specific failure path",
 ["invokeclient.go","streamclient.go","hublifetimemanager.go","httpmux.go","server.go","client.go","connectionbase.go","serversseconnection.go","hub.go","hubconnection.go"],
 [("locks","mx, mu, cm, connectionHubsMutex")])
p("C17","With a per-connection factory each connection has exactly one hub instance",
 "With PerConnectionHubFactory the connected callback, every invocation and the disconnected callback of one connection run on the same hub instance, initialized with that connection's context, under every interleaving. The factory creates exactly one instance per connection (also for logging it is not called again), and once the disconnect has been handled the server keeps no instance for the connection and leaves those of other connections alone.",
 ["schedules","histories"],"all interleavings of connect, invocations and disconnect",
 "the tests only construct the server",
 ["server.go"],[("instance table","server.invocationTarget, getConnectionHub, setConnectionHub, removeConnectionHub"),("callbacks","server.onConnected, server.onDisconnected")])
p("C18","Uploaded stream items reach exactly their stream's channel, in order",
 "Each received stream item is delivered, once and in order, to the channel bound to its stream id and to no other; an item for an unknown stream is an error. A completion closes exactly that stream's channel once and forgets it, and a new upload stream is refused when the configured number of concurrent streams is reached.",
 ["inputs","histories"],"all sets of streams, all item and completion sequences",
 "tests use one or two streams with fixed sequences",
 ["streamclient.go","loop.go"],[("binding","streamClient.buildChannelArgument, newUpstreamChannel"),("delivery","receiveStreamItem, sendChanValSave, receiveCompletionItem")])
p("C19","No message a peer can send crashes the process",
 "For every sequence of bytes and messages a peer can send, decoding and dispatching them never causes a run-time panic (index, nil, conversion, closed channel) outside a recovered hub method call.",
 ["inputs"],"all peer messages and all hub method signatures",
 "tests send well-formed messages and a few malformed ones",
 ["loop.go","jsonhubprotocol.go","messagepackhubprotocol.go","streamclient.go","invokeclient.go"],[("dispatch","handleInvocationMessage, buildMethodArguments, getMethod"),("decoding","ParseMessages, parseMessage, readFrames"),("items","receiveStreamItem, receiveCompletionItem")])
p("C20","Hub methods are called only with the arguments that were sent, in order",
 "An invocation calls at most one method, once: the one whose name equals, ignoring case, the target or the name registered for it as an alternate. Its parameters receive the decoded arguments in order and the upload streams in order; if the counts differ, an argument cannot be decoded or no method matches, nothing is called.",
 ["inputs","programs"],"all invocations and method signatures",
 "tests call a few fixed signatures",
 ["loop.go","streamclient.go","party.go"],[("lookup","getMethod, getMethodNameByAlternateName"),("binding","buildMethodArguments, buildChannelArgument")])
p("C21","Server-sent-events transport carries bytes unchanged and never wedges",
 "What the server writes on a server-sent-events connection is framed so that the client reads back exactly the same messages, however the HTTP body is cut into reads. A rejected or failed POST never blocks later POSTs, each accepted POST body is delivered once and whole, and writes after cancellation fail without blocking the connection.",
 ["inputs","fault_sequences","schedules"],"all payloads, body fragmentations and failure points",
 "tests run over loopback HTTP where bodies arrive in one piece and nothing fails",
 ["serversseconnection.go","clientsseconnection.go"],[("server","serverSSEConnection.Write, consumeRequest"),("client","newClientSSEConnection reader")])
p("C22","Sending on a hub connection reports failures and stops after cancellation",
 "Every send on a hub connection hands exactly one message, with the given ids, target, arguments, result or error, to the protocol, or returns an error without writing when the connection is already cancelled. A failed write is returned to the caller and cancels the connection, and each send is recorded as the time of last write. Only Close hands its close message to the protocol in any case, and returns the result.",
 ["inputs","fault_sequences"],"all messages, write failures and cancellation points",
 "tests use connections that do not fail",
 ["hubconnection.go","connectionbase.go"],[("send","defaultHubConnection.writeMessage and Send*, StreamItem, Completion, Ping, Close"),("cancellable IO","ReadWriteWithContext")])
p("C23","Options are validated and applied to the right party only",
 "Each option stores exactly the given value on the party and nothing else, or returns an error and changes nothing when the value is out of range or the option does not belong to that kind of party. (PerConnectionHubFactory also takes the place of a shared hub factory, HTTPTransports adds to the transports given before, WithReceiver also initialises a receiver once.) Building a server, a client or a connection applies every option once, in order, to the party that is returned, stops at the first error and returns that error. Building a connection with HttpConnectionFactory never alters the option list the caller passed and uses all its options for every attempt (WebSockets first, Server-Sent Events as the fallback, as far as the transports option allows them), so reconnecting uses the same configuration.",
 ["inputs","configurations"],"all option values and option lists, repeated use",
 "tests try one valid and one invalid value per option and connect once",
 ["options.go","serveroptions.go","clientoptions.go","party.go"],[("options","option functions"),("reconnect","HttpConnectionFactory")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
