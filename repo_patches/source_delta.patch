From d8c9c8e29d38eabf074d0e1b04eac48680e74de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 01/37] fix: GetNewID must return the id it incremented to, not
 a later one

---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 3d413d0..bfd999b 100644
--- a/loop.go
+++ b/loop.go
@@ -190,8 +190,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From 23d3518f46bde41c9cd4ca105ff909543b903c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 02/37] fix: release the lock when a server sent events write
 finds the connection cancelled

---
 serversseconnection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..f3aac0b 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -86,6 +86,7 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	if s.Context().Err() == nil {
 		s.jobChan <- []byte(payload + "\n")
 	} else {
+		s.mx.Unlock()
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	}
 	s.mx.Unlock()
-- 
2.43.0


From 9c690b07e9a0eeb19698e6be3885985ed9dc461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 03/37] fix: a POST that could not be read must not block all
 later POSTs of a server sent events connection

---
 serversseconnection.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index f3aac0b..06a4487 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -51,14 +51,18 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 		_ = request.Body.Close()
 	}()
 	body, err := io.ReadAll(request.Body)
-	if err != nil {
-		return http.StatusBadRequest // 400
-	} else if _, err := s.postWriter.Write(body); err != nil {
-		return http.StatusInternalServerError // 500
+	var writeErr error
+	if err == nil {
+		_, writeErr = s.postWriter.Write(body)
 	}
 	s.mx.Lock()
 	s.postWriting = false
 	s.mx.Unlock()
+	if err != nil {
+		return http.StatusBadRequest // 400
+	} else if writeErr != nil {
+		return http.StatusInternalServerError // 500
+	}
 	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
-- 
2.43.0


From 0f792871193acde184aae5cf5d4108bab6811975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 04/37] fix: a completion must resolve its call once, without
 an additional empty result

receiveCompletionItem sent an additional nil to the error channel after each value,
which Invoke delivered as an empty InvokeResult, and it could send to channels
another goroutine was closing.
---
 invokeclient.go | 55 +++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..62b5aa9 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -71,47 +71,26 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 }
 
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
-	defer i.deleteInvocation(completion.InvocationID)
+	// Take the invocation out of the map, so nobody else sends to its channels or closes them
 	i.mx.Lock()
 	ir, ok := i.resultChans[completion.InvocationID]
+	delete(i.resultChans, completion.InvocationID)
 	i.mx.Unlock()
-	if ok {
-		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
-			}
-		}
-		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-			}
+	if !ok {
+		return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	}
+	defer close(ir.resultChan)
+	defer close(ir.errChan)
+	// Both channels are buffered and this is the only item they get, so sending never blocks
+	if completion.Error != "" {
+		ir.errChan <- errors.New(completion.Error)
+	} else if completion.Result != nil {
+		var result interface{}
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			ir.errChan <- err
+			return err
 		}
-		return nil
+		ir.resultChan <- result
 	}
-	return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	return nil
 }
-- 
2.43.0


From 7a51738acf6493d84dedefbcbf5ff8db5d205c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 05/37] fix: PushStreams must accept a nil argument

The type of a nil interface is nil, asking it for its kind panicked in a goroutine
of the client and ended the process.
---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index bfd999b..bc2e89d 100644
--- a/loop.go
+++ b/loop.go
@@ -169,7 +169,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if argType := reflect.TypeOf(arg); argType != nil && argType.Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From f6b741433685bc4cae6a604caef42e08b1a88ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 06/37] fix: a client that disconnects while it is added to a
 group must not stay in the group

---
 hublifetimemanager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hublifetimemanager.go b/hublifetimemanager.go
index 7f3f4a2..fe84680 100644
--- a/hublifetimemanager.go
+++ b/hublifetimemanager.go
@@ -111,6 +111,10 @@ func (d *defaultHubLifetimeManager) AddToGroup(groupName string, connectionID st
 	if client, ok := d.clients.Load(connectionID); ok {
 		gm, _ := d.groups.LoadOrStore(groupName, &groupMap{members: make(map[string]HubConnection)})
 		gm.(*groupMap).add(connectionID, client.(HubConnection))
+		// The client might have been disconnected meanwhile, after its groups were cleaned up
+		if _, ok = d.clients.Load(connectionID); !ok {
+			gm.(*groupMap).remove(connectionID)
+		}
 	}
 }
 
-- 
2.43.0


From 8732eda78c85dfaca76e4a53998729ef242f0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 07/37] fix: an invocation without invocation id must not be
 answered, not even with an error

---
 loop.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index bc2e89d..48fc76b 100644
--- a/loop.go
+++ b/loop.go
@@ -200,16 +200,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.rejectInvocation(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.rejectInvocation(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.rejectInvocation(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -224,6 +224,14 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// rejectInvocation sends a completion with error for an invocation which did not reach a method
+func (l *loop) rejectInvocation(invocation invocationMessage, errorText string) {
+	// No invocation id, no completion
+	if invocation.InvocationID != "" {
+		_ = l.hubConn.Completion(invocation.InvocationID, nil, errorText)
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From b725d566a8ee4854b8a4e4cbd807e0c675a93a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 08/37] fix: a hub method which returns a send only channel
 must not crash the process

---
 loop.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/loop.go b/loop.go
index 48fc76b..9229945 100644
--- a/loop.go
+++ b/loop.go
@@ -237,6 +237,11 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 	if invocation.InvocationID != "" {
 		// if the hub method returns a chan, it should be considered asynchronous or source for a stream
 		if len(result) == 1 && result[0].Kind() == reflect.Chan {
+			if result[0].Type().ChanDir() == reflect.SendDir {
+				// Receiving would panic
+				l.rejectInvocation(invocation, "hub func returned send only chan")
+				return
+			}
 			switch invocation.Type {
 			// Simple invocation
 			case 1:
-- 
2.43.0


From 27a1d4f15c6e876445066d130da7a103cf8f57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 09/37] fix: an invocation with more stream ids than channel
 parameters must not crash the process

---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 9229945..b013351 100644
--- a/loop.go
+++ b/loop.go
@@ -371,6 +371,9 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			// it is
 			chanCount++
 			arguments[i] = arg
+		} else if i-chanCount >= len(invocation.Arguments) {
+			// it is not, but there are more StreamIds than channel parameters
+			return nil, fmt.Errorf("parameter mismatch calling method %v", invocation.Target)
 		} else {
 			// it is not, so do the normal thing
 			arg := reflect.New(t)
-- 
2.43.0


From 217423751eb9fb3de07f7316a76d82a4f6558c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 10/37] fix: do not leak a goroutine for each stream item which
 was not received in time

---
 streamclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamclient.go b/streamclient.go
index 1ee7781..20acfbc 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -82,7 +82,8 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	// Buffered, so the goroutine ends even when the timeout is over
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
-- 
2.43.0


From 6d87631b2fa25b5ce71b21473d8d2b9f109a5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 11/37] fix: a completion must not close a stream channel which
 is closed concurrently

---
 streamclient.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 20acfbc..ae8250f 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -118,7 +118,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -142,11 +142,11 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		// Close the channel, if this has not been done meanwhile
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
 		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
 		delete(c.runningStreams, completion.InvocationID)
 		c.mx.Unlock()
 		return err
-- 
2.43.0


From 179a628d8fd2e1c7bb87afd36a10d047e4e33da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 12/37] fix: an upload stream must not take over the id of a
 running stream

---
 streamclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamclient.go b/streamclient.go
index ae8250f..5e196c2 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,10 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			// The running stream would be lost, its channel never be closed
+			return reflect.Value{}, true, fmt.Errorf("stream id %q is already in use", invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
-- 
2.43.0


From fc11d28203906c2566b5072a9237b16633853532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 13/37] fix: cancelling a stream must work however many streams
 were cancelled before

---
 streamer.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/streamer.go b/streamer.go
index faf8486..1a49f08 100644
--- a/streamer.go
+++ b/streamer.go
@@ -11,20 +11,28 @@ type streamer struct {
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
 	maxCancels  uint
 	conn        HubConnection
+	mx          sync.Mutex
+	running     map[string]*runningStream
+}
+
+type runningStream struct {
+	count     int // streams running with the same id
+	cancelled atomic.Bool
 }
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
+	stream := s.begin(invocationID)
 	go func() {
+		defer s.end(invocationID, stream)
 	loop:
 		for {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
-				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
-					_ = s.conn.Completion(invocationID, nil, "")
+				if s.conn.Context().Err() != nil {
 					break loop
 				}
-				if s.conn.Context().Err() != nil {
+				if stream.cancelled.Load() {
+					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
 				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
@@ -38,7 +46,43 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	}()
 }
 
+// begin registers a stream as running. It is cancelled from the start when its cancellation was received before.
+func (s *streamer) begin(invocationID string) *runningStream {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	stream, ok := s.running[invocationID]
+	if !ok {
+		stream = &runningStream{}
+		if s.running == nil {
+			s.running = make(map[string]*runningStream)
+		}
+		s.running[invocationID] = stream
+	}
+	stream.count++
+	if _, loaded := s.cancels.LoadAndDelete(invocationID); loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+		stream.cancelled.Store(true)
+	}
+	return stream
+}
+
+func (s *streamer) end(invocationID string, stream *runningStream) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	stream.count--
+	if stream.count == 0 {
+		delete(s.running, invocationID)
+	}
+}
+
 func (s *streamer) Stop(invocationID string) {
+	s.mx.Lock()
+	defer s.mx.Unlock()
+	if stream, ok := s.running[invocationID]; ok {
+		stream.cancelled.Store(true)
+		return
+	}
+	// The stream might be started later
 	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
-- 
2.43.0


From 8205ab1af55227752ebdebdb78a84a20794ebd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 14/37] fix: a call started while the message loop ends must
 not hang

---
 loop.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index b013351..45b9266 100644
--- a/loop.go
+++ b/loop.go
@@ -142,8 +142,9 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// Abort first: a call that is started meanwhile either fails to send or is canceled
 	l.hubConn.Abort()
+	l.invokeClient.cancelAllInvokes()
 	return err
 }
 
-- 
2.43.0


From e24f68554d15d330b7cd878c6f70006fd77c4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 15/37] fix: the callbacks of a connection run on its hub,
 which is not created again after the disconnect

---
 server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 7989887..209a795 100644
--- a/server.go
+++ b/server.go
@@ -151,16 +151,24 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	// Get the hub now: later the connection might be disconnected and its hub removed
+	defer s.recoverHubLifeCyclePanic()
+	hub := s.invocationTarget(hc).(HubInterface)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		hub.OnConnected(hc.ConnectionID())
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
-	go func() {
+	func() {
+		// Get the hub now: it is removed below
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
+		hub := s.invocationTarget(hc).(HubInterface)
+		go func() {
+			defer s.recoverHubLifeCyclePanic()
+			hub.OnDisconnected(hc.ConnectionID())
+		}()
 	}()
 	s.lifetimeManager.OnDisconnected(hc)
 
-- 
2.43.0


From ef73809e5d8144b613412080fa410d1acb33e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 16/37] fix: do not create a hub of a connection only for
 logging its type

---
 server.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/server.go b/server.go
index 209a795..1c3b26f 100644
--- a/server.go
+++ b/server.go
@@ -216,13 +216,13 @@ func (s *server) recoverHubLifeCyclePanic() {
 func (s *server) prefixLoggers(connectionID string) (info StructuredLogger, dbg StructuredLogger) {
 	hubType := reflect.TypeOf(nil)
 	if s.perConnectionHubFactory != nil {
-		// Create a temporary hub to get the type for logging
-		tempHub := s.perConnectionHubFactory(connectionID)
-		hubValue := reflect.ValueOf(tempHub)
-		if hubValue.Kind() == reflect.Ptr {
-			hubType = hubValue.Elem().Type()
+		// Do not call the factory only for logging, it is called once per connection
+		if hub, exists := s.getConnectionHub(connectionID); exists {
+			hubValue := reflect.ValueOf(hub)
+			if hubValue.Kind() == reflect.Ptr {
+				hubType = hubValue.Elem().Type()
+			}
 		}
-		
 	} else if s.newHub != nil {
 		hubValue := reflect.ValueOf(s.newHub())
 		if hubValue.Kind() == reflect.Ptr {
-- 
2.43.0


From 6ee33e6445905cca3642537647a8ae9572741e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:23 +0000
Subject: [PATCH 17/37] fix: panicking hub callbacks must not race on
 reconnectAllowed

---
 server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 1c3b26f..13e8e3f 100644
--- a/server.go
+++ b/server.go
@@ -11,6 +11,7 @@ import (
 	"reflect"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 
 	"github.com/go-kit/log"
 )
@@ -48,7 +49,7 @@ type server struct {
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
-	reconnectAllowed           bool
+	reconnectAllowed           atomic.Bool
 	transports                 []TransportType
 	negotiationConnectionLimit int
 }
@@ -63,9 +64,9 @@ func NewServer(ctx context.Context, options ...func(Party) error) (Server, error
 		connectionHubs:            make(map[string]HubInterface),
 		// Do NOT initialize defaultHubClients or groupManager yet
 		partyBase:                  newPartyBase(ctx, info, dbg),
-		reconnectAllowed:           true,
 		negotiationConnectionLimit: 1000,
 	}
+	server.reconnectAllowed.Store(true)
 	// apply any option including lifetime manager, logger, etc.
 	for _, option := range options {
 		if option != nil {
@@ -200,12 +201,12 @@ func (s *server) invocationTarget(conn HubConnection) interface{} {
 }
 
 func (s *server) allowReconnect() bool {
-	return s.reconnectAllowed
+	return s.reconnectAllowed.Load()
 }
 
 func (s *server) recoverHubLifeCyclePanic() {
 	if err := recover(); err != nil {
-		s.reconnectAllowed = false
+		s.reconnectAllowed.Store(false)
 		info, dbg := s.prefixLoggers("")
 		_ = info.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect")
 		_ = dbg.Log(evt, "panic in hub lifecycle", "error", err, react, "close connection, allow no reconnect", "stack", string(debug.Stack()))
-- 
2.43.0


From 9550481e677560315fef26ada2de6c1002c20e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:44 +0000
Subject: [PATCH 18/37] fix: a JSON message without type must not get the type
 of the message before it

---
 jsonhubprotocol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..eec9bfc 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -70,9 +70,10 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		// each frame stands for itself, do not keep the type of the previous one
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-- 
2.43.0


From ce79462e5e0bf79259235eaa2950a17c37849dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 19/37] fix: the receive size limit applies to each JSON
 message, not to all which were read together

---
 jsonhubprotocol.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index eec9bfc..de6bd92 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -155,13 +155,21 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 }
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// maxSize is the maximum number of bytes of a frame (without its delimiter); 0 means unlimited.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
 	_, _ = buf.ReadFrom(remainBuf)
 	// Try getting data until at least one frame is available
 	for {
+		frames, err := parseJSONFrames(buf, maxSize)
+		if err != nil {
+			return nil, err
+		}
+		if len(frames) > 0 {
+			_, _ = remainBuf.ReadFrom(buf)
+			return frames, nil
+		}
 		n, err := reader.Read(p)
 		// Some reader implementations return io.EOF additionally to n=0 if no data could be read
 		if err != nil && !errors.Is(err, io.EOF) {
@@ -169,24 +177,22 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 		}
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
-			frames, err := parseJSONFrames(buf)
-			if err != nil {
-				return nil, err
-			}
-			if len(frames) > 0 {
-				_, _ = remainBuf.ReadFrom(buf)
-				return frames, nil
-			}
 		}
 	}
 }
 
-func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
+// parseJSONFrames takes all complete frames from buf. It stops at a frame which exceeds maxSize and reports an error
+// if this is the first one.
+func parseJSONFrames(buf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	frames := make([][]byte, 0)
 	for {
+		if end := bytes.IndexByte(buf.Bytes(), 0x1e); maxSize > 0 && (end > maxSize || end < 0 && buf.Len() > maxSize) {
+			if len(frames) > 0 {
+				// The complete frames come first, the next call will report the error
+				break
+			}
+			return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+		}
 		frame, err := buf.ReadBytes(0x1e)
 		if errors.Is(err, io.EOF) {
 			// Restore incomplete frame in buffer
-- 
2.43.0


From 893c68843298ae6709317daa125b6b20b45ac4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 20/37] fix: read MessagePack frames byte by byte exact,
 however they are cut

---
 messagepackhubprotocol.go | 96 +++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 55 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..83275a3 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -32,69 +32,55 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	return messages, nil
 }
 
+// readFrames reads until at least one frame is complete and leaves the bytes after the last complete frame in remainBuf.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+		frames, err := m.parseFrames(remainBuf)
+		if err != nil || len(frames) > 0 {
+			return frames, err
+		}
+		n, err := reader.Read(p)
+		if n > 0 {
+			_, _ = remainBuf.Write(p[:n])
+		}
+		if errors.Is(err, io.EOF) {
+			if n > 0 {
+				continue
+			}
+			// No complete frame. Let the caller come here again later
+			return frames, nil
+		}
+		if err != nil {
 			return nil, err
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
+	}
+}
+
+// parseFrames takes all complete frames from buf. It stops at an invalid frame and reports an error if this is the
+// first one. Empty frames are skipped.
+func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		frameLen, lenLen := binary.Uvarint(buf.Bytes())
+		var err error
+		if lenLen < 0 {
+			err = fmt.Errorf("messagepack frame length to large")
+		} else if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
+			err = fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
+		}
+		if err != nil && len(frames) == 0 {
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
+		if err != nil || lenLen == 0 || uint64(buf.Len()-lenLen) < frameLen {
+			// Invalid: the complete frames come first, the next call will report the error
+			// Incomplete: wait for more bytes
 			return frames, nil
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
-		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
-		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				return frames, nil
-			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+		_ = buf.Next(lenLen)
+		if frameLen > 0 {
+			// Next returns a slice of the buffer, which is overwritten later
+			frames = append(frames, append([]byte{}, buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From 4419a0d7163068344fdded4830b2b277bc6aabe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 21/37] fix: messages before an invalid one must be delivered,
 even if they were read together

---
 hubconnection.go          | 20 ++++++++++----------
 jsonhubprotocol.go        |  7 ++++---
 messagepackhubprotocol.go |  3 ++-
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..42824b2 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -142,6 +142,16 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 				break loop
 			default:
 				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+				// In case of an error, these are the messages before the invalid one
+				for _, message := range messages {
+					select {
+					case recvChan <- receiveResult{message: message}:
+					case <-ctx.Done():
+						break loop
+					case <-writerDone:
+						break loop
+					}
+				}
 				if err != nil {
 					select {
 					case recvChan <- receiveResult{err: err}:
@@ -150,16 +160,6 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 					case <-writerDone:
 						break loop
 					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
-					}
 				}
 			}
 		}
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index de6bd92..f56f69e 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -64,7 +64,8 @@ func (j *jsonHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) er
 	return nil
 }
 
-// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf
+// ParseMessages reads all messages from the reader and puts the remaining bytes into remainBuf.
+// With an error, it returns the messages before the invalid one.
 func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffer) (messages []interface{}, err error) {
 	frames, err := readJSONFrames(reader, remainBuf, int(j.maximumReceiveMessageSize))
 	if err != nil {
@@ -77,11 +78,11 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-			return nil, &jsonError{string(frame), err}
+			return messages, &jsonError{string(frame), err}
 		}
 		typedMessage, err := j.parseMessage(message.Type, frame)
 		if err != nil {
-			return nil, err
+			return messages, err
 		}
 		// No specific type (aka Ping), use hubMessage
 		if typedMessage == nil {
diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 83275a3..2e75413 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -25,7 +25,8 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	for _, frame := range frames {
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
-			return nil, err
+			// The messages before the invalid one are fine
+			return messages, err
 		}
 		messages = append(messages, message)
 	}
-- 
2.43.0


From 78b0d45b308d169c3d3356cc33f70b6b28118356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 22/37] fix: read long WebSocket messages completely

---
 websocketconnection.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..6c1b66d 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,9 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -21,6 +21,7 @@ func NewWebSocketConnection(ctx context.Context, reqURL *url.URL, connectionID s
 type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
+	reader       io.Reader // of the current message
 	transferMode TransferMode
 }
 
@@ -29,6 +30,8 @@ func newWebSocketConnection(ctx context.Context, connectionID string, conn *webs
 		conn:           conn,
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
 	}
+	// Read passes long messages on in parts, the maximum message size is checked by the hub protocol
+	conn.SetReadLimit(-1)
 	return w
 }
 
@@ -56,11 +59,23 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
+			for {
+				if w.reader == nil {
+					_, reader, err := w.conn.Reader(w.Context())
+					if err != nil {
+						return 0, err
+					}
+					w.reader = reader
+				}
+				n, err := w.reader.Read(p)
+				if err == io.EOF {
+					// End of this message
+					w.reader, err = nil, nil
+				}
+				if n > 0 || err != nil {
+					return n, err
+				}
 			}
-			return bytes.NewReader(data).Read(p)
 		},
 		func() {})
 	if err != nil {
-- 
2.43.0


From eb9cc2562f1024709b5ce002cd9a410a46a88216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 23/37] fix: several hub messages may share a WebSocket
 message, limit each of them only

---
 client.go  | 4 ----
 httpmux.go | 1 -
 2 files changed, 5 deletions(-)

diff --git a/client.go b/client.go
index 1baf2b7..561c55c 100644
--- a/client.go
+++ b/client.go
@@ -299,10 +299,6 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 				return nil, err
 			}
 		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-		}
 		protocol, err := c.processHandshake()
 		if err != nil {
 			return nil, err
diff --git a/httpmux.go b/httpmux.go
index 9d21116..883bac8 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -187,7 +187,6 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
-- 
2.43.0


From 8190eb539099d9b71430786c38a97a1c45caec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 24/37] fix: a posted message of the maximum size must not be
 rejected because of its terminator

---
 httpmux.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index 883bac8..437804b 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -79,7 +79,8 @@ func (h *httpMux) handlePost(writer http.ResponseWriter, request *http.Request)
 			// Connection is initiated
 			switch conn := c.(type) {
 			case *serverSSEConnection:
-				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize()))
+				// a message and its terminator
+				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize())+1)
 				writer.WriteHeader(conn.consumeRequest(request))
 				return
 			case *negotiateConnection:
-- 
2.43.0


From 49f015291cff9a291aa196b16a8900bab0357850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 25/37] fix: an unsupported transport must not change the
 transports of the server

---
 serveroptions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serveroptions.go b/serveroptions.go
index 420ad9b..9cd1964 100644
--- a/serveroptions.go
+++ b/serveroptions.go
@@ -48,11 +48,12 @@ func HTTPTransports(transports ...TransportType) func(Party) error {
 			for _, transport := range transports {
 				switch transport {
 				case TransportWebSockets, TransportServerSentEvents:
-					s.transports = append(s.transports, transport)
+					// Supported
 				default:
 					return fmt.Errorf("unsupported transport: %v", transport)
 				}
 			}
+			s.transports = append(s.transports, transports...)
 			return nil
 		}
 		return errors.New("option Transports is server only")
-- 
2.43.0


From cb2af61f904b924b45650bcaf916c56b43f13ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:16 +0000
Subject: [PATCH 26/37] fix: HttpConnectionFactory must not alter the options
 of its caller

---
 clientoptions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..8d97f12 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,6 +42,8 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
+	// The caller uses its options again for reconnect, they must not be altered
+	options = append([]func(*httpConnection) error{}, options...)
 	for i, option := range options {
 		if err := option(conn); err != nil {
 			return nil, err
-- 
2.43.0


From fb063109ccc8880aae1525402ae9a4508f8ca185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:31 +0000
Subject: [PATCH 27/37] fix: what follows the handshake belongs to the message
 loop, it must not get lost

---
 client.go |  3 ++-
 server.go | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 561c55c..d00325f 100644
--- a/client.go
+++ b/client.go
@@ -595,10 +595,11 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
+	reader := &handshakeReader{ctx, c.conn}
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
 		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
+		rawHandshake, err := readJSONFrames(reader, &remainBuf, 0)
 		readJSONFramesChan <- []interface{}{rawHandshake, err}
 	}()
 	select {
diff --git a/server.go b/server.go
index 13e8e3f..ef0ec0e 100644
--- a/server.go
+++ b/server.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"net/http"
 	"os" // Add os import
 	"reflect"
@@ -267,10 +268,11 @@ func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, err
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
+	reader := &handshakeReader{ctx, conn}
 	readJSONFramesChan := make(chan []interface{}, 1)
 	go func() {
 		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
+		rawHandshake, err := readJSONFrames(reader, &remainBuf, 0)
 		readJSONFramesChan <- []interface{}{rawHandshake, err}
 	}()
 	request := handshakeRequest{}
@@ -318,6 +320,19 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 	return protocol, err
 }
 
+// handshakeReader reads no more than the next byte. Everything behind the handshake message belongs to the message loop
+type handshakeReader struct {
+	ctx    context.Context
+	reader io.Reader
+}
+
+func (h *handshakeReader) Read(p []byte) (int, error) {
+	if err := h.ctx.Err(); err != nil {
+		return 0, err
+	}
+	return h.reader.Read(p[:1])
+}
+
 var protocolMap = map[string]hubProtocol{
 	"json":        &jsonHubProtocol{},
 	"messagepack": &messagePackHubProtocol{},
-- 
2.43.0


From bf1ffe1af77a0b17c94c40a50175742211dcb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:38 +0000
Subject: [PATCH 28/37] fix: the handshake response for an unsupported protocol
 must be valid JSON whatever its name is

---
 server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index ef0ec0e..be27aa7 100644
--- a/server.go
+++ b/server.go
@@ -310,8 +310,11 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				response, jsonErr := json.Marshal(handshakeResponse{Error: err.Error()})
+				if jsonErr != nil {
+					return 0, jsonErr
+				}
+				return conn.Write(append(response, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 84cf55edb69f23381055e2a89b25d3f624b88efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:06 +0000
Subject: [PATCH 29/37] fix: a client must not reconnect on the connection
 whose handshake failed

---
 client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index d00325f..a0b4e49 100644
--- a/client.go
+++ b/client.go
@@ -301,6 +301,10 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 		}
 		protocol, err := c.processHandshake()
 		if err != nil {
+			if c.connectionFactory != nil {
+				// The state of this connection is unknown, reconnect with a new one
+				c.conn = nil
+			}
 			return nil, err
 		}
 
@@ -576,12 +580,13 @@ func (c *client) processHandshake() (hubProtocol, error) {
 
 func (c *client) sendHandshakeRequest() error {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
+	conn := c.conn
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
-- 
2.43.0


From 9435c45d4f2980aa7b72c7e082281fa186cc659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:18 +0000
Subject: [PATCH 30/37] fix: a negotiated id starts one connection only, and is
 unusable afterwards

---
 httpmux.go | 144 +++++++++++++++++++++++++++++------------------------
 1 file changed, 78 insertions(+), 66 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 437804b..a2c0f8d 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -128,51 +128,45 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
-			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			// Connection is negotiated but not initiated
-			// We compose http and send it over sse
-			writer.Header().Set("Content-Type", "text/event-stream")
-			writer.Header().Set("Connection", "keep-alive")
-			writer.Header().Set("Cache-Control", "no-cache")
-			writer.WriteHeader(http.StatusOK)
-			// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
-			_, _ = fmt.Fprint(writer, ":\r\n\r\n")
-			writer.(http.Flusher).Flush()
-			go func() {
-				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
-			}()
-			// Loop for write jobs from the sseServerConnection
-			for buf := range jobChan {
-				n, err := writer.Write(buf)
-				if err == nil {
-					flusher.Flush()
-				}
-				jobResultChan <- RWJobResult{n: n, err: err}
-			}
-			close(jobResultChan)
-		} else {
-			// connectionID in use
-			writer.WriteHeader(http.StatusConflict)
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	var jobChan <-chan []byte
+	var jobResultChan chan RWJobResult
+	sseConn, status := h.startConnection(connectionIDorToken, func(*negotiateConnection) (conn Connection, err error) {
+		ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+		// version 1 uses the token to initiate the connection, not the ID
+		conn, jobChan, jobResultChan, err = newServerSSEConnection(ctx, connectionIDorToken)
+		return conn, err
+	})
+	if status != http.StatusOK {
+		writer.WriteHeader(status)
+		return
+	}
+	// Connection is negotiated but not initiated
+	// We compose http and send it over sse
+	writer.Header().Set("Content-Type", "text/event-stream")
+	writer.Header().Set("Connection", "keep-alive")
+	writer.Header().Set("Cache-Control", "no-cache")
+	writer.WriteHeader(http.StatusOK)
+	// End this Server Sent Event (yes, your response now is one and the client will wait for this initial event to end)
+	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
+	flusher.Flush()
+	go func() {
+		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
+		_ = h.serveConnection(connectionIDorToken, sseConn)
+	}()
+	// Loop for write jobs from the sseServerConnection
+	for buf := range jobChan {
+		n, err := writer.Write(buf)
+		if err == nil {
+			flusher.Flush()
 		}
-	} else {
-		writer.WriteHeader(http.StatusNotFound)
+		jobResultChan <- RWJobResult{n: n, err: err}
 	}
+	close(jobResultChan)
 }
 
 func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Request) {
@@ -189,34 +183,34 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		return
 	}
 	connectionMapKey := request.URL.Query().Get("id")
+	ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+	var conn Connection
+	status := http.StatusOK
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
 		connectionMapKey = newConnectionID()
+		conn = newWebSocketConnection(ctx, connectionMapKey, websocketConn)
 		h.mx.Lock()
-		h.connectionMap[connectionMapKey] = &negotiateConnection{
-			ConnectionBase: ConnectionBase{connectionID: connectionMapKey},
-			createdAt:      time.Now(),
-		}
+		h.connectionMap[connectionMapKey] = conn
 		h.mx.Unlock()
+	} else {
+		conn, status = h.startConnection(connectionMapKey, func(negotiated *negotiateConnection) (Connection, error) {
+			return newWebSocketConnection(ctx, negotiated.ConnectionID(), websocketConn), nil
+		})
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
-	if ok {
-		if _, ok := c.(*negotiateConnection); ok {
-			// Connection is negotiated but not initiated
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			}
-		} else {
-			// Already initiated
-			_ = websocketConn.Close(1002, "Bad request")
+	switch status {
+	case http.StatusOK:
+		// Connection is negotiated but not initiated
+		err = h.serveConnection(connectionMapKey, conn)
+		if err != nil {
+			_ = websocketConn.Close(1005, err.Error())
 		}
-	} else {
+	case http.StatusNotFound:
 		// Not negotiated
 		_ = websocketConn.Close(1002, "Not found")
+	default:
+		// Already initiated
+		_ = websocketConn.Close(1002, "Bad request")
 	}
 }
 
@@ -299,13 +293,31 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// startConnection replaces the pending negotiation with this key by a connection. Each negotiation starts one connection only.
+func (h *httpMux) startConnection(key string, newConn func(negotiated *negotiateConnection) (Connection, error)) (Connection, int) {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[key]
+	if !ok {
+		return nil, http.StatusNotFound
+	}
+	negotiated, ok := c.(*negotiateConnection)
+	if !ok {
+		// connectionID in use
+		return nil, http.StatusConflict
+	}
+	conn, err := newConn(negotiated)
+	if err != nil {
+		return nil, http.StatusInternalServerError
+	}
+	h.connectionMap[key] = conn
+	return conn, http.StatusOK
+}
+
+func (h *httpMux) serveConnection(key string, c Connection) error {
 	err := h.server.Serve(c)
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	delete(h.connectionMap, key)
 	h.mx.Unlock()
 	return err
 }
-- 
2.43.0


From 8ebb7d3ae07b12dc27c6ba5424b93160e9f9f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:56 +0000
Subject: [PATCH 31/37] fix: the SSE client reads lines that are split over
 reads, and posts to the connection it reads

---
 clientsseconnection.go | 70 +++++++++++++++++++++++-------------------
 httpconnection.go      |  2 +-
 2 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..2eb9afa 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,13 +1,13 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
-	"strings"
 )
 
 type clientSSEConnection struct {
@@ -18,53 +18,59 @@ type clientSSEConnection struct {
 	sseWriter io.Writer
 }
 
+// newClientSSEConnection reads server-sent events from body. address contains the id (or token) of the connection
 func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
+	if _, err := url.Parse(address); err != nil {
 		return nil, err
 	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
 		client: client,
-		reqURL: reqURL.String(),
+		reqURL: address,
 	}
-	c.sseReader, c.sseWriter = io.Pipe()
+	var sseWriter *io.PipeWriter
+	c.sseReader, sseWriter = io.Pipe()
+	c.sseWriter = sseWriter
 	go func() {
 		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
-		for {
-			n, err := body.Read(p)
-			if err != nil {
-				break loop
-			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
-				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+		_ = sseWriter.CloseWithError(c.readEvents(body))
+	}()
+	return &c, nil
+}
+
+// readEvents writes the data of all events in body to sseWriter, whatever pieces they are read in.
+func (c *clientSSEConnection) readEvents(body io.Reader) error {
+	reader := bufio.NewReaderSize(body, 1<<15)
+	// the line continues that of the previous piece, it is a line of data, as was the line before it
+	continued, data, dataBefore := false, false, false
+	for {
+		line, more, err := reader.ReadLine()
+		if err != nil {
+			return err
+		}
+		if !continued {
+			dataBefore = data
+			// Ignore everything but data
+			data = bytes.HasPrefix(line, []byte("data:"))
+			if data {
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
+				line = bytes.TrimPrefix(bytes.TrimPrefix(line, []byte("data:")), []byte(" "))
+				if dataBefore {
+					// Spec says: The lines of one event are separated by line feeds
+					line = append([]byte("\n"), line...)
 				}
 			}
 		}
-	}()
-	return &c, nil
+		if data && len(line) > 0 {
+			if _, err = c.sseWriter.Write(line); err != nil {
+				return err
+			}
+		}
+		continued = more
+	}
 }
 
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..bafd155 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,7 +208,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From a50b18a91c184b750d999eac94014f670412cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:56 +0000
Subject: [PATCH 32/37] fix: reads and posts of a server-sent-events connection
 end with it

---
 serversseconnection.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 06a4487..f3148ea 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -14,8 +14,8 @@ type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
+	postWriter    *io.PipeWriter
+	postReader    *io.PipeReader
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -29,6 +29,8 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
 		<-s.Context().Done()
+		// end the requests whose body nobody will read
+		_ = s.postReader.Close()
 		s.mx.Lock()
 		close(s.jobChan)
 		s.mx.Unlock()
@@ -70,7 +72,7 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() { _ = s.postReader.Close() })
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
-- 
2.43.0


From ad24931274da655ccf724d784c8c4bec1c2e319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:56 +0000
Subject: [PATCH 33/37] fix: the SSE response ends with its connection

---
 httpmux.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index a2c0f8d..b6372d4 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -135,8 +135,9 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	}
 	var jobChan <-chan []byte
 	var jobResultChan chan RWJobResult
+	ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+	defer cancel()
 	sseConn, status := h.startConnection(connectionIDorToken, func(*negotiateConnection) (conn Connection, err error) {
-		ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
 		// version 1 uses the token to initiate the connection, not the ID
 		conn, jobChan, jobResultChan, err = newServerSSEConnection(ctx, connectionIDorToken)
 		return conn, err
@@ -155,6 +156,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	_, _ = fmt.Fprint(writer, ":\r\n\r\n")
 	flusher.Flush()
 	go func() {
+		// The response ends with the connection
+		defer cancel()
 		// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 		_ = h.serveConnection(connectionIDorToken, sseConn)
 	}()
-- 
2.43.0


From 07fba5fa1ef898f144889e958529ea540584ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 34/37] fix: MessagePack close messages have no headers

The array of a close message is [7, Error, AllowReconnect?]. It was written with headers as fourth element of an array of
three, and the close messages of other implementations could not be read.
---
 messagepackhubprotocol.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 2e75413..76f84a9 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -100,9 +100,9 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close messages that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	if msgType != 6 && msgType != 7 {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -346,7 +346,11 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// Like ping, close has no headers
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From 8c801669277c50f66cbd6fbc1732e02d6319d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:46 +0000
Subject: [PATCH 35/37] fix: MessagePack messages of unknown type

They were decoded to the string "msg", and a message that is no hub message was written as an empty frame.
---
 messagepackhubprotocol.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 76f84a9..e69dba6 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -102,7 +102,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	}
 	// Ignore Header for all messages, except ping and close messages that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 && msgType != 7 {
+	if msgType >= 1 && msgType <= 5 {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -232,7 +232,8 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		}
 		return closeMessage, nil
 	}
-	return msg, nil
+	// Unknown types are up to the caller, as with the JSON protocol
+	return hubMessage{Type: msgType}, nil
 }
 
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
@@ -359,6 +360,8 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 		if err := encoder.EncodeBool(msg.AllowReconnect); err != nil {
 			return err
 		}
+	default:
+		return fmt.Errorf("invalid message %#v", message)
 	}
 	// Build frame with length information
 	frameBuf := &bytes.Buffer{}
-- 
2.43.0


From dd22e62cb80018101a40b47a25f00178c3452192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:46 +0000
Subject: [PATCH 36/37] fix: headers, ids and arguments of MessagePack messages
 crashed the decoder

Headers and ids were decoded to values: a map in there with a key that can not be hashed panics, and one which announces
more elements than it has allocates them. The same holds for arguments that are decoded to interface{}. A result kind of
257 was taken for 1.
---
 messagepackhubprotocol.go | 50 ++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index e69dba6..54b8c5a 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/go-kit/log"
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 )
 
 type messagePackHubProtocol struct {
@@ -88,10 +89,6 @@ func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error
 
 func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
 	decoder := msgpack.NewDecoder(buf)
-	// Default map decoding expects all maps to have string keys
-	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
-		return decoder.DecodeUntypedMap()
-	})
 	msgLen, err := decoder.DecodeArrayLen()
 	if err != nil {
 		return nil, err
@@ -103,8 +100,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	// Ignore Header for all messages, except ping and close messages that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
 	if msgType >= 1 && msgType <= 5 {
-		_, err = decoder.DecodeMap()
-		if err != nil {
+		if err = m.skipHeaders(decoder); err != nil {
 			return nil, err
 		}
 	}
@@ -174,7 +170,7 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 		if err != nil {
 			return nil, err
 		}
-		resultKind, err := decoder.DecodeInt8()
+		resultKind, err := decoder.DecodeInt()
 		if err != nil {
 			return nil, err
 		}
@@ -236,21 +232,28 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	return hubMessage{Type: msgType}, nil
 }
 
+// skipHeaders does not decode the headers: the lengths and keys in there are up to the sender
+func (m *messagePackHubProtocol) skipHeaders(decoder *msgpack.Decoder) error {
+	code, err := decoder.PeekCode()
+	if err != nil {
+		return err
+	}
+	if code != msgpcode.Nil && code != msgpcode.Map16 && code != msgpcode.Map32 && !msgpcode.IsFixedMap(code) {
+		return fmt.Errorf("invalid headers, code %x", code)
+	}
+	return decoder.Skip()
+}
+
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
-	rawID, err := decoder.DecodeInterface()
+	code, err := decoder.PeekCode()
 	if err != nil {
 		return "", err
 	}
-	// nil is ok
-	if rawID == nil {
-		return "", nil
-	}
-	// Otherwise, it must be string
-	invocationID, ok := rawID.(string)
-	if !ok {
-		return "", fmt.Errorf("invalid InvocationID %#v", rawID)
+	// nil is ok, DecodeString returns "". Otherwise, it must be string
+	if code != msgpcode.Nil && !msgpcode.IsString(code) {
+		return "", fmt.Errorf("invalid InvocationID, code %x", code)
 	}
-	return invocationID, nil
+	return decoder.DecodeString()
 }
 
 func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
@@ -403,11 +406,17 @@ func (m *messagePackHubProtocol) setMaxReceiveMessageSize(size uint) {
 }
 
 // UnmarshalArgument unmarshals raw bytes to a destination value. dst is the pointer to the destination value.
-func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) error {
+func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interface{}) (err error) {
 	rawSrc, ok := src.(msgpack.RawMessage)
 	if !ok {
 		return fmt.Errorf("invalid source %#v for UnmarshalArgument", src)
 	}
+	// The decoder panics when a key of a map is not hashable
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid source for UnmarshalArgument: %v", r)
+		}
+	}()
 	buf := bytes.NewBuffer(rawSrc)
 	decoder := msgpack.GetDecoder()
 	defer msgpack.PutDecoder(decoder)
@@ -418,8 +427,5 @@ func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interfac
 	})
 	// Ensure uppercase/lowercase mapping for struct member names
 	decoder.SetCustomStructTag("json")
-	if err := decoder.Decode(dst); err != nil {
-		return err
-	}
-	return nil
+	return decoder.Decode(dst)
 }
-- 
2.43.0


From 3d7a430f83f2d4ee64106a059e37610cfc85deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:43 +0000
Subject: [PATCH 37/37] fix: remember early cancellations when the maximum of
 streams exceeds the range of int64

---
 streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index 1a49f08..d0bf3b5 100644
--- a/streamer.go
+++ b/streamer.go
@@ -83,7 +83,7 @@ func (s *streamer) Stop(invocationID string) {
 		return
 	}
 	// The stream might be started later
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	if s.maxCancels > 0 && uint64(atomic.LoadInt64(&s.cancelCount)) >= uint64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0

