package signalr

// C08: cancelling a stream works every time and its bookkeeping stays bounded. See gv_pump.go for the ghost state.

//govc:task C08 a-cancelled-stream-ends-with-one-completion mode=pump interfere
func c08Pump() {
	s, id, ch := pumpStreamer()
	pumpForgotten(s, id)
	s.Start(id, ch)
	pumpEnd()
	_, running := s.running[id]
	gvCheck("an-ended-stream-is-not-running", gvNot(running))
}

// A cancellation may arrive while the method that makes the stream is still running.
//
//govc:task C08 an-early-cancellation-is-remembered mode=pump interfere
func c08Early() {
	s, id, ch := pumpStreamer()
	pumpForgotten(s, id)
	s.Stop(id)
	_, remembered := s.cancels.Load(id)
	gvCheck("remembered-unless-the-maximum-is-reached", gvOr(remembered, gvAnd(s.maxCancels > 0, uint(gvGet[int]("sm.size", 0)) >= s.maxCancels)))
	gvSet("pump.stop", 0, remembered)
	s.Start(id, ch)
	pumpEnd()
	_, is := s.cancels.Load(id)
	gvCheck("a-cancellation-is-forgotten-with-its-stream", gvImp(gvNot(gvGet[bool]("ctx.cancelled", s.conn.Context())), gvNot(is)))
	if remembered {
		gvCover("remembered")
	} else {
		gvCover("full")
	}
}

//govc:task C08 a-cancellation-changes-one-stream mode=pump interfere panics
func c08Stop() {
	s, id, _ := pumpStreamer()
	k := gvGet[string]("pump.k", 0)
	_, had := s.cancels.Load(k)
	s.Stop(id)
	_, has := s.cancels.Load(k)
	gvCheck("other-cancellations-stay", gvIff(had, has))
	gvCover("returns")
}
