package signalr

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"
)

// rpParty wraps a party and records the callbacks of the loop.
type rpParty struct {
	Party
	ctx       context.Context
	mx        sync.Mutex
	events    []string
	reconnect bool
	onDisc    func()
}

func (p *rpParty) Context() context.Context { return p.ctx }
func (p *rpParty) allowReconnect() bool     { return p.reconnect }
func (p *rpParty) add(e string) {
	p.mx.Lock()
	defer p.mx.Unlock()
	p.events = append(p.events, e)
}
func (p *rpParty) onConnected(hc HubConnection) { p.add("connected") }
func (p *rpParty) onDisconnected(hc HubConnection) {
	p.add("disconnected")
	if p.onDisc != nil {
		p.onDisc()
	}
}
func (p *rpParty) invocationTarget(hc HubConnection) interface{} { return &rpTarget{p} }

type rpTarget struct{ p *rpParty }

func (t *rpTarget) Mark(s string) { t.p.add("called " + s) }

func TestReplayC10(t *testing.T) {
	const wait = 2 * time.Second
	type end struct {
		name  string
		do    func(hc *rpHubConn, cancelParty func())
		clean bool
		text  string // part of the error
	}
	recv := func(r receiveResult) func(hc *rpHubConn, cancelParty func()) {
		return func(hc *rpHubConn, _ func()) { hc.recv <- r }
	}
	msgs := func(m interface{}) func(hc *rpHubConn, cancelParty func()) { return recv(receiveResult{message: m}) }
	ends := []end{
		{"close", msgs(closeMessage{Type: 7}), true, ""},
		{"close with reconnect", msgs(closeMessage{Type: 7, AllowReconnect: true}), true, ""},
		{"close with error", msgs(closeMessage{Type: 7, Error: "peer error"}), false, "peer error"},
		{"close with error and reconnect", msgs(closeMessage{Type: 7, Error: "peer error", AllowReconnect: true}), false, "peer error"},
		{"transport error", recv(receiveResult{err: errRp}), false, errRp.Error()},
		{"transport error with message", recv(receiveResult{err: errRp, message: hubMessage{Type: 6}}), false, errRp.Error()},
		{"invalid message", msgs(hubMessage{Type: 99}), false, "99"},
		{"unknown completion", msgs(completionMessage{Type: 3, InvocationID: "nobody"}), false, "nobody"},
		{"unknown stream item", msgs(streamItemMessage{Type: 2, InvocationID: "nobody"}), false, "nobody"},
		{"ping fails", func(hc *rpHubConn, _ func()) {
			hc.mx.Lock()
			hc.fail["ping"] = errRp
			hc.mx.Unlock()
		}, false, errRp.Error()},
		{"hub connection cancelled", func(hc *rpHubConn, _ func()) { hc.cancel() }, false, "cancel"},
		{"party cancelled", func(hc *rpHubConn, c func()) { c() }, false, "cancel"},
		{"timeout", func(hc *rpHubConn, _ func()) {}, false, "timeout"},
	}
	for _, e := range ends {
		for _, reconnect := range []bool{false, true} {
			for pending := 0; pending < 4; pending++ {
				name := fmt.Sprintf("%v, reconnect %v, %v pending calls", e.name, reconnect, pending)
				l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
				ctx, cancel := context.WithCancel(context.Background())
				p := &rpParty{Party: l.party, ctx: ctx, reconnect: reconnect}
				switch e.name {
				case "timeout":
					p.setTimeout(60 * time.Millisecond)
				case "ping fails":
					p.setKeepAliveInterval(20 * time.Millisecond)
				}
				l.party = p
				// calls which are pending at the end
				var calls []invocationResultChans
				for i := 0; i < pending; i++ {
					r, ec := l.invokeClient.newInvocation(fmt.Sprint("c", i))
					calls = append(calls, invocationResultChans{r, ec})
				}
				// a call that is started while the loop ends
				var late invocationResultChans
				lateSent := false
				p.onDisc = func() {
					late.resultChan, late.errChan = l.invokeClient.newInvocation("late")
				}
				hc.onSend = func(m interface{}) {
					if x, ok := m.(invocationMessage); ok && x.InvocationID == "tooLate" {
						lateSent = hc.ctx.Err() == nil
					}
				}
				// five messages, then the end
				for i := 0; i < 5; i++ {
					hc.recv <- receiveResult{message: invocationMessage{Type: 1, Target: "mark", Arguments: []interface{}{json.RawMessage(fmt.Sprintf("\"%v\"", i))}}}
				}
				started := make(chan struct{}, 1)
				var err error
				done := make(chan struct{})
				go func() { err = l.Run(started); close(done) }()
				rpEventually(wait, func() bool { return len(hc.recv) == 0 })
				time.Sleep(5 * time.Millisecond)
				e.do(hc, cancel)
				// messages after the end
				time.Sleep(5 * time.Millisecond)
				if e.name != "timeout" && e.name != "ping fails" {
					hc.recv <- receiveResult{message: invocationMessage{Type: 1, Target: "mark", Arguments: []interface{}{json.RawMessage("\"x\"")}}}
				}
				select {
				case <-done:
				case <-time.After(wait):
					t.Errorf("%s: the loop did not end", name)
					hc.cancel()
					cancel()
					continue
				}
				select {
				case <-started:
				default:
					t.Errorf("%s: start not signalled", name)
				}
				time.Sleep(5 * time.Millisecond)
				p.mx.Lock()
				ev := append([]string{}, p.events...)
				p.mx.Unlock()
				n := map[string]int{}
				for _, x := range ev {
					n[x]++
				}
				if n["connected"] != 1 || n["disconnected"] != 1 || len(ev) == 0 || ev[0] != "connected" {
					t.Errorf("%s: %v", name, ev)
				}
				for i := 0; i < 5; i++ {
					if n[fmt.Sprint("called ", i)] != 1 {
						t.Errorf("%s: invocation %d called %d times", name, i, n[fmt.Sprint("called ", i)])
					}
				}
				if n["called x"] != 0 && e.name != "hub connection cancelled" && e.name != "party cancelled" {
					t.Errorf("%s: a message was processed after the end", name)
				}
				if (err == nil) != e.clean || err != nil && !strings.Contains(err.Error(), e.text) {
					t.Errorf("%s: ended with %v", name, err)
				}
				var closes []closeMessage
				for _, m := range hc.all() {
					if c, ok := m.(closeMessage); ok {
						closes = append(closes, c)
					}
				}
				if err != nil && (len(closes) != 1 || closes[0].Error != err.Error() || closes[0].AllowReconnect != reconnect) {
					t.Errorf("%s: ended with %v, close messages %v", name, err, closes)
				}
				if hc.ctx.Err() == nil {
					t.Errorf("%s: the hub connection is not cancelled", name)
				}
				if _, ok := interface{}(l.closeMessage).(*closeMessage); ok && strings.HasPrefix(e.name, "close") != (l.closeMessage != nil) {
					t.Errorf("%s: close message %v", name, l.closeMessage)
				}
				for i, c := range append(calls, late) {
					what := fmt.Sprint("pending call ", i)
					if i == len(calls) {
						what = "call started while the loop ends"
					}
					select {
					case ce, ok := <-c.errChan:
						if !ok || ce == nil {
							t.Errorf("%s: %s: no error", name, what)
						}
					case <-time.After(wait):
						t.Errorf("%s: %s: nothing", name, what)
						continue
					}
					select {
					case _, ok := <-c.errChan:
						if ok {
							t.Errorf("%s: %s: more than one error", name, what)
						}
					case <-time.After(wait):
						t.Errorf("%s: %s: error channel not closed", name, what)
					}
					select {
					case v, ok := <-c.resultChan:
						if ok {
							t.Errorf("%s: %s: result %v", name, what, v)
						}
					case <-time.After(wait):
						t.Errorf("%s: %s: result channel not closed", name, what)
					}
				}
				_ = lateSent
				cancel()
			}
		}
	}
	// a call that starts when the pending calls have been cancelled must not be sent on a connection that lives on
	for i := 0; i < 20; i++ {
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
		p := &rpParty{Party: l.party, ctx: context.Background()}
		l.party = p
		_, ec := l.invokeClient.newInvocation("a")
		alive := make(chan bool, 1)
		go func() {
			<-ec
			alive <- hc.ctx.Err() == nil
		}()
		hc.recv <- receiveResult{message: closeMessage{Type: 7}}
		_ = l.Run(make(chan struct{}, 1))
		if <-alive {
			t.Error("the calls were cancelled while the connection still accepted new ones")
			break
		}
	}
	// everything received is processed in order, whatever is received
	{
		l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
		p := &rpParty{Party: l.party, ctx: context.Background()}
		l.party = p
		rc, _ := l.invokeClient.newInvocation("r")
		up := l.streamClient.newUpstreamChannel("s")
		for _, m := range []interface{}{
			hubMessage{Type: 6},
			cancelInvocationMessage{Type: 5, InvocationID: "zz"},
			streamItemMessage{Type: 2, InvocationID: "s", Item: json.RawMessage("1")},
			hubMessage{Type: 6},
			completionMessage{Type: 3, InvocationID: "r", Result: json.RawMessage("7")},
			completionMessage{Type: 3, InvocationID: "s"},
			hubMessage{Type: 6},
			invocationMessage{Type: 1, Target: "mark", Arguments: []interface{}{json.RawMessage(`"z"`)}},
		} {
			hc.recv <- receiveResult{message: m}
		}
		done := make(chan struct{})
		go func() { _ = l.Run(make(chan struct{}, 1)); close(done) }()
		if !rpEventually(wait, func() bool {
			p.mx.Lock()
			defer p.mx.Unlock()
			return len(p.events) == 2
		}) {
			t.Errorf("not all messages were processed: %v, sent %v", p.events, hc.all())
		}
		for _, c := range []<-chan interface{}{rc, up} {
			select {
			case v, ok := <-c:
				if !ok || v == nil {
					t.Error("result or stream item lost")
				}
			case <-time.After(wait):
				t.Error("result or stream item lost")
			}
		}
		hc.cancel()
		<-done
	}
}
