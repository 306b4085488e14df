package signalr

import (
	"context"
	"fmt"
	"testing"
	"time"
)

type c12Hub struct{ Hub }

func TestReplayC12(t *testing.T) {
	srv, err := NewServer(context.Background(), SimpleHubFactory(&c12Hub{}), Logger(rpLog(), false))
	if err != nil {
		t.Fatal(err)
	}
	s := srv.(*server)
	conns := map[string]*rpHubConn{}
	for i := 0; i < 5; i++ {
		c := newRpHubConn(fmt.Sprint("c", i))
		conns[c.id] = c
		s.onConnected(c)
	}
	args := []interface{}{1, "x", nil}
	n := 0
	clients := func(id string) HubClients { return s.newConnectionHubContext(conns[id]).Clients() }
	groups := s.newConnectionHubContext(conns["c0"]).Groups()
	// exactly the connections in want get the message, once
	expect := func(what string, send func(ClientProxy2 string), want ...string) {
		t.Helper()
		n++
		target := fmt.Sprint("t", n)
		send(target)
		got := func() map[string]int {
			r := map[string]int{}
			for id, c := range conns {
				for _, m := range c.all() {
					x := m.(invocationMessage)
					if x.Target == target {
						r[id]++
						if x.Type != 1 || x.InvocationID != "" || len(x.Arguments) != 3 || x.Arguments[0] != 1 || x.Arguments[1] != "x" || x.Arguments[2] != nil {
							t.Errorf("%s: %s got %#v", what, id, x)
						}
					}
				}
			}
			return r
		}
		rpEventually(2*time.Second, func() bool { return len(got()) >= len(want) })
		time.Sleep(10 * time.Millisecond)
		g := got()
		for _, id := range want {
			if g[id] != 1 {
				t.Errorf("%s: %s got the message %d times", what, id, g[id])
			}
			delete(g, id)
		}
		if len(g) != 0 {
			t.Errorf("%s: also reached %v", what, g)
		}
	}
	group := func(name string, want ...string) {
		t.Helper()
		expect("group "+name, func(x string) { clients("c1").Group(name).Send(x, args...) }, want...)
		expect("server group "+name, func(x string) { srv.HubClients().Group(name).Send(x, args...) }, want...)
	}
	expect("all", func(x string) { clients("c1").All().Send(x, args...) }, "c0", "c1", "c2", "c3", "c4")
	expect("server all", func(x string) { srv.HubClients().All().Send(x, args...) }, "c0", "c1", "c2", "c3", "c4")
	expect("caller", func(x string) { clients("c1").Caller().Send(x, args...) }, "c1")
	expect("client", func(x string) { clients("c1").Client("c3").Send(x, args...) }, "c3")
	expect("server client", func(x string) { srv.HubClients().Client("c2").Send(x, args...) }, "c2")
	expect("nobody", func(x string) { clients("c1").Client("cx").Send(x, args...) })
	group("g")
	groups.AddToGroup("g", "c0")
	groups.AddToGroup("g", "c2")
	groups.AddToGroup("g", "c2")
	groups.AddToGroup("g", "cx")
	groups.AddToGroup("h", "c2")
	groups.AddToGroup("h", "c3")
	group("g", "c0", "c2")
	group("h", "c2", "c3")
	group("x")
	// one failing member must not keep the message from the others
	conns["c2"].fail["invocation"] = errRp
	group("g", "c0", "c2")
	expect("all with a failing client", func(x string) { clients("c1").All().Send(x, args...) }, "c0", "c1", "c2", "c3", "c4")
	groups.RemoveFromGroup("g", "c2")
	groups.RemoveFromGroup("g", "c4")
	groups.RemoveFromGroup("x", "c3")
	group("g", "c0")
	group("h", "c2", "c3")
	groups.RemoveFromGroup("g", "c0")
	group("g")
	groups.AddToGroup("g", "c1")
	groups.AddToGroup("g", "c2")
	group("g", "c1", "c2")
	rpWithin(t, 5*time.Second, "disconnect", func() { s.onDisconnected(conns["c2"]) })
	group("g", "c1")
	group("h", "c3")
	expect("all after disconnect", func(x string) { clients("c1").All().Send(x, args...) }, "c0", "c1", "c3", "c4")
	expect("disconnected", func(x string) { clients("c1").Client("c2").Send(x, args...) })
	groups.AddToGroup("g", "c2")
	group("g", "c1")
	s.onConnected(conns["c2"])
	group("g", "c1")
	expect("client again", func(x string) { clients("c1").Client("c2").Send(x, args...) }, "c2")
	cl := clients("c1")
	kept := []ClientProxy{cl.Group("g"), cl.Group("h"), cl.Client("c0"), cl.Client("c4")}
	cl.Group("x")
	cl.Client("c3")
	expect("kept group proxy", func(x string) { kept[0].Send(x, args...) }, "c1")
	expect("kept group proxy", func(x string) { kept[1].Send(x, args...) }, "c3")
	expect("kept client proxy", func(x string) { kept[2].Send(x, args...) }, "c0")
	expect("kept client proxy", func(x string) { kept[3].Send(x, args...) }, "c4")
	// a member that blocks must not keep others from getting the message
	block := make(chan struct{})
	groups.AddToGroup("h", "c0")
	groups.AddToGroup("h", "c1")
	conns["c3"].onSend = func(interface{}) { <-block }
	rpWithin(t, 2*time.Second, "send to a blocked member", func() { clients("c1").Group("h").Send("blk", args...); clients("c1").All().Send("blk2", args...) })
	if !rpEventually(2*time.Second, func() bool {
		return len(conns["c0"].sent) > 0 && conns["c0"].last() == "blk2" || conns["c0"].last() == "blk"
	}) {
		t.Errorf("blocked by another member")
	}
	close(block)
	// a connection that disconnects while it is added is in no group afterwards
	for i := 0; i < 300; i++ {
		c := newRpHubConn(fmt.Sprint("r", i))
		m := s.lifetimeManager
		m.OnConnected(c)
		done := make(chan struct{})
		go func() { m.AddToGroup("race", c.id); close(done) }()
		m.OnDisconnected(c)
		<-done
		m.InvokeGroup("race", "race", nil)
		time.Sleep(20 * time.Microsecond)
		if len(c.all()) != 0 {
			t.Errorf("a disconnected connection got a message for its group")
			break
		}
	}
	// adding and removing concurrently leaves every other member alone
	for i := 0; i < 200; i++ {
		name := fmt.Sprint("cc", i)
		done := make(chan struct{})
		go func() { groups.AddToGroup(name, "c0"); close(done) }()
		groups.AddToGroup(name, "c4")
		<-done
		before := len(conns["c0"].all()) + len(conns["c4"].all())
		clients("c1").Group(name).Send("cc", args...)
		if !rpEventually(time.Second, func() bool { return len(conns["c0"].all())+len(conns["c4"].all()) == before+2 }) {
			t.Errorf("a concurrent AddToGroup was lost")
			break
		}
	}
}

func (c *rpHubConn) last() string {
	a := c.all()
	if len(a) == 0 {
		return ""
	}
	return a[len(a)-1].(invocationMessage).Target
}
