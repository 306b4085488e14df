package signalr

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestReplayC11(t *testing.T) {
	for _, start := range []uint64{0, 0x7fffffff - 50, 0xffffffff - 50, 1<<53 - 50, 1<<63 - 50} {
		l := &loop{lastID: start}
		seen := map[string]bool{}
		for i := 0; i < 200; i++ {
			id := l.GetNewID()
			if seen[id] {
				t.Fatalf("sequential ids after %d: %q returned twice", start, id)
			}
			seen[id] = true
		}
	}
	l := &loop{}
	seen := map[string]bool{}
	for i := 0; i < 200000; i++ {
		id := l.GetNewID()
		if seen[id] {
			t.Fatalf("sequential ids: %q returned twice", id)
		}
		seen[id] = true
	}
	for round := 0; round < 60; round++ {
		l := &loop{}
		var mx sync.Mutex
		seen := map[string]bool{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		dup := ""
		for g := 0; g < 32; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				ids := make([]string, 0, 1000)
				for i := 0; i < 1000; i++ {
					ids = append(ids, l.GetNewID())
				}
				mx.Lock()
				for _, id := range ids {
					if seen[id] {
						dup = id
					}
					seen[id] = true
				}
				mx.Unlock()
			}()
		}
		close(start)
		wg.Wait()
		if dup != "" {
			t.Fatalf("32 goroutines: id %q returned twice", dup)
		}
	}
	rpIDsInUse(t)
}

// rpIDsInUse looks at the ids which calls and streams really use.
func rpIDsInUse(t *testing.T) {
	l, hc := rpServerLoop(t, func() HubInterface { return &Hub{} })
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := &client{partyBase: newPartyBase(ctx, rpLog(), rpLog()), state: ClientConnected, loop: l, format: "json", cancelFunc: cancel}
	up := func() chan int {
		ch := make(chan int)
		close(ch)
		return ch
	}
	const rounds = 30
	for i := 0; i < rounds; i++ {
		c.Invoke("m", 1)
		c.Send("m", 1)
		c.PullStream("m", 1)
		c.PushStreams("m", up())
		same := up()
		c.PushStreams("m", up(), 1, up(), same, nil, same)
	}
	seen := map[string]bool{}
	n := 0
	use := func(id string) {
		if seen[id] {
			t.Errorf("id %q is used by two calls or streams", id)
		}
		seen[id] = true
	}
	rpEventually(5*time.Second, func() bool {
		n = 0
		for _, m := range hc.all() {
			if _, ok := m.(invocationMessage); ok {
				n++
			}
		}
		return n == 5*rounds
	})
	for _, m := range hc.all() {
		if m, ok := m.(invocationMessage); ok {
			use(m.InvocationID)
			for _, id := range m.StreamIds {
				use(id)
			}
		}
	}
}
