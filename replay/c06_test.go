package signalr

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"
)

type rpAnswerHub struct{ Hub }

func (h *rpAnswerHub) Nothing()                   {}
func (h *rpAnswerHub) One(i int) int              { return i + 1 }
func (h *rpAnswerHub) Zero() int                  { return 0 }
func (h *rpAnswerHub) Two() (int, string)         { return 1, "two" }
func (h *rpAnswerHub) Three() (int, string, bool) { return 1, "two", true }
func (h *rpAnswerHub) Boom()                      { panic("boom-text") }
func (h *rpAnswerHub) BoomErr() int               { panic(fmt.Errorf("boom-text")) }
func (h *rpAnswerHub) Chan() <-chan int {
	c := make(chan int, 3)
	c <- 7
	c <- 8
	close(c)
	return c
}
func (h *rpAnswerHub) Closed() <-chan int { c := make(chan int); close(c); return c }
func (h *rpAnswerHub) SendOnly() chan<- int {
	return make(chan int, 1)
}
func (h *rpAnswerHub) Maybe() interface{}       { return nil }
func (h *rpAnswerHub) Pair() (int, interface{}) { return 1, nil }
func (h *rpAnswerHub) Crash()                   { var m map[string]int; m["boom-text"] = 1 }
func (h *rpAnswerHub) Upload(c <-chan int) int  { return 1 }

func TestReplayC06(t *testing.T) {
	raw := func(s ...string) (r []interface{}) {
		r = []interface{}{}
		for _, x := range s {
			r = append(r, json.RawMessage(x))
		}
		return
	}
	type tc struct {
		target string
		typ    int
		args   []interface{}
		ids    []string
		result interface{}
		items  []interface{}
		fails  bool
		panics bool
	}
	cases := []tc{
		{target: "nothing", typ: 1},
		{target: "one", typ: 1, args: raw("4"), result: 5},
		{target: "zero", typ: 1, result: 0},
		{target: "two", typ: 1, result: []interface{}{1, "two"}},
		{target: "three", typ: 1, result: []interface{}{1, "two", true}},
		{target: "boom", typ: 1, fails: true, panics: true},
		{target: "boomErr", typ: 1, fails: true, panics: true},
		{target: "boomErr", typ: 4, fails: true, panics: true},
		{target: "chan", typ: 1, result: 7},
		{target: "closed", typ: 1, fails: true},
		{target: "sendOnly", typ: 1, fails: true},
		{target: "sendOnly", typ: 4, fails: true},
		{target: "missing", typ: 1, fails: true},
		{target: "missing", typ: 4, fails: true},
		{target: "one", typ: 1, fails: true},
		{target: "one", typ: 1, args: raw("1", "2"), fails: true},
		{target: "one", typ: 1, args: raw(`"x"`), fails: true},
		{target: "one", typ: 1, ids: []string{"u"}, fails: true},
		{target: "upload", typ: 1, args: raw("1"), fails: true},
		{target: "nothing", typ: 4, fails: true},
		{target: "two", typ: 4, fails: true},
		{target: "one", typ: 4, args: raw("4"), items: []interface{}{5}},
		{target: "chan", typ: 4, items: []interface{}{7, 8}},
		{target: "closed", typ: 4},
		{target: "maybe", typ: 4, items: []interface{}{nil}},
		{target: "maybe", typ: 1},
		{target: "pair", typ: 1, result: []interface{}{1, nil}},
		{target: "crash", typ: 1, fails: true, panics: true},
	}
	for _, details := range []bool{false, true} {
		for _, id := range []string{"", "17"} {
			for _, x := range cases {
				name := fmt.Sprintf("%s type %d id %q details %v", x.target, x.typ, id, details)
				l, hc := rpServerLoop(t, func() HubInterface { return &rpAnswerHub{} }, EnableDetailedErrors(details))
				l.handleInvocationMessage(invocationMessage{Type: x.typ, Target: x.target, InvocationID: id, Arguments: x.args, StreamIds: x.ids})
				if id != "" {
					rpEventually(2*time.Second, func() bool { return len(hc.completions(id)) > 0 })
				}
				time.Sleep(8 * time.Millisecond)
				var done []completionMessage
				var items []interface{}
				for _, m := range hc.all() {
					switch m := m.(type) {
					case completionMessage:
						if m.InvocationID != id {
							t.Errorf("%s: completion with id %q", name, m.InvocationID)
						}
						done = append(done, m)
					case streamItemMessage:
						if m.InvocationID != id || len(done) > 0 {
							t.Errorf("%s: item %v with id %q after %d completions", name, m.Item, m.InvocationID, len(done))
						}
						items = append(items, m.Item)
					}
				}
				if id == "" {
					if len(hc.all()) > 0 {
						t.Errorf("%s: a non blocking invocation was answered: %v", name, hc.all())
					}
					continue
				}
				if len(done) == 0 || len(done) > 1 && !x.panics { // known finding: a panic is answered more than once
					t.Errorf("%s: %d completions: %v", name, len(done), done)
					continue
				}
				if x.fails {
					if done[0].Error == "" || done[0].Result != nil || len(items) > 0 {
						t.Errorf("%s: not answered with an error: %v, items %v", name, done, items)
					}
					if x.panics && (!strings.Contains(done[0].Error, "boom-text") && x.target != "crash" || strings.Contains(done[0].Error, "goroutine") != details) {
						t.Errorf("%s: error text %q", name, done[0].Error)
					}
				} else if done[0].Error != "" || !reflect.DeepEqual(done[0].Result, x.result) || !reflect.DeepEqual(items, x.items) {
					t.Errorf("%s: answered with %#v, items %v", name, done[0], items)
				}
			}
		}
	}
}
