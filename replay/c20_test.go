package signalr

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
)

type rpCalls struct {
	mx    sync.Mutex
	calls []string
}

func (c *rpCalls) add(s string) { c.mx.Lock(); c.calls = append(c.calls, s); c.mx.Unlock() }
func (c *rpCalls) all() []string {
	c.mx.Lock()
	defer c.mx.Unlock()
	return append([]string{}, c.calls...)
}

type rpS struct {
	A int
	B string
	C []int
	D map[string]int
}

type rpHub20 struct {
	Hub
	c *rpCalls
}

func rpDrain(ch <-chan int) string {
	s := ""
	for {
		select {
		case v, ok := <-ch:
			if !ok {
				return s
			}
			s += fmt.Sprint(v, ".")
		case <-time.After(2 * time.Second):
			return s + "hangs"
		}
	}
}

func (h *rpHub20) None()              { h.c.add("None") }
func (h *rpHub20) A(a int)            { h.c.add(fmt.Sprint("A ", a)) }
func (h *rpHub20) AB(a int, b string) { h.c.add(fmt.Sprint("AB ", a, " ", b)) }
func (h *rpHub20) ABC(a int, b string, s rpS) {
	h.c.add(fmt.Sprintf("ABC %v %v %+v", a, b, s))
}
func (h *rpHub20) AA(a, b, c, d int) { h.c.add(fmt.Sprint("AA ", a, b, c, d)) }
func (h *rpHub20) S(s rpS)           { h.c.add(fmt.Sprintf("S %+v", s)) }
func (h *rpHub20) SP(s *rpS)         { h.c.add(fmt.Sprintf("SP %+v", *s)) }
func (h *rpHub20) Ch(c <-chan int)   { h.c.add("Ch " + rpDrain(c)) }
func (h *rpHub20) ChA(c <-chan int, a int) {
	h.c.add(fmt.Sprint("ChA ", rpDrain(c), " ", a))
}
func (h *rpHub20) AChB(a int, c <-chan int, b string) {
	h.c.add(fmt.Sprint("AChB ", a, " ", rpDrain(c), " ", b))
}
func (h *rpHub20) ChChA(c, d <-chan int, a int) {
	h.c.add(fmt.Sprint("ChChA ", rpDrain(c), " ", rpDrain(d), " ", a))
}
func (h *rpHub20) ChACh(c <-chan int, a int, d <-chan int) {
	h.c.add(fmt.Sprint("ChACh ", rpDrain(c), " ", a, " ", rpDrain(d)))
}
func (h *rpHub20) SS(s, r rpS) { h.c.add(fmt.Sprintf("SS %+v %+v", s, r)) }
func (h *rpHub20) MM(s, r map[string]int, p, q []int) {
	h.c.add(fmt.Sprint("MM ", s, r, p, q))
}
func (h *rpHub20) PP(s, r *int) { h.c.add(fmt.Sprint("PP ", *s, *r)) }
func (h *rpHub20) Zz()          { h.c.add("Zz") }

type rpWild struct{ Hub }

func (h *rpWild) Same(s string) string { return s }

func TestReplayC20(t *testing.T) {
	js := func(v interface{}) json.RawMessage {
		b, _ := json.Marshal(v)
		return b
	}
	sigs := map[string]string{"None": "", "A": "i", "AB": "is", "ABC": "isS", "AA": "iiii", "S": "S", "SP": "S",
		"Ch": "c", "ChA": "ci", "AChB": "ics", "ChChA": "cci", "ChACh": "cic", "Zz": ""}
	var ht reflect.Type = reflect.TypeOf(&rpHub20{})
	if ht.NumMethod() < len(sigs) {
		t.Fatal("methods missing")
	}
	id := 0
	for name, sig := range sigs {
		values, chans := 0, strings.Count(sig, "c")
		values = len(sig) - chans
		for nArgs := 0; nArgs < 5; nArgs++ {
			for nStreams := 0; nStreams < 4; nStreams++ {
				calls := &rpCalls{}
				l, hc := rpServerLoop(t, func() HubInterface { return &rpHub20{c: calls} },
					WithAlternateMethodName("ChACh", "other.name"), WithAlternateMethodName("A", "None-2"), WithAlternateMethodName("S", "AB"))
				id++
				m := invocationMessage{Type: 1, Target: name, InvocationID: fmt.Sprint("i", id)}
				switch id % 3 {
				case 1:
					m.Target = strings.ToLower(name)
				case 2:
					m.Target = strings.ToUpper(name)
				}
				if m.Target == "AB" {
					m.Target = "Ab" // AB is an alternate name of S
				}
				fit := nArgs == values && nStreams == chans
				// the arguments, of the right type where there is a parameter
				want, ai, ci := name, 0, 0
				var parts []string
				for _, k := range sig {
					switch k {
					case 'c':
						parts = append(parts, fmt.Sprintf("%d.%d.", ci*10+1, ci*10+2))
						ci++
					case 'i':
						parts = append(parts, fmt.Sprint(ai*100+7))
						ai++
					case 's':
						parts = append(parts, fmt.Sprint("s", ai))
						ai++
					case 'S':
						parts = append(parts, fmt.Sprintf("%+v", rpS{A: ai}))
						ai++
					}
				}
				sep := " "
				if name == "AA" {
					want = fmt.Sprint("AA ", 7, 107, 207, 307)
				} else if len(parts) > 0 {
					want += " " + strings.Join(parts, sep)
				}
				vs := strings.ReplaceAll(sig, "c", "")
				for i := 0; i < nArgs; i++ {
					k := byte('i')
					if i < len(vs) {
						k = vs[i]
					}
					switch k {
					case 'i':
						m.Arguments = append(m.Arguments, js(i*100+7))
					case 's':
						m.Arguments = append(m.Arguments, js(fmt.Sprint("s", i)))
					case 'S':
						m.Arguments = append(m.Arguments, js(map[string]int{"A": i}))
					}
				}
				for i := 0; i < nStreams; i++ {
					m.StreamIds = append(m.StreamIds, fmt.Sprint("up", i))
				}
				sent := append([]interface{}{}, m.Arguments...)
				what := fmt.Sprintf("%s(%s) with %d arguments and %d streams", name, sig, nArgs, nStreams)
				rpWithin(t, 5*time.Second, what, func() {
					l.handleInvocationMessage(m)
					if !reflect.DeepEqual(append([]interface{}{}, m.Arguments...), sent) {
						t.Error(what, "the received arguments were changed")
					}
					// the stream items, last stream first
					for i := nStreams - 1; i >= 0 && fit; i-- {
						for j := 1; j < 3; j++ {
							if err := l.handleStreamItemMessage(streamItemMessage{Type: 2, InvocationID: m.StreamIds[i], Item: js(i*10 + j)}); err != nil {
								t.Error(what, err)
							}
						}
						if err := l.handleCompletionMessage(completionMessage{Type: 3, InvocationID: m.StreamIds[i]}); err != nil {
							t.Error(what, err)
						}
					}
					rpEventually(2*time.Second, func() bool { return len(hc.completions(m.InvocationID)) > 0 })
				})
				c := hc.completions(m.InvocationID)
				switch {
				case len(c) != 1:
					t.Error(what, "completions", c)
				case fit && (c[0].Error != "" || !reflect.DeepEqual(calls.all(), []string{want})):
					t.Errorf("%s: called %q, expected %q, completion %+v", what, calls.all(), want, c)
				case !fit && (c[0].Error == "" || len(calls.all()) != 0):
					t.Errorf("%s: called %q, expected nothing, completion %+v", what, calls.all(), c)
				}
			}
		}
	}
	calls := &rpCalls{}
	l, hc := rpServerLoop(t, func() HubInterface { return &rpHub20{c: calls} },
		WithAlternateMethodName("ChACh", "other.name"), WithAlternateMethodName("A", "None-2"), WithAlternateMethodName("S", "AB"), WithAlternateMethodName("", "nothing"))
	// names: target, arguments, what is called
	n := 0
	for _, x := range []struct {
		target string
		args   []interface{}
		want   string
	}{
		{"None-2", []interface{}{js(3)}, "A 3"},
		{"none-2", []interface{}{js(3)}, ""},
		{"AB", []interface{}{js(rpS{A: 1})}, "S {A:1 B: C:[] D:map[]}"},
		{"aB", []interface{}{js(1), js("b")}, "AB 1 b"},
		{"Non", nil, ""}, {"NoneX", nil, ""}, {"", nil, ""}, {"nothing", nil, ""}, {"OnConnectedX", nil, ""}, {"z", nil, ""},
		{"zz", nil, "Zz"}, {"ZZ", nil, "Zz"}, {"zZ", nil, "Zz"},
		{"s", []interface{}{js(map[string]interface{}{"A": 1, "B": "b", "C": []int{1, 2, 3}, "D": map[string]int{"x": 1}})}, "S {A:1 B:b C:[1 2 3] D:map[x:1]}"},
		{"s", []interface{}{js(map[string]interface{}{"A": 2})}, "S {A:2 B: C:[] D:map[]}"},
		{"s", []interface{}{js(map[string]interface{}{"C": []int{9}, "D": map[string]int{"y": 2}})}, "S {A:0 B: C:[9] D:map[y:2]}"},
		{"sp", []interface{}{js(map[string]interface{}{"A": 1, "B": "b"})}, "SP {A:1 B:b C:[] D:map[]}"},
		{"sp", []interface{}{js(map[string]interface{}{"C": []int{1}})}, "SP {A:0 B: C:[1] D:map[]}"},
		{"a", []interface{}{js("no number")}, ""},
		{"a", []interface{}{js(1.5)}, ""},
		{"a", []interface{}{json.RawMessage("{")}, ""},
		{"ab", []interface{}{js("no number"), js("b")}, ""},
		{"ab", []interface{}{js(1), js(2)}, ""},
		{"abc", []interface{}{js(1), js("b"), js(rpS{A: 5, B: "x"})}, "ABC 1 b {A:5 B:x C:[] D:map[]}"},
		{"abc", []interface{}{js(1), js("b"), js("no struct")}, ""},
		{"aa", []interface{}{js(4), js(3), js(2), js(1)}, "AA 4 3 2 1"},
		{"ss", []interface{}{js(rpS{A: 1, B: "x"}), js(map[string]int{"A": 2})}, "SS {A:1 B:x C:[] D:map[]} {A:2 B: C:[] D:map[]}"},
		{"mm", []interface{}{js(map[string]int{"a": 1}), js(map[string]int{"b": 2}), js([]int{1, 2}), js([]int{3})}, "MM map[a:1] map[b:2] [1 2] [3]"},
		{"pp", []interface{}{js(1), js(2)}, "PP 1 2"},
		{"aa", []interface{}{js(4), js(4), js(4), js("x")}, ""},
	} {
		n++
		before := len(calls.all())
		m := invocationMessage{Type: 1, Target: x.target, InvocationID: fmt.Sprint("n", n), Arguments: x.args}
		l.handleInvocationMessage(m)
		rpEventually(2*time.Second, func() bool { return len(hc.completions(m.InvocationID)) > 0 })
		got := calls.all()[before:]
		c := hc.completions(m.InvocationID)
		if len(c) != 1 || (c[0].Error == "") != (x.want != "") || x.want == "" && len(got) != 0 || x.want != "" && !reflect.DeepEqual(got, []string{x.want}) {
			t.Errorf("%s %s: called %q, expected %q, completion %+v", x.target, x.args, got, x.want, c)
		}
	}
	// alternate names are not followed twice
	{
		calls := &rpCalls{}
		l, _ := rpServerLoop(t, func() HubInterface { return &rpHub20{c: calls} }, WithAlternateMethodName("None", "Zz"), WithAlternateMethodName("Zz", "old"), WithAlternateMethodName("old", "Zzz"))
		for target, want := range map[string]string{"Zz": "[None]", "zz": "[Zz]", "old": "[Zz]", "Zzz": "[]", "None": "[None]"} {
			calls.calls = nil
			l.handleInvocationMessage(invocationMessage{Type: 1, Target: target})
			rpEventually(50*time.Millisecond, func() bool { return len(calls.all()) > 0 })
			if got := fmt.Sprint(calls.all()); got != want {
				t.Errorf("alternate name %s: called %s, expected %s", target, got, want)
			}
		}
	}
	// every invocation calls once, also with no completion or from a stream invocation
	for _, typ := range []int{1, 4} {
		for _, id := range []string{"", "x"} {
			calls := &rpCalls{}
			l, _ := rpServerLoop(t, func() HubInterface { return &rpHub20{c: calls} })
			l.handleInvocationMessage(invocationMessage{Type: typ, Target: "a", InvocationID: id, Arguments: []interface{}{js(1)}})
			time.Sleep(20 * time.Millisecond)
			want := 1
			if typ == 4 {
				want = 0 // no result to stream
			}
			if got := calls.all(); len(got) != want {
				t.Errorf("type %d, id %q: called %q", typ, id, got)
			}
		}
	}
}
