package signalr

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
)

// rpWrites collects what is written, each write for itself
type rpWrites struct {
	writes []string
	err    error
}

func (w *rpWrites) Write(p []byte) (int, error) {
	w.writes = append(w.writes, string(p))
	if w.err != nil {
		return 0, w.err
	}
	return len(p), nil
}

func TestReplayC04(t *testing.T) {
	type o = map[string]interface{}
	type l = []interface{}
	long := strings.Repeat("y", 70000)
	type tc struct {
		m    interface{}
		want o
	}
	cases := []tc{{hubMessage{6}, o{"type": 6}}, {closeMessage{7, "", false}, o{"type": 7, "error": "", "allowReconnect": false}}}
	var values []interface{}
	values = append(values, nil, 0, 1, -1.5, true, false, "", "a", "\"\\\n\x1e\u2028<&>", long, l{}, l{1, "x", nil}, o{}, o{"a": l{1}}, 1<<53, json.RawMessage(`{"x":[1,2]}`), []string{"p"}, []int(nil))
	for i, v := range values {
		for _, id := range []string{"1", "", "id \x1e\"", "1234567890"} {
			text := fmt.Sprint("t", i)
			item := o{"type": 2, "invocationId": id, "item": v}
			cases = append(cases, tc{streamItemMessage{2, id, v}, item})
			completion := o{"type": 3, "invocationId": id}
			if v != nil {
				completion["result"] = v
			}
			cases = append(cases, tc{completionMessage{3, id, v, ""}, completion})
			cases = append(cases, tc{completionMessage{3, id, nil, text}, o{"type": 3, "invocationId": id, "error": text}})
			cases = append(cases, tc{cancelInvocationMessage{5, id}, o{"type": 5, "invocationId": id}})
			for _, reconnect := range []bool{true, false} {
				cases = append(cases, tc{closeMessage{7, text, reconnect}, o{"type": 7, "error": text, "allowReconnect": reconnect}})
			}
			for _, typ := range []int{1, 4} {
				for _, args := range []l{{}, {v}, {v, "b"}, {"a", v, nil, v}, make(l, 20)} {
					for _, ids := range [][]string{nil, {"s"}, {"s", "", "\x1e", "u"}} {
						inv := o{"type": typ, "target": text, "arguments": args}
						if id != "" {
							inv["invocationId"] = id
						}
						if len(ids) > 0 {
							inv["streamIds"] = ids
						}
						cases = append(cases, tc{invocationMessage{typ, text, id, args, ids}, inv})
					}
				}
			}
		}
	}
	norm := func(v interface{}) (r interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			t.Fatal(err)
		}
		_ = json.Unmarshal(b, &r)
		return r
	}
	p := rpJSON()
	var kept []interface{}
	var keptText []string
	for _, c := range cases {
		short := fmt.Sprintf("%.200s", fmt.Sprintf("%#v", c.m))
		w := &rpWrites{}
		if err := p.WriteMessage(c.m, w); err != nil || len(w.writes) != 1 {
			t.Errorf("%s: %d writes, error %v", short, len(w.writes), err)
			return
		}
		s := w.writes[0]
		if strings.Index(s, "\x1e") != len(s)-1 {
			t.Errorf("%s: terminator in %.200q", short, s)
			return
		}
		var got interface{}
		if err := json.Unmarshal([]byte(s[:len(s)-1]), &got); err != nil {
			t.Errorf("%s: %v in %.200q", short, err, s)
			return
		}
		want := norm(c.want)
		if _, ok := c.m.(closeMessage); ok {
			// an empty error may be left out
			for k, zero := range (o{"error": "", "allowReconnect": false}) {
				if _, ok := got.(o)[k]; !ok {
					got.(o)[k] = zero
				}
			}
		}
		if !reflect.DeepEqual(got, want) {
			t.Errorf("%s is written as %.300q", short, s)
			return
		}
		// and back
		ms, err := p.ParseMessages(strings.NewReader(s), &bytes.Buffer{})
		if err != nil || len(ms) != 1 {
			t.Errorf("%s: %d messages, error %v", short, len(ms), err)
			return
		}
		if !reflect.DeepEqual(reflect.TypeOf(ms[0]), reflect.TypeOf(c.m)) {
			t.Errorf("%s is read as %T", short, ms[0])
			return
		}
		w = &rpWrites{}
		if err := p.WriteMessage(ms[0], w); err != nil {
			t.Errorf("%s is read as %.300s: %v", short, fmt.Sprintf("%#v", ms[0]), err)
			return
		}
		back := w.writes[0][:len(w.writes[0])-1]
		got = nil
		_ = json.Unmarshal([]byte(back), &got)
		if _, ok := got.(o)["item"]; !ok && want.(o)["type"] == 2.0 {
			want.(o)["item"] = nil
		}
		if _, ok := want.(o)["arguments"].(l); ok && got.(o)["arguments"] == nil {
			got.(o)["arguments"] = l{}
		}
		if !reflect.DeepEqual(got, want) {
			t.Errorf("%s is read back as %.300q", short, back)
			return
		}
		if len(kept) < 3000 {
			kept = append(kept, ms[0])
			keptText = append(keptText, fmt.Sprintf("%#v", ms[0]))
		}
		// a failed write
		fail := errors.New("no")
		if err := p.WriteMessage(c.m, &rpWrites{err: fail}); err == nil {
			t.Errorf("%s: no error of the write", short)
			return
		}
	}
	for i, m := range kept {
		if s := fmt.Sprintf("%#v", m); s != keptText[i] {
			t.Errorf("%.300s became %.300s", keptText[i], s)
			return
		}
	}
	// what can not be encoded
	for _, bad := range []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 1), json.RawMessage("{"), o{"a": make(chan int)}} {
		for _, m := range []interface{}{streamItemMessage{2, "1", bad}, completionMessage{3, "1", bad, ""}, invocationMessage{1, "t", "1", l{bad}, nil}, invocationMessage{1, "t", "1", l{1, bad}, nil}} {
			w := &rpWrites{}
			if err := p.WriteMessage(m, w); err == nil || len(w.writes) != 0 {
				t.Errorf("%T with %T: error %v, written %q", m, bad, err, w.writes)
				return
			}
		}
	}
	// records
	raw := func(s string) interface{} { return json.RawMessage(s) }
	for s, want := range map[string]interface{}{
		`{"type":3,"invocationId":"1"}`:                                                        completionMessage{3, "1", nil, ""},
		`{"type":3,"invocationId":"1","result":null}`:                                          completionMessage{3, "1", raw("null"), ""},
		`{"type":3,"invocationId":"1","result":0}`:                                             completionMessage{3, "1", raw("0"), ""},
		`{"type":3,"invocationId":"1","result":false,"headers":{}}`:                            completionMessage{3, "1", raw("false"), ""},
		`{"error":"x","type":3,"invocationId":"1"}`:                                            completionMessage{3, "1", nil, "x"},
		`{"type":3,"invocationId":"1","result":"","error":"x"}`:                                completionMessage{3, "1", raw(`""`), "x"},
		`{"type":2,"invocationId":"1","item":[1, 2]}`:                                          streamItemMessage{2, "1", raw("[1, 2]")},
		`{"type":2,"invocationId":"1","item":null}`:                                            streamItemMessage{2, "1", raw("null")},
		`{"type":5,"invocationId":"a"}`:                                                        cancelInvocationMessage{5, "a"},
		`{"type":6}`:                                                                           hubMessage{6},
		`{"type":7}`:                                                                           closeMessage{7, "", false},
		`{"type":7,"error":"e","allowReconnect":true}`:                                         closeMessage{7, "e", true},
		`{"type":7,"allowReconnect":true}`:                                                     closeMessage{7, "", true},
		`{"type":99,"x":1}`:                                                                    hubMessage{99},
		`{"type":1,"target":"t","arguments":[]}`:                                               invocationMessage{1, "t", "", l{}, nil},
		`{"type":1,"target":"t","arguments":[null,{"a":1}]}`:                                   invocationMessage{1, "t", "", l{raw("null"), raw(`{"a":1}`)}, nil},
		`{"type":4,"target":"t","invocationId":"9","arguments":["q"]}`:                         invocationMessage{4, "t", "9", l{raw(`"q"`)}, nil},
		`{"type":1,"target":"t","invocationId":"9","streamIds":["1","2"],"arguments":[1,2,3]}`: invocationMessage{1, "t", "9", l{raw("1"), raw("2"), raw("3")}, []string{"1", "2"}},
	} {
		ms, err := p.ParseMessages(strings.NewReader(s+"\x1e"), &bytes.Buffer{})
		if err != nil || len(ms) != 1 || !reflect.DeepEqual(ms[0], want) {
			t.Errorf("%s is read as %#v, error %v", s, ms, err)
		}
	}
	for _, s := range []string{`{`, `{"type":1`, `x`, `"a"`, `[]`, `{"type":"1"}`, `{"type":1.5}`, `{"type":1,"target":1}`, `{"type":1,"target":"a","arguments":1}`, `{"type":1,"target":"a","invocationId":1,"arguments":[]}`,
		`{"type":1,"target":"a","arguments":[],"streamIds":[1]}`, `{"type":2,"invocationId":1}`, `{"type":3,"invocationId":[]}`, `{"type":3,"invocationId":"1","error":1}`, `{"type":5,"invocationId":1}`, `{"type":7,"error":1}`, `{"type":7,"allowReconnect":"x"}`,
		`{"type":4,"target":{}}`, `{"type":6}{"type":6}`, `{"type":3,"invocationId":"1","result":}`} {
		if ms, err := p.ParseMessages(strings.NewReader(s+"\x1e"), &bytes.Buffer{}); err == nil {
			t.Errorf("%s is read as %#v", s, ms)
		}
	}
	// arguments
	var n int
	if err := p.UnmarshalArgument(raw("5"), &n); err != nil || n != 5 {
		t.Errorf("argument 5 is %d, error %v", n, err)
	}
	for _, src := range []interface{}{raw(`"x"`), raw("1.5"), raw("{"), raw(""), "5", 5, nil, []byte("5")} {
		if err := p.UnmarshalArgument(src, &n); err == nil {
			t.Errorf("argument %v: no error", src)
		}
	}
	var s []interface{}
	if err := p.UnmarshalArgument(raw(`[1,"a",null]`), &s); err != nil || !reflect.DeepEqual(s, l{1.0, "a", nil}) {
		t.Errorf("argument is %v, error %v", s, err)
	}
}
