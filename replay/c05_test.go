package signalr

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/vmihailenco/msgpack/v5"
)

type rp5Writes struct {
	writes []string
	err    error
}

func (w *rp5Writes) Write(p []byte) (int, error) {
	w.writes = append(w.writes, string(p))
	if w.err != nil {
		return 0, w.err
	}
	return len(p), nil
}

func rp5Protocol() *messagePackHubProtocol {
	p := &messagePackHubProtocol{}
	p.setDebugLogger(rpLog())
	return p
}

func rp5Raw(v interface{}) msgpack.RawMessage {
	b := &bytes.Buffer{}
	e := msgpack.NewEncoder(b)
	e.SetCustomStructTag("json")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return msgpack.RawMessage(b.Bytes())
}

// rp5Array is the array of the values v; raw messages are taken as they are
func rp5Array(v ...interface{}) string {
	s := string([]byte{0x90 | byte(len(v))})
	for _, x := range v {
		s += string(rp5Raw(x))
	}
	return s
}

func rp5Frame(body string) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(body))), body...)
}

func rp5Ints(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return x
		}
		r := make([]interface{}, v.Len())
		for i := range r {
			r[i] = rp5Ints(v.Index(i).Interface())
		}
		return r
	case reflect.Map:
		r := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			r[fmt.Sprint(k.Interface())] = rp5Ints(v.MapIndex(k).Interface())
		}
		return r
	}
	return x
}

type rp5Struct struct {
	First  int    `json:"first"`
	Second string `json:"second"`
}

func rp5Msg(m interface{}) string {
	raw := func(x interface{}) string {
		if x == nil {
			return "<nil>"
		}
		if r, ok := x.(msgpack.RawMessage); ok {
			return fmt.Sprintf("raw:%x", string(r))
		}
		return fmt.Sprintf("%T:%v", x, x)
	}
	switch m := m.(type) {
	case invocationMessage:
		s := fmt.Sprintf("invocation %d %q %q %q %d", m.Type, m.Target, m.InvocationID, m.StreamIds, len(m.Arguments))
		for _, a := range m.Arguments {
			s += " " + raw(a)
		}
		return s
	case streamItemMessage:
		return fmt.Sprintf("item %d %q %s", m.Type, m.InvocationID, raw(m.Item))
	case completionMessage:
		return fmt.Sprintf("completion %d %q %q %s", m.Type, m.InvocationID, m.Error, raw(m.Result))
	}
	return rpMessage(m)
}

func TestReplayC05(t *testing.T) {
	type l = []interface{}
	type o = map[string]interface{}
	type tc struct {
		m    interface{}
		want l
	}
	cut := func(x interface{}) string {
		if m, ok := x.(streamItemMessage); ok && len(rp5Raw(m.Item)) > 1000 {
			return "stream item of " + fmt.Sprint(len(rp5Raw(m.Item))) + " bytes"
		}
		s := fmt.Sprintf("%#v", x)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	long := strings.Repeat("y", 70000)
	values := l{nil, 0, 1, -1, 200, math.MaxInt64, -1.5, true, false, "", "a", long, l{}, l{1, "x", nil}, o{}, o{"a": l{1}}, []string{"p"}, []byte{1, 2}, rp5Raw("raw")}
	cases := []tc{{hubMessage{6}, l{6}}}
	for i, v := range values {
		w := v
		if _, ok := v.(msgpack.RawMessage); ok {
			w = "raw"
		}
		for _, id := range []string{"1", "", "id \x1e\"", "12345678901234567890123456789012345"} {
			text := fmt.Sprint("t", i, strings.Repeat("z", 20*i))
			var idOrNil interface{} = id
			if id == "" {
				idOrNil = nil
			}
			cases = append(cases, tc{streamItemMessage{2, id, v}, l{2, o{}, id, w}})
			if v != nil {
				cases = append(cases, tc{completionMessage{3, id, v, ""}, l{3, o{}, id, 3, w}})
			} else {
				cases = append(cases, tc{completionMessage{3, id, nil, ""}, l{3, o{}, id, 2}})
			}
			cases = append(cases, tc{completionMessage{3, id, v, text}, l{3, o{}, id, 1, text}})
			cases = append(cases, tc{cancelInvocationMessage{5, id}, l{5, o{}, id}})
			for _, typ := range []int{1, 4} {
				for n := 0; n < 4; n++ {
					args, wargs, ids, wids := l{}, l{}, []string{}, l{}
					for j := 0; j < n*7; j++ {
						args, wargs = append(args, v), append(wargs, w)
						ids, wids = append(ids, fmt.Sprint("s", j)), append(wids, fmt.Sprint("s", j))
					}
					cases = append(cases, tc{invocationMessage{typ, text, id, args, ids}, l{typ, o{}, idOrNil, text, wargs, wids}})
					cases = append(cases, tc{invocationMessage{typ, text, id, args, nil}, l{typ, o{}, idOrNil, text, wargs, l{}}})
					cases = append(cases, tc{invocationMessage{typ, text, id, nil, ids[:n]}, l{typ, o{}, idOrNil, text, l{}, wids[:n]}})
				}
			}
			for _, re := range []bool{true, false} {
				cases = append(cases, tc{closeMessage{7, id, re}, l{7, id, re}})
			}
		}
	}
	cases = append(cases, tc{streamItemMessage{2, "1", rp5Struct{3, "b"}}, l{2, o{}, "1", o{"first": 3, "second": "b"}}})
	cases = append(cases, tc{invocationMessage{1, "t", "1", l{rp5Struct{3, "b"}, &rp5Struct{4, "c"}}, nil}, l{1, o{}, "1", "t", l{o{"first": 3, "second": "b"}, o{"first": 4, "second": "c"}}, l{}}})
	var many, wmany l
	for i := 0; i < 70000; i++ {
		many, wmany = append(many, i), append(wmany, i)
	}
	cases = append(cases, tc{invocationMessage{1, "t", "1", many, nil}, l{1, o{}, "1", "t", wmany, l{}}})
	for _, n := range []int{1 << 21, 1<<21 - 1, 3000000, 40000000} {
		x := strings.Repeat("b", n)
		cases = append(cases, tc{streamItemMessage{2, "1", x}, l{2, o{}, "1", x}})
	}
	write := func(m interface{}, w *rp5Writes) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v", r)
			}
		}()
		return rp5Protocol().WriteMessage(m, w)
	}
	for _, c := range cases {
		w := &rp5Writes{}
		if err := write(c.m, w); err != nil {
			t.Errorf("%s: %v", cut(c.m), err)
			return
		}
		if len(w.writes) != 1 {
			t.Errorf("%s: %d writes", cut(c.m), len(w.writes))
			return
		}
		s := w.writes[0]
		n, k := binary.Uvarint([]byte(s))
		if k <= 0 || int(n) != len(s)-k {
			t.Errorf("%s: prefix %d for %d bytes", cut(c.m), n, len(s)-k)
			return
		}
		got, err := msgpack.NewDecoder(strings.NewReader(s[k:])).DecodeInterface()
		if err != nil || !reflect.DeepEqual(rp5Ints(got), rp5Ints(c.want)) {
			t.Errorf("%s is written as %s (%v)", cut(c.m), cut(got), err)
			return
		}
		// nothing after the array
		d := msgpack.NewDecoder(strings.NewReader(s[k:]))
		raw, _ := d.DecodeRaw()
		if len(raw) != len(s)-k {
			t.Errorf("%s: %d bytes after the array", cut(c.m), len(s)-k-len(raw))
			return
		}
	}
	bad := l{make(chan int), l{1, func() {}}, o{"a": make(chan int)}}
	for _, v := range bad {
		for _, m := range (l{streamItemMessage{2, "1", v}, completionMessage{3, "1", v, ""}, invocationMessage{1, "t", "1", l{1, v}, nil}, invocationMessage{1, "t", "1", l{v, 1}, []string{"s"}}}) {
			w := &rp5Writes{}
			if err := rp5Protocol().WriteMessage(m, w); err == nil || len(w.writes) > 0 {
				t.Errorf("a message that can not be encoded: %d writes, error %v", len(w.writes), err)
				return
			}
		}
	}
	for _, m := range (l{"text", nil, 6, handshakeRequest{}, &invocationMessage{}}) {
		w := &rp5Writes{}
		if err := rp5Protocol().WriteMessage(m, w); err == nil || len(w.writes) > 0 {
			t.Errorf("%#v is no message: %d writes, error %v", m, len(w.writes), err)
			return
		}
	}
	if err := rp5Protocol().WriteMessage(hubMessage{6}, &rp5Writes{err: errors.New("broken")}); err == nil {
		t.Error("a failed write was not reported")
		return
	}

	// decoding
	type dc struct {
		body string
		want string // "" is an error
	}
	arr := rp5Array
	h := o{}
	hx := o{"a": "b", "c": "d"}
	raw := func(b string) msgpack.RawMessage { return msgpack.RawMessage(b) }
	r := func(v interface{}) string { return fmt.Sprintf("raw:%x", string(rp5Raw(v))) }
	big := func(n int) (s string, want string) {
		s = string([]byte{0xdc, byte(n >> 8), byte(n)})
		for i := 0; i < n; i++ {
			s += string(rp5Raw(i))
			want += " " + r(i)
		}
		return
	}
	dcs := []dc{
		{arr(6), `hub 6`}, {arr(6, 1), ""}, {arr(), ""}, {"", ""}, {"\xc0", ""}, {"\xa16", ""}, {arr("6"), ""}, {arr(nil), "hub 0"}, {"\x81\x06\x06", ""},
		{arr(0), `hub 0`}, {arr(8), `hub 8`}, {arr(99, h, "x"), `hub 99`}, {arr(-1), `hub -1`}, {arr(257+1, h, "1", "2"), `hub 258`},
		{arr(7, nil), `close 7 "" false`}, {arr(7, "e"), `close 7 "e" false`}, {arr(7, "e", true), `close 7 "e" true`}, {arr(7, "", false), `close 7 "" false`},
		{arr(7, nil, true), `close 7 "" true`}, {arr(7), ""}, {arr(7, 1), ""}, {arr(7, "e", "x"), ""}, {arr(7, h, "e", true), ""}, {arr(7, "e", true, 1), `close 7 "e" true`},
	}
	for _, hd := range (l{h, hx, nil, raw("\xde\x00\x01\xa1a\xa1b"), raw("\xdf\x00\x00\x00\x00"), raw("\x81\x92\x01\x02\x03"), raw("\x82\xa1a\xa1b\xa1a\xa1b"), raw("\x8f" + strings.Repeat("\xa1a\xa1b", 15))}) {
		for _, typ := range []int{1, 4} {
			for _, id := range (l{"1", nil, "", long[:300]}) {
				s, _ := id.(string)
				inv := func(ids []string, n int, args string) string {
					return fmt.Sprintf("invocation %d %q %q %q %d", typ, "T", s, ids, n) + args
				}
				dcs = append(dcs,
					dc{arr(typ, hd, id, "T", l{}), inv(nil, 0, "")},
					dc{arr(typ, hd, id, "T", l{1, "a", o{"b": l{2}}, nil}), inv(nil, 4, " "+r(1)+" "+r("a")+" "+r(o{"b": l{2}})+" "+r(nil))},
					dc{arr(typ, hd, id, "T", l{1}, l{}), inv(nil, 1, " "+r(1))},
					dc{arr(typ, hd, id, "T", l{1}, l{"s1", "s2"}), inv([]string{"s1", "s2"}, 1, " "+r(1))},
					dc{arr(typ, hd, id, "T", l{}, l{"s1"}), inv([]string{"s1"}, 0, "")},
				)
			}
			for _, n := range []int{15, 16, 17, 255, 256, 257, 1000} {
				b, w := big(n)
				dcs = append(dcs, dc{arr(typ, hd, "1", "T", raw(b), l{"s"}), fmt.Sprintf("invocation %d %q %q %q %d", typ, "T", "1", []string{"s"}, n) + w})
			}
			dcs = append(dcs, dc{arr(typ, hd, "1", "T"), ""}, dc{arr(typ, hd, "1"), ""}, dc{arr(typ, hd), ""}, dc{arr(typ), ""},
				dc{arr(typ, hd, 1, "T", l{}), ""}, dc{arr(typ, hd, []byte("1"), "T", l{}), ""}, dc{arr(typ, hd, l{}, "T", l{}), ""}, dc{arr(typ, hd, true, "T", l{}), ""},
				dc{arr(typ, hd, raw("\x81\x90\x01"), "T", l{}), ""}, dc{arr(typ, hd, raw("\xdf\xff\xff\xff\xff"), "T", l{}), ""},
				dc{arr(typ, hd, "1", 5, l{}), ""}, dc{arr(typ, hd, "1", "T", 5), ""}, dc{arr(typ, hd, "1", "T", o{}), ""}, dc{arr(typ, hd, "1", "T", "x"), ""},
				dc{arr(typ, hd, "1", "T", l{}, 5), ""}, dc{arr(typ, hd, "1", "T", l{}, l{1}), ""}, dc{arr(typ, hd, "1", "T", l{}, l{"s", l{}}), ""}, dc{arr(typ, hd, "1", "T", l{}, "s"), ""},
				dc{arr(typ, hd, "1", "T", raw("\x92\x01")), ""}, dc{arr(typ, hd, "1", "T", raw("\xdd\xff\xff\xff\xff")), ""})
		}
		for _, v := range values {
			dcs = append(dcs, dc{arr(2, hd, "5", v), `item 2 "5" ` + r(v)}, dc{arr(3, hd, "5", 3, v), `completion 3 "5" "" ` + r(v)})
		}
		for _, k := range []string{"\xd0\x03", "\xcc\x03", "\xd1\x00\x03", "\xd3\x00\x00\x00\x00\x00\x00\x00\x03"} {
			dcs = append(dcs, dc{arr(3, hd, "5", raw(k), "x"), `completion 3 "5" "" ` + r("x")})
		}
		dcs = append(dcs, dc{arr(2, hd, "5"), ""}, dc{arr(2, hd), ""}, dc{arr(2, hd, 5, 1), ""}, dc{arr(2, hd, "5", raw("\x92\x01")), ""}, dc{arr(2, hd, "5", raw("")), ""},
			dc{arr(3, hd, "5", 2), `completion 3 "5" "" <nil>`}, dc{arr(3, hd, "5", 1, "no"), `completion 3 "5" "no" <nil>`}, dc{arr(3, hd, "5", 3, nil), `completion 3 "5" "" raw:c0`},
			dc{arr(3, hd, "5", 1, ""), `completion 3 "5" "" <nil>`},
			dc{arr(3, hd, "5", 1), ""}, dc{arr(3, hd, "5", 3), ""}, dc{arr(3, hd, "5"), ""}, dc{arr(3, hd), ""}, dc{arr(3), ""},
			dc{arr(3, hd, "5", 0, "x"), ""}, dc{arr(3, hd, "5", 4, "x"), ""}, dc{arr(3, hd, "5", -1, "x"), ""}, dc{arr(3, hd, "5", 257, "x"), ""}, dc{arr(3, hd, "5", 258), ""}, dc{arr(3, hd, "5", 259, "x"), ""},
			dc{arr(3, hd, "5", "3", "x"), ""}, dc{arr(3, hd, "5", 1, 5), ""}, dc{arr(3, hd, "5", 1, l{}), ""}, dc{arr(3, hd, 5, 2), ""}, dc{arr(3, hd, "5", 3, raw("\x92\x01")), ""},
			dc{arr(5, hd, "7"), `cancel 5 "7"`}, dc{arr(5, hd), ""}, dc{arr(5, hd, 7), ""}, dc{arr(5), ""})
	}
	for _, hd := range (l{1, "x", l{}, true, l{l{}}, []byte{1}, raw("\x81\x01"), raw("\xde\x00\x02\xa1a\xa1b")}) {
		dcs = append(dcs, dc{arr(1, hd, "1", "T", l{}), ""}, dc{arr(2, hd, "5", 1), ""}, dc{arr(3, hd, "5", 2), ""}, dc{arr(3, hd, "5", 1, "x"), ""}, dc{arr(5, hd, "7"), ""})
	}
	for _, c := range dcs {
		got := ""
		ms, err := rp5Protocol().ParseMessages(bytes.NewReader(rp5Frame(c.body)), &bytes.Buffer{})
		if len(c.body) == 0 {
			continue
		}
		if err == nil {
			for _, m := range ms {
				got += rp5Msg(m)
			}
			if got == "" {
				got = "nothing"
			}
		}
		if got != c.want {
			t.Errorf("%x: got %s (%v), want %s", c.body[:min(len(c.body), 100)], got[:min(len(got), 200)], err, c.want[:min(len(c.want), 200)])
			return
		}
	}

	// arguments
	arg := func(src interface{}, dst interface{}) (err error) {
		defer func() {
			if r := recover(); r != nil {
				t.Errorf("UnmarshalArgument(%x) panics: %v", src, r)
			}
		}()
		return rp5Protocol().UnmarshalArgument(src, dst)
	}
	for _, v := range values {
		if v == nil {
			continue
		}
		dst := reflect.New(reflect.TypeOf(v))
		want := v
		if _, ok := v.(msgpack.RawMessage); ok {
			want = "raw"
			dst = reflect.New(reflect.TypeOf(""))
		}
		if err := arg(rp5Raw(v), dst.Interface()); err != nil || !reflect.DeepEqual(rp5Ints(dst.Elem().Interface()), rp5Ints(want)) {
			t.Errorf("argument %s: %s, %v", cut(v), cut(dst.Elem().Interface()), err)
			return
		}
	}
	var st rp5Struct
	if err := arg(rp5Raw(o{"first": 5, "second": "s"}), &st); err != nil || st != (rp5Struct{5, "s"}) {
		t.Errorf("struct argument: %v %v", st, err)
	}
	var i interface{}
	if err := arg(raw("\x81\x01\x02"), &i); err != nil || !reflect.DeepEqual(rp5Ints(i), rp5Ints(o{"1": 2})) {
		t.Errorf("map argument: %v %v", i, err)
	}
	p := &st
	if err := arg(raw("\xc0"), &p); err != nil || p != nil {
		t.Errorf("nil argument: %v %v", p, err)
	}
	for _, s := range (l{raw("\x81\x91\x01\x02"), raw("\x92\x01"), raw("\xa5ab"), raw(""), raw("\x81\x81\x01\x02\x03")}) {
		if err := arg(s, &i); err == nil {
			t.Errorf("malformed argument %x: no error", s)
			return
		}
	}
	n := 0
	for _, s := range (l{rp5Raw("a"), rp5Raw(l{1}), rp5Raw(1.5e300)}) {
		if err := arg(s, &n); err == nil {
			t.Errorf("argument %x of type int: no error", s)
			return
		}
	}
	for _, s := range (l{nil, "a", 1, []byte{1}, json5("1")}) {
		if err := arg(s, &n); err == nil {
			t.Errorf("source %v: no error", s)
			return
		}
	}
}

type json5 []byte
