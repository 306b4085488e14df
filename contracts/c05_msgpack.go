package signalr

import (
	"bytes"
	"io"

	"github.com/go-kit/log"
	"github.com/vmihailenco/msgpack/v5"
	"github.com/vmihailenco/msgpack/v5/msgpcode"
)

// C05: the MessagePack form of the hub messages.
//
// Contract of the msgpack library (assumed): decoding at position p of the frame f is a function of f and p. A value has a
// code, ends at mp.end(f, p) and may be decoded as an array header (then mp.in(f, p) follows), an integer, a string, a
// bool or as a whole. Element i of the array whose elements start at p is at mp.at(f, p, i).
//
// Ghost state: d.f is the frame, d.p the position of the decoder; d.base is where the elements of the array opened last
// start, d.c how many of them were read, d.bad tells that one of them could not be decoded and d.badAt is their base.

func c05code(f string, p int) byte          { return gvPure[byte]("mp.code", f, p) }
func c05end(f string, p int) int            { return gvPure[int]("mp.end", f, p) }
func c05in(f string, p int) int             { return gvPure[int]("mp.in", f, p) }
func c05at(f string, p, i int) int          { return gvPure[int]("mp.at", f, p, i) }
func c05arr(f string, p int) int            { return gvPure[int]("mp.arr", f, p) }
func c05int(f string, p int) int            { return gvPure[int]("mp.int", f, p) }
func c05str(f string, p int) string         { return gvPure[string]("mp.str", f, p) }
func c05raw(f string, p int) string         { return gvPure[string]("mp.raw", f, p) }
func c05bad(k string, f string, p int) bool { return gvPure[bool]("mp.bad", k, f, p) }

// c05map: the code of a map, or nil
func c05map(c byte) bool {
	return gvOr(gvOr(c == 0xc0, c == 0xde), gvOr(c == 0xdf, gvAnd(c >= 0x80, c <= 0x8f)))
}

// c05codes: the codes are variables of the library, which nobody changes
func c05codes() {
	gvAssume(gvAnd(msgpcode.Nil == 0xc0, gvAnd(msgpcode.Map16 == 0xde, msgpcode.Map32 == 0xdf)))
	gvAssume(gvAnd(msgpcode.FixedMapLow == 0x80, msgpcode.FixedMapHigh == 0x8f))
	gvAssume(gvAnd(msgpcode.Str8 == 0xd9, gvAnd(msgpcode.Str16 == 0xda, msgpcode.Str32 == 0xdb)))
	gvAssume(gvAnd(msgpcode.FixedStrLow == 0xa0, msgpcode.FixedStrHigh == 0xbf))
}

func c05string(c byte) bool {
	return gvOr(gvAnd(c >= 0xa0, c <= 0xbf), gvAnd(c >= 0xd9, c <= 0xdb))
}

//govc:model github.com/vmihailenco/msgpack/v5/msgpcode.IsFixedMap
func c05isFixedMap(c byte) bool { return gvAnd(c >= 0x80, c <= 0x8f) }

//govc:model github.com/vmihailenco/msgpack/v5/msgpcode.IsString
func c05isString(c byte) bool { return c05string(c) }

//govc:model github.com/vmihailenco/msgpack/v5.NewDecoder
func c05newDecoder__mpdec(r io.Reader) *msgpack.Decoder {
	b, ok := r.(*bytes.Buffer)
	gvCheck("the-frame-is-decoded", gvAnd(ok, gvBuf(b) == gvGet[string]("d.f", "")))
	gvCheck("the-frame-is-decoded-once", gvGet[int]("d.n", "") == 0)
	gvSet("d.n", "", 1)
	gvSet("d.p", "", 0)
	return new(msgpack.Decoder)
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).SetMapDecoder
func c05setMapDecoder__mpdec(d *msgpack.Decoder, f func(*msgpack.Decoder) (interface{}, error)) {}

// c05here is the frame and the position of the decoder
func c05here() (string, int) { return gvGet[string]("d.f", ""), gvGet[int]("d.p", "") }

func c05fail(element bool) error {
	if element {
		gvSet("d.bad", "", true)
		gvSet("d.badAt", "", gvGet[int]("d.base", ""))
	}
	gvSet("d.p", "", gvAny[int]())
	err := gvAny[error]()
	gvAssume(err != nil)
	return err
}

// c05pass moves the decoder over the value at its position
func c05pass(f string, p int) {
	base, c := gvGet[int]("d.base", ""), gvGet[int]("d.c", "")
	end := c05end(f, p)
	gvAssume(gvImp(p == c05at(f, base, c), c05at(f, base, c+1) == end))
	gvSet("d.c", "", c+1)
	gvSet("d.p", "", end)
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).PeekCode
func c05peek__mpdec(d *msgpack.Decoder) (byte, error) {
	f, p := c05here()
	if c05bad("code", f, p) {
		return 0, c05fail(false)
	}
	return c05code(f, p), nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeArrayLen
func c05decodeArrayLen__mpdec(d *msgpack.Decoder) (int, error) {
	f, p := c05here()
	if c05bad("array", f, p) {
		return 0, c05fail(false)
	}
	n, base := c05arr(f, p), c05in(f, p)
	gvAssume(gvAnd(-1 <= n, n < 1<<32))
	gvAssume(c05at(f, base, 0) == base)
	gvSet("d.base", "", base)
	gvSet("d.c", "", 0)
	gvSet("d.len", "", c05max(n))
	gvSet("d.arr", "", n)
	gvSet("d.p", "", base)
	return n, nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInt
func c05decodeInt__mpdec(d *msgpack.Decoder) (int, error) {
	f, p := c05here()
	if c05bad("int", f, p) {
		return 0, c05fail(false)
	}
	c05pass(f, p)
	return c05int(f, p), nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInt64
func c05decodeInt64__mpdec(d *msgpack.Decoder) (int64, error) {
	n, err := c05decodeInt__mpdec(d)
	return int64(n), err
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInt8
func c05decodeInt8__mpdec(d *msgpack.Decoder) (int8, error) {
	n, err := c05decodeInt__mpdec(d)
	return int8(n), err
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeString
func c05decodeString__mpdec(d *msgpack.Decoder) (string, error) {
	f, p := c05here()
	if c05bad("string", f, p) {
		return "", c05fail(true)
	}
	s := c05str(f, p)
	gvAssume(gvImp(c05code(f, p) == 0xc0, s == ""))
	c05pass(f, p)
	return s, nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeBool
func c05decodeBool__mpdec(d *msgpack.Decoder) (bool, error) {
	f, p := c05here()
	if c05bad("bool", f, p) {
		return false, c05fail(false)
	}
	c05pass(f, p)
	return gvPure[bool]("mp.bool", f, p), nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeNil
func c05decodeNil__mpdec(d *msgpack.Decoder) error {
	f, p := c05here()
	if gvOr(c05bad("code", f, p), c05code(f, p) != 0xc0) {
		return c05fail(false)
	}
	c05pass(f, p)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).Skip
func c05skip__mpdec(d *msgpack.Decoder) error {
	f, p := c05here()
	if c05bad("value", f, p) {
		return c05fail(true)
	}
	c05pass(f, p)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeRaw
func c05decodeRaw__mpdec(d *msgpack.Decoder) (msgpack.RawMessage, error) {
	f, p := c05here()
	if c05bad("value", f, p) {
		return nil, c05fail(true)
	}
	c05pass(f, p)
	return msgpack.RawMessage([]byte(c05raw(f, p))), nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeMap
func c05decodeMap__mpdec(d *msgpack.Decoder) (map[string]interface{}, error) {
	f, p := c05here()
	gvCheck("the-decoder-does-not-trust-the-size-of-a-map", false)
	if c05bad("map", f, p) {
		return nil, c05fail(false)
	}
	c05pass(f, p)
	return gvAny[map[string]interface{}](), nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).DecodeInterface
func c05decodeInterface__mpdec(d *msgpack.Decoder) (interface{}, error) {
	gvCheck("the-decoder-does-not-trust-sizes-and-keys", false)
	return nil, c05fail(false)
}

//govc:inv
func inv_c05pos__mpdec() bool {
	f, p := c05here()
	return p == c05at(f, gvGet[int]("d.base", ""), gvGet[int]("d.c", ""))
}

//govc:inv
func inv_c05within__mpdec() bool { return gvGet[int]("d.c", "") <= gvGet[int]("d.len", "") }

//govc:inv
func inv_c05index__mpdec(i int) bool { return i == gvGet[int]("d.c", "") }

//govc:inv
func inv_c05range__mpdec(i int) bool { return i+1 == gvGet[int]("d.c", "") }

//govc:inv
func inv_c05left__mpdec(i int) bool { return i == gvGet[int]("d.arr", "")-gvGet[int]("d.c", "") }

//govc:inv
func inv_c05made__mpdec(args []interface{}) bool {
	f, k, base := gvGet[string]("d.f", ""), gvGet[int]("d.k", ""), gvGet[int]("d.base", "")
	return gvImp(gvAnd(0 <= k, k < gvGet[int]("d.c", "")), gvAnd(k < len(args), c05isRaw(gvElem(args, k), f, c05at(f, base, k))))
}

//govc:inv
func inv_c05madeOf__mpdec(m *invocationMessage) bool { return inv_c05made__mpdec(m.Arguments) }

//govc:inv
func inv_c05madeIds__mpdec(ids []string) bool {
	f, k, base := gvGet[string]("d.f", ""), gvGet[int]("d.k", ""), gvGet[int]("d.base", "")
	return gvImp(gvAnd(0 <= k, k < gvGet[int]("d.c", "")), gvAnd(k < len(ids), gvElem(ids, k) == c05str(f, c05at(f, base, k))))
}

//govc:inv
func inv_c05args__mpdec(m *invocationMessage) bool { return c05args(m.Arguments) }

//govc:inv
func inv_c05ids__mpdec(m *invocationMessage) bool { return c05ids(m.StreamIds) }

//govc:inv
func inv_c05argList__mpdec(args []interface{}) bool { return c05args(args) }

//govc:inv
func inv_c05idList__mpdec(ids []string) bool { return c05ids(ids) }

func c05args(args []interface{}) bool {
	f, k, base := gvGet[string]("d.f", ""), gvGet[int]("d.k", ""), gvGet[int]("d.base", "")
	return gvAnd(len(args) == gvGet[int]("d.c", ""), gvImp(gvAnd(0 <= k, k < len(args)), c05isRaw(gvElem(args, k), f, c05at(f, base, k))))
}

func c05ids(ids []string) bool {
	f, k, base := gvGet[string]("d.f", ""), gvGet[int]("d.k", ""), gvGet[int]("d.base", "")
	return gvAnd(len(ids) == gvGet[int]("d.c", ""), gvImp(gvAnd(0 <= k, k < len(ids)), gvElem(ids, k) == c05str(f, c05at(f, base, k))))
}

// c05isRaw: x is the raw value at p
func c05isRaw(x any, f string, p int) bool {
	return gvAnd(gvIs[msgpack.RawMessage](x), string(gvAs[msgpack.RawMessage](x)) == c05raw(f, p))
}

func c05max(n int) int { return gvIte(n > 0, n, 0) }

//govc:task C05 every-array-is-decoded-to-its-message mode=mpdec panics
func c05Decode() {
	c05codes()
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	m := &messagePackHubProtocol{}
	m.dbg = dbg
	f, k := gvAny[string](), gvRigid[int]()
	gvSet("cut.off", "", true)
	gvSet("d.f", "", f)
	gvSet("d.k", "", k)
	gvSet("d.n", "", 0)
	gvSet("d.bad", "", false)
	b := &bytes.Buffer{}
	gvSet("buf", b, f)
	message, err := m.parseMessage(b)
	n, p1 := c05arr(f, 0), c05in(f, 0)
	t, p2 := c05int(f, p1), c05end(f, p1)
	p3 := c05end(f, p2)
	// what must not be accepted
	if gvOr(c05bad("array", f, 0), c05bad("int", f, p1)) {
		gvCheck("broken-arrays-are-refused", err != nil)
		gvCover("broken")
		return
	}
	if gvOr(t < 1, t > 7) {
		gvCheck("unknown-arrays-are-no-messages", gvOr(err != nil, gvAnd(gvIs[hubMessage](message), gvAs[hubMessage](message).Type == t)))
		gvCover("unknown")
		return
	}
	if t == 6 {
		gvCheck("pings-are-decoded", gvIff(err == nil, n == 1))
		gvCheck("a-ping-is-a-ping", gvImp(err == nil, gvAnd(gvIs[hubMessage](message), gvAs[hubMessage](message).Type == 6)))
		gvCover("ping")
		return
	}
	if t == 7 {
		p3 := c05end(f, p2)
		bad := gvOr(n < 2, gvOr(c05bad("string", f, p2), gvAnd(n > 2, c05bad("bool", f, p3))))
		gvCheck("conforming-arrays-are-decoded", gvIff(err != nil, bad))
		x := gvAs[closeMessage](message)
		ok := gvAnd(gvAnd(gvIs[closeMessage](message), x.Type == 7), gvAnd(x.Error == c05str(f, p2), gvIff(x.AllowReconnect, gvAnd(n > 2, gvPure[bool]("mp.bool", f, p3)))))
		gvCheck("a-message-has-the-values-of-its-array", gvImp(err == nil, ok))
		gvCover("close")
		return
	}
	headers := gvOr(gvOr(c05bad("code", f, p2), gvNot(c05map(c05code(f, p2)))), c05bad("value", f, p2))
	id := c05str(f, p3)
	p4 := c05end(f, p3)
	switch t {
	case 1, 4:
		idCode := c05code(f, p3)
		idBad := gvOr(gvOr(c05bad("code", f, p3), c05bad("string", f, p3)), gvNot(gvOr(idCode == 0xc0, c05string(idCode))))
		p5 := c05end(f, p4)
		args := c05in(f, p5)
		na := c05max(c05arr(f, p5))
		p6 := c05at(f, args, na)
		ids := c05in(f, p6)
		ni := c05max(c05arr(f, p6))
		badElem := gvAnd(gvGet[bool]("d.bad", ""), gvOr(gvGet[int]("d.badAt", "") == args, gvAnd(n >= 6, gvGet[int]("d.badAt", "") == ids)))
		bad := gvOr(gvOr(n < 5, headers), gvOr(idBad, gvOr(c05bad("string", f, p4), c05bad("array", f, p5))))
		bad = gvOr(bad, gvAnd(n >= 6, c05bad("array", f, p6)))
		x := gvAs[invocationMessage](message)
		if err != nil {
			gvCheck("conforming-arrays-are-decoded", gvOr(bad, badElem))
			gvCover("invocation refused")
			return
		}
		gvCheck("broken-arrays-are-refused", gvNot(gvAnd(bad, n <= 6)))
		gvCheck("broken-arguments-are-refused", gvNot(gvGet[bool]("d.bad", "")))
		gvCheck("a-message-has-the-type-of-its-array", gvAnd(gvIs[invocationMessage](message), x.Type == t))
		gvCheck("a-message-has-the-values-of-its-array", gvAnd(x.InvocationID == gvIte(idCode == 0xc0, "", id), x.Target == c05str(f, p4)))
		arg := gvElem(x.Arguments, k)
		gvCheck("a-message-has-the-arguments-of-its-array", gvAnd(len(x.Arguments) == na, gvImp(gvAnd(0 <= k, k < na), c05isRaw(arg, f, c05at(f, args, k)))))
		is := gvAnd(len(x.StreamIds) == ni, gvImp(gvAnd(0 <= k, k < ni), gvElem(x.StreamIds, k) == c05str(f, c05at(f, ids, k))))
		none := len(x.StreamIds) == 0
		gvCheck("a-message-has-the-stream-ids-of-its-array", gvAnd(gvImp(n == 5, none), gvAnd(gvImp(n == 6, is), gvOr(is, none))))
		gvCover("invocation")
	case 2:
		bad := gvOr(gvOr(n < 4, headers), gvOr(c05bad("string", f, p3), c05bad("value", f, p4)))
		gvCheck("broken-arrays-are-refused", gvImp(bad, err != nil))
		gvCheck("conforming-arrays-are-decoded", gvImp(err != nil, gvOr(bad, n > 4)))
		x := gvAs[streamItemMessage](message)
		ok := gvAnd(gvAnd(gvIs[streamItemMessage](message), x.Type == 2), gvAnd(x.InvocationID == id, c05isRaw(x.Item, f, p4)))
		gvCheck("a-message-has-the-values-of-its-array", gvImp(err == nil, ok))
		gvCover("stream item")
	case 3:
		kind, p5 := c05int(f, p4), c05end(f, p4)
		bad := gvOr(gvOr(n < 4, headers), gvOr(c05bad("string", f, p3), c05bad("int", f, p4)))
		bad = gvOr(bad, gvOr(kind < 1, kind > 3))
		bad = gvOr(bad, gvOr(gvAnd(kind == 1, gvOr(n < 5, c05bad("string", f, p5))), gvAnd(kind == 3, gvOr(n < 5, c05bad("value", f, p5)))))
		gvCheck("conforming-arrays-are-decoded", gvIff(err != nil, bad))
		x := gvAs[completionMessage](message)
		ok := gvAnd(gvAnd(gvIs[completionMessage](message), x.Type == 3), gvAnd(x.InvocationID == id, x.Error == gvIte(kind == 1, c05str(f, p5), "")))
		ok = gvAnd(ok, gvIte(kind == 3, c05isRaw(x.Result, f, p5), x.Result == nil))
		gvCheck("a-message-has-the-values-of-its-array", gvImp(err == nil, ok))
		gvCover("completion")
	case 5:
		bad := gvOr(gvOr(n < 3, headers), c05bad("string", f, p3))
		gvCheck("broken-arrays-are-refused", gvImp(bad, err != nil))
		gvCheck("conforming-arrays-are-decoded", gvImp(err != nil, gvOr(bad, n > 3)))
		x := gvAs[cancelInvocationMessage](message)
		gvCheck("a-message-has-the-values-of-its-array", gvImp(err == nil, gvAnd(gvIs[cancelInvocationMessage](message), gvAnd(x.Type == 5, x.InvocationID == id))))
		gvCover("cancel")
	}
}

// What is encoded. The encoder appends to its buffer; the message is its sequence of tokens: arrays and maps of a length,
// and values.
//
// Ghost state: e.count counts the tokens, e.k is an arbitrary index and e.kind, e.len, e.val are token number e.k; e.buf is
// the buffer of the encoder and e.text its contents. e.base is where the elements of the array opened last start and
// e.bkind, e.blen, e.bval are token number e.k as of then. e.cant tells that a value could not be encoded.

const (
	c05Array = 1
	c05Map   = 2
	c05Value = 3
)

// c05norm: integers are encoded by their values
func c05norm(x any) any {
	return gvIte(gvIs[int8](x), any(int(gvAs[int8](x))), gvIte(gvIs[int64](x), any(int(gvAs[int64](x))), x))
}

func c05put(kind, n int, v any) {
	at := gvGet[int]("e.count", "") == gvGet[int]("e.k", "")
	gvSet("e.kind", "", gvIte(at, kind, gvGet[int]("e.kind", "")))
	gvSet("e.len", "", gvIte(at, n, gvGet[int]("e.len", "")))
	gvSet("e.val", "", gvIte(at, c05norm(v), gvGet[any]("e.val", "")))
	gvSet("e.count", "", gvGet[int]("e.count", "")+1)
	b := gvGet[*bytes.Buffer]("e.buf", "")
	text := gvAny[string]()
	gvAssume(len(text) < 1<<31)
	gvCheck("only-the-encoder-writes-to-its-buffer", gvBuf(b) == gvGet[string]("e.text", ""))
	gvSet("e.text", "", text)
	gvBufChange(b, text)
}

func c05newEncoding(w io.Writer) {
	b, ok := w.(*bytes.Buffer)
	gvCheck("a-message-is-encoded-to-its-own-buffer", ok)
	gvSet("e.buf", "", b)
	gvSet("e.text", "", gvBuf(b))
	gvSet("e.count", "", 0)
	gvSet("e.tag", "", "")
	gvCheck("a-message-is-encoded-to-its-own-buffer", gvBuf(b) == "")
}

//govc:model github.com/vmihailenco/msgpack/v5.NewEncoder
func c05newEncoder__mpenc(w io.Writer) *msgpack.Encoder {
	c05newEncoding(w)
	return new(msgpack.Encoder)
}

//govc:model github.com/vmihailenco/msgpack/v5.GetEncoder
func c05getEncoder__mpenc() *msgpack.Encoder { return new(msgpack.Encoder) }

//govc:model github.com/vmihailenco/msgpack/v5.PutEncoder
func c05putEncoder__mpenc(*msgpack.Encoder) {}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).Reset
func c05resetEncoder__mpenc(e *msgpack.Encoder, w io.Writer) { c05newEncoding(w) }

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).SetCustomStructTag
func c05encoderTag__mpenc(e *msgpack.Encoder, tag string) { gvSet("e.tag", "", tag) }

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeArrayLen
func c05encodeArrayLen__mpenc(e *msgpack.Encoder, n int) error {
	c05put(c05Array, n, nil)
	gvSet("e.base", "", gvGet[int]("e.count", ""))
	gvSet("e.bkind", "", gvGet[int]("e.kind", ""))
	gvSet("e.blen", "", gvGet[int]("e.len", ""))
	gvSet("e.bval", "", gvGet[any]("e.val", ""))
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeMapLen
func c05encodeMapLen__mpenc(e *msgpack.Encoder, n int) error {
	c05put(c05Map, n, nil)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeMap|(*github.com/vmihailenco/msgpack/v5.Encoder).EncodeMapSorted
func c05encodeMap__mpenc(e *msgpack.Encoder, m map[string]interface{}) error {
	gvCheck("headers-are-a-map", m != nil)
	c05put(c05Map, len(m), nil)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeInt|(*github.com/vmihailenco/msgpack/v5.Encoder).EncodeInt64
func c05encodeInt__mpenc(e *msgpack.Encoder, n int64) error {
	c05put(c05Value, 0, int(n))
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeInt8
func c05encodeInt8__mpenc(e *msgpack.Encoder, n int8) error {
	c05put(c05Value, 0, int(n))
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeString
func c05encodeString__mpenc(e *msgpack.Encoder, s string) error {
	c05put(c05Value, 0, s)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeBool
func c05encodeBool__mpenc(e *msgpack.Encoder, b bool) error {
	c05put(c05Value, 0, b)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).EncodeNil
func c05encodeNil__mpenc(e *msgpack.Encoder) error {
	c05put(c05Value, 0, nil)
	return nil
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Encoder).Encode
func c05encode__mpenc(e *msgpack.Encoder, v interface{}) error {
	gvCheck("struct-fields-have-their-json-names", gvGet[string]("e.tag", "") == "json")
	if gvFork(2) == 1 {
		gvSet("e.cant", "", true)
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	c05put(c05Value, 0, v)
	return nil
}

//govc:inv
func inv_c05count__mpenc(i int) bool { return gvGet[int]("e.count", "") == gvGet[int]("e.base", "")+i }

//govc:inv
func inv_c05countTo__mpenc(i int) bool {
	return gvGet[int]("e.count", "") == gvGet[int]("e.base", "")+i+1
}

//govc:inv
func inv_c05before__mpenc() bool {
	same := gvAnd(gvGet[int]("e.kind", "") == gvGet[int]("e.bkind", ""), gvGet[int]("e.len", "") == gvGet[int]("e.blen", ""))
	same = gvAnd(same, gvSame(gvGet[any]("e.val", ""), gvGet[any]("e.bval", "")))
	return gvImp(gvGet[int]("e.k", "") < gvGet[int]("e.base", ""), same)
}

func c05within() (bool, int) {
	k, base := gvGet[int]("e.k", ""), gvGet[int]("e.base", "")
	return gvAnd(base <= k, k < gvGet[int]("e.count", "")), k - base
}

//govc:inv
func inv_c05values__mpenc(args []interface{}) bool {
	in, i := c05within()
	return gvImp(in, gvAnd(gvGet[int]("e.kind", "") == c05Value, gvSame(gvGet[any]("e.val", ""), c05norm(gvElem(args, i)))))
}

//govc:inv
func inv_c05strings__mpenc(ids []string) bool {
	in, i := c05within()
	return gvImp(in, gvAnd(gvGet[int]("e.kind", "") == c05Value, gvSame(gvGet[any]("e.val", ""), any(gvElem(ids, i)))))
}

//govc:inv
func inv_c05text__mpenc() bool {
	return gvBuf(gvGet[*bytes.Buffer]("e.buf", "")) == gvGet[string]("e.text", "")
}

//govc:inv
func inv_c05short__mpenc() bool { return len(gvGet[string]("e.text", "")) < 1<<31 }

//govc:inv
func inv_c05can__mpenc() bool { return gvNot(gvGet[bool]("e.cant", "")) }

func c05uvarint(x uint64) string {
	u := gvPure[string]("uv.enc", x)
	gvAssume(gvAnd(1 <= len(u), len(u) <= 10))
	gvAssume(gvImp(x < 1<<35, len(u) <= 5))
	return u
}

//govc:model encoding/binary.PutUvarint
func c05putUvarint__mpenc(p []byte, x uint64) int {
	u := c05uvarint(x)
	gvCheck("the-length-fits-its-bytes", len(u) <= len(p))
	gvSetBytes(p[:len(u)], u)
	return len(u)
}

//govc:model encoding/binary.AppendUvarint
func c05appendUvarint__mpenc(p []byte, x uint64) []byte {
	return []byte(string(p) + c05uvarint(x))
}

//govc:model (io.Writer).Write
func c05write__mpenc(w io.Writer, p []byte) (int, error) {
	gvCheck("the-message-goes-to-the-writer", gvSame(w, gvGet[io.Writer]("e.w", "")))
	gvSet("e.n", "", gvGet[int]("e.n", "")+1)
	gvSet("e.s", "", string(p))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("e.fail", "", err)
		return gvAny[int](), err
	}
	return len(p), nil
}

// c05tokens: token number k is kind, n, v; there are count of them
func c05tokens(label string, count int) {
	gvCheck("the-array-has-its-elements", gvGet[int]("e.count", "") == count)
	gvCover(label)
}

func c05isArray(k, at, n int) {
	gvCheck("arrays-have-their-lengths", gvImp(k == at, gvAnd(gvGet[int]("e.kind", "") == c05Array, gvGet[int]("e.len", "") == n)))
}

func c05isHeader(k, at int) {
	gvCheck("headers-are-in-their-place", gvImp(k == at, gvAnd(gvGet[int]("e.kind", "") == c05Map, gvGet[int]("e.len", "") == 0)))
}

func c05isValue(what string, k, at int, v any) {
	gvCheck(what, gvImp(k == at, gvAnd(gvGet[int]("e.kind", "") == c05Value, gvSame(gvGet[any]("e.val", ""), c05norm(v)))))
}

//govc:task C05 every-message-is-written-at-once-as-its-array mode=mpenc panics
func c05Write() {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &messagePackHubProtocol{}
	p.dbg = dbg
	w := gvAny[io.Writer]()
	gvAssume(w != nil)
	k := gvRigid[int]()
	gvAssume(k >= 0)
	gvSet("cut.off", "", true)
	gvSet("e.k", "", k)
	gvSet("e.n", "", 0)
	gvSet("e.count", "", 0)
	gvSet("e.cant", "", false)
	gvSet("e.w", "", w)
	gvSet[error]("e.fail", "", nil)
	var m any
	kind := gvFork(7)
	switch kind {
	case 0:
		m = hubMessage{Type: 6}
	case 1:
		m = gvAny[invocationMessage]()
	case 2:
		m = gvAny[streamItemMessage]()
	case 3:
		m = gvAny[completionMessage]()
	case 4:
		m = gvAny[cancelInvocationMessage]()
	case 5:
		m = gvAny[closeMessage]()
	case 6:
		m = gvAny[any]()
		gvAssume(gvNot(gvOr(gvOr(gvIs[hubMessage](m), gvIs[invocationMessage](m)), gvOr(gvIs[streamItemMessage](m), gvIs[completionMessage](m)))))
		gvAssume(gvNot(gvOr(gvIs[cancelInvocationMessage](m), gvIs[closeMessage](m))))
	}
	err := p.WriteMessage(m, w)
	if gvOr(kind == 6, gvGet[bool]("e.cant", "")) {
		gvCheck("what-can-not-be-encoded-is-not-written", gvGet[int]("e.n", "") == 0)
		gvCheck("what-can-not-be-encoded-is-reported", err != nil)
		gvCover("not encoded")
		return
	}
	gvCheck("a-message-is-one-write", gvGet[int]("e.n", "") == 1)
	fail := gvGet[error]("e.fail", "")
	gvCheck("a-failed-write-is-reported", gvIff(err != nil, fail != nil))
	text := gvGet[string]("e.text", "")
	gvCheck("a-length-and-its-bytes-are-written", gvGet[string]("e.s", "") == c05uvarint(uint64(len(text)))+text)
	switch m := m.(type) {
	case hubMessage:
		c05isArray(k, 0, 1)
		c05isValue("the-type-is-written", k, 1, 6)
		c05tokens("ping", 2)
	case invocationMessage:
		c05isArray(k, 0, 6)
		c05isValue("the-type-is-written", k, 1, m.Type)
		c05isHeader(k, 2)
		c05isValue("the-id-is-written", k, 3, gvIte[any](m.InvocationID == "", nil, m.InvocationID))
		c05isValue("the-target-is-written", k, 4, m.Target)
		na, ni := len(m.Arguments), len(m.StreamIds)
		c05isArray(k, 5, na)
		gvCheck("the-arguments-are-written", gvImp(gvAnd(6 <= k, k < 6+na), gvAnd(gvGet[int]("e.kind", "") == c05Value, gvSame(gvGet[any]("e.val", ""), c05norm(gvElem(m.Arguments, k-6))))))
		c05isArray(k, 6+na, ni)
		gvCheck("the-stream-ids-are-written", gvImp(gvAnd(7+na <= k, k < 7+na+ni), gvAnd(gvGet[int]("e.kind", "") == c05Value, gvSame(gvGet[any]("e.val", ""), any(gvElem(m.StreamIds, k-7-na))))))
		c05tokens("invocation", 7+na+ni)
	case streamItemMessage:
		c05isArray(k, 0, 4)
		c05isValue("the-type-is-written", k, 1, m.Type)
		c05isHeader(k, 2)
		c05isValue("the-id-is-written", k, 3, m.InvocationID)
		c05isValue("the-item-is-written", k, 4, m.Item)
		c05tokens("stream item", 5)
	case completionMessage:
		failed, void := m.Error != "", gvAnd(m.Error == "", m.Result == nil)
		c05isArray(k, 0, gvIte(void, 4, 5))
		c05isValue("the-type-is-written", k, 1, m.Type)
		c05isHeader(k, 2)
		c05isValue("the-id-is-written", k, 3, m.InvocationID)
		c05isValue("the-kind-of-the-result-is-written", k, 4, gvIte(failed, 1, gvIte(void, 2, 3)))
		if gvNot(void) {
			c05isValue("the-result-is-written", k, 5, gvIte[any](failed, m.Error, m.Result))
		}
		c05tokens("completion", gvIte(void, 5, 6))
	case cancelInvocationMessage:
		c05isArray(k, 0, 3)
		c05isValue("the-type-is-written", k, 1, m.Type)
		c05isHeader(k, 2)
		c05isValue("the-id-is-written", k, 3, m.InvocationID)
		c05tokens("cancel", 4)
	case closeMessage:
		c05isArray(k, 0, 3)
		c05isValue("the-type-is-written", k, 1, m.Type)
		gvCheck("the-error-is-written", gvImp(k == 2, gvAnd(gvGet[int]("e.kind", "") == c05Value, gvOr(gvSame(gvGet[any]("e.val", ""), any(m.Error)), gvAnd(m.Error == "", gvGet[any]("e.val", "") == nil)))))
		c05isValue("whether-to-reconnect-is-written", k, 3, m.AllowReconnect)
		c05tokens("close", 4)
	}
}

// Arguments.
//
// Ghost state: a.raw is the text of the argument and a.dst its destination, a.n counts the decodings, a.err is how the
// last one ended, a.text is what the decoder was reset to, a.tag its struct tag.

//govc:model github.com/vmihailenco/msgpack/v5.NewDecoder
func c05newDecoder__mparg(r io.Reader) *msgpack.Decoder {
	d := new(msgpack.Decoder)
	c05resetDecoder__mparg(d, r)
	return d
}

//govc:model github.com/vmihailenco/msgpack/v5.GetDecoder
func c05getDecoder__mparg() *msgpack.Decoder {
	d := new(msgpack.Decoder)
	gvSet("a.is", "", false)
	return d
}

//govc:model github.com/vmihailenco/msgpack/v5.PutDecoder
func c05putDecoder__mparg(*msgpack.Decoder) { gvSet("a.put", "", true) }

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).Reset
func c05resetDecoder__mparg(d *msgpack.Decoder, r io.Reader) {
	text := gvGet[string]("a.raw", "")
	switch r := r.(type) {
	case *bytes.Buffer:
		gvSet("a.is", "", gvBuf(r) == text)
	case *bytes.Reader:
		gvSet("a.is", "", gvGet[string]("a.reader", r) == text)
	default:
		gvSet("a.is", "", false)
	}
	gvSet("a.tag", "", "")
}

//govc:model bytes.NewReader
func c05newReader__mparg(p []byte) *bytes.Reader {
	r := new(bytes.Reader)
	gvSet("a.reader", r, string(p))
	return r
}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).SetMapDecoder
func c05argMaps__mparg(d *msgpack.Decoder, f func(*msgpack.Decoder) (interface{}, error)) {}

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).SetCustomStructTag
func c05argTag__mparg(d *msgpack.Decoder, tag string) { gvSet("a.tag", "", tag) }

//govc:model (*github.com/vmihailenco/msgpack/v5.Decoder).Decode
func c05argDecode__mparg(d *msgpack.Decoder, v interface{}) error {
	gvCheck("the-argument-is-decoded-to-its-destination", gvSame(v, gvGet[any]("a.dst", "")))
	gvCheck("the-argument-is-decoded", gvGet[bool]("a.is", ""))
	gvCheck("struct-fields-have-their-json-names", gvGet[string]("a.tag", "") == "json")
	gvCheck("a-decoder-is-used-before-it-is-given-back", gvNot(gvGet[bool]("a.put", "")))
	gvSet("a.n", "", gvGet[int]("a.n", "")+1)
	if gvFork(2) == 1 {
		// a key of a map which can not be one
		gvSet("a.panicked", "", true)
		x := gvAny[error]()
		gvAssume(x != nil)
		panic(x)
	}
	err := gvAny[error]()
	gvSet("a.err", "", err)
	return err
}

//govc:task C05 arguments-are-decoded-from-their-raw-value mode=mparg
func c05Argument() {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &messagePackHubProtocol{}
	p.dbg = dbg
	src, dst := gvAny[any](), gvAny[any]()
	raw := gvAs[msgpack.RawMessage](src)
	gvSet("a.raw", "", string(raw))
	gvSet("a.dst", "", dst)
	gvSet("a.n", "", 0)
	gvSet("a.put", "", false)
	gvSet("a.panicked", "", false)
	err := p.UnmarshalArgument(src, dst)
	if gvNot(gvIs[msgpack.RawMessage](src)) {
		gvCheck("other-sources-are-refused", gvAnd(err != nil, gvGet[int]("a.n", "") == 0))
		gvCover("refused")
		return
	}
	gvCheck("the-argument-is-decoded-once", gvGet[int]("a.n", "") == 1)
	if gvGet[bool]("a.panicked", "") {
		gvCheck("malformed-arguments-are-reported", err != nil)
		gvCover("panicked")
		return
	}
	gvCheck("malformed-arguments-are-reported", gvIff(err != nil, gvGet[error]("a.err", "") != nil))
	gvCover("decoded")
}
