package signalr

import (
	"bytes"
	"errors"
	"io"

	"github.com/go-kit/log"
)

// C02, C03: MessagePack frames are recovered exactly.
//
// Ghost state: m.rest are the bytes which belong to no delivered frame: what was left over by the call before and what
// was read, without the frames taken (and without empty frames); m.n is the number of frames taken, m.k the frame with the
// arbitrary number K.

//govc:model (io.Reader).Read
func c02read__msgpack(r io.Reader, p []byte) (int, error) {
	s := gvAny[string]()
	n := len(s)
	gvAssume(n <= len(p))
	gvSetBytes(p, s)
	gvSet("m.rest", "", gvGet[string]("m.rest", "")+s)
	gvSet("m.eof", "", false)
	switch gvFork(3) {
	case 0:
		return n, nil
	case 1:
		gvSet("m.eof", "", n == 0)
		return n, io.EOF
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvAssume(gvNot(errors.Is(err, io.EOF)))
	gvSet("m.failed", "", true)
	return n, err
}

// An empty frame at the beginning of the rest is no message.
//
//govc:model encoding/binary.Uvarint
func c02uvarint__msgpack(p []byte) (uint64, int) {
	v, l := gvUvarint(p)
	if l > 0 && v == 0 {
		if rest := gvGet[string]("m.rest", ""); string(p) == rest {
			_, rest = gvTake(rest, l)
			gvSet("m.rest", "", rest)
		}
	}
	return v, l
}

//govc:hook onappend []byte
func on_c02append__msgpack(frames [][]byte, frame []byte) {
	s := string(frame)
	max := gvGet[int]("m.max", "")
	rest := gvGet[string]("m.rest", "")
	v, l := gvUvarint([]byte(rest))
	gvCheck("a-frame-follows-its-length", gvAnd(l > 0, v == uint64(len(s))))
	gvCheck("oversized-frames-are-never-delivered", gvOr(max == 0, len(s) <= max))
	gvAssume(l > 0)
	gvAssume(v == uint64(len(s)))
	_, rest = gvTake(rest, l)
	gvCheck("a-frame-is-complete", len(s) <= len(rest))
	gvAssume(len(s) <= len(rest))
	want, rest := gvTake(rest, len(s))
	gvCheck("a-frame-has-the-announced-bytes", s == want)
	if gvGet[int]("m.n", "") == gvGet[int]("m.K", "") {
		gvSet("m.k", "", s)
	}
	gvSet("m.n", "", gvGet[int]("m.n", "")+1)
	gvSet("m.rest", "", rest)
}

//govc:inv
func inv_c02rest__msgpack(b *bytes.Buffer) bool { return gvBuf(b) == gvGet[string]("m.rest", "") }

//govc:inv
func inv_c02count__msgpack(frames [][]byte) bool { return len(frames) == gvGet[int]("m.n", "") }

//govc:inv
func inv_c02none__msgpack() bool { return gvGet[int]("m.n", "") == 0 }

//govc:inv
func inv_c02frame__msgpack(frames [][]byte) bool {
	K := gvGet[int]("m.K", "")
	return gvImp(K < len(frames), gvAnd(string(gvElem(frames, K)) == gvGet[string]("m.k", ""), gvNot(gvOwned(gvElem(frames, K)))))
}

// What a frame says is the subject of C05, here frame number i becomes gvInj("m.message", i) or is invalid.
//
//govc:model (*messagePackHubProtocol).parseMessage
func c02parse__msgpack(m *messagePackHubProtocol, b *bytes.Buffer) (interface{}, error) {
	d := gvGet[int]("m.decoded", "")
	gvCheck("frames-are-decoded-as-they-were-read", gvImp(d == gvGet[int]("m.K", ""), gvBuf(b) == gvGet[string]("m.k", "")))
	gvCheck("nothing-is-decoded-after-an-invalid-frame", gvGet[error]("m.err", "") == nil)
	gvSet("m.decoded", "", d+1)
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("m.err", "", err)
		return nil, err
	}
	return gvInj[any]("m.message", d), nil
}

//govc:inv
func inv_c02decodes__msgpack(messages []interface{}) bool {
	return len(messages) == gvGet[int]("m.decoded", "")
}

//govc:inv
func inv_c02valid__msgpack() bool { return gvGet[error]("m.err", "") == nil }

//govc:inv
func inv_c02messages__msgpack(messages []interface{}, i int) bool { return len(messages) == i }

//govc:inv
func inv_c02messagesTo__msgpack(messages []interface{}, i int) bool { return len(messages) == i+1 }

//govc:inv
func inv_c02order__msgpack(messages []interface{}) bool {
	K := gvGet[int]("m.K", "")
	return gvImp(K < len(messages), gvSame(gvElem(messages, K), gvInj[any]("m.message", K)))
}

//govc:task C02 every-frame-is-delivered-once-in-order mode=msgpack panics
func c02Parse() {
	max := gvAny[uint]()
	gvAssume(max < 1<<31)
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &messagePackHubProtocol{}
	p.setMaxReceiveMessageSize(max)
	p.dbg = dbg
	K := gvRigid[int]()
	gvAssume(0 <= K)
	reader := gvAny[io.Reader]()
	gvAssume(reader != nil)
	gvAssume(gvNot(gvIs[*bytes.Buffer](reader)))
	rest := gvAny[string]()
	buf := &bytes.Buffer{}
	gvSet("buf", buf, rest)
	gvSet("cut.off", "", true)
	gvSet("m.max", "", int(max))
	gvSet("m.K", "", K)
	gvSet("m.rest", "", rest)
	gvSet("m.n", "", 0)
	gvSet("m.decoded", "", 0)
	gvSet("m.failed", "", false)
	gvSet("m.eof", "", false)
	gvSet[error]("m.err", "", nil)
	messages, err := p.ParseMessages(reader, buf)
	n := gvGet[int]("m.n", "")
	left := gvBuf(buf)
	if gvGet[bool]("m.failed", "") && err != nil {
		gvCheck("nothing-is-delivered-when-the-connection-failed", len(messages) == 0)
		gvCover("connection failed")
		return
	}
	gvCheck("one-message-per-frame-in-order", gvImp(K < len(messages), gvSame(gvElem(messages, K), gvInj[any]("m.message", K))))
	v, l := gvUvarint([]byte(left))
	tooLong := gvAnd(max > 0, v > uint64(max))
	invalid := gvGet[error]("m.err", "")
	if err == nil || invalid != nil {
		gvCheck("no-byte-is-lost-or-changed", left == gvGet[string]("m.rest", ""))
		gvCheck("no-complete-frame-is-held-back", gvOr(gvOr(l <= 0, tooLong), uint64(len(left)-l) < v))
	}
	if err == nil {
		gvCheck("every-frame-is-delivered", gvAnd(len(messages) == n, invalid == nil))
		gvCheck("an-error-is-not-put-off-for-ever", gvImp(n == 0, gvAnd(l >= 0, gvNot(tooLong))))
		gvCheck("nothing-is-delivered-only-at-the-end-of-the-data", gvOr(n > 0, gvGet[bool]("m.eof", "")))
		gvCover("delivered")
		return
	}
	if invalid != nil {
		gvCheck("the-messages-before-an-invalid-frame-are-delivered", gvAnd(gvSame(err, invalid), gvAnd(len(messages) < n, len(messages) == gvGet[int]("m.decoded", "")-1)))
		gvCover("invalid")
		return
	}
	gvCheck("messages-before-an-oversized-frame-are-delivered", n == 0)
	gvCheck("only-oversized-frames-are-refused", gvOr(l < 0, gvAnd(l > 0, tooLong)))
	gvCover("oversized")
}

//govc:task C03 messagepack-messages-are-refused-only-for-their-size mode=msgpack panics
func c03MessagePack() { c02Parse() }
