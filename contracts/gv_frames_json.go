package signalr

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"

	"github.com/go-kit/log"
)

// C01, C03: JSON records are recovered exactly.
//
// Ghost state: j.in are all bytes: what was left over by the call before, then what was read. j.out are the records
// taken from it so far, each with its terminator, j.n their number, j.k the record with the arbitrary number K.

//govc:model (io.Reader).Read
func c01read__frames(r io.Reader, p []byte) (int, error) {
	s := gvAny[string]()
	n := len(s)
	gvAssume(n <= len(p))
	gvSetBytes(p, s)
	gvSet("j.in", "", gvGet[string]("j.in", "")+s)
	switch gvFork(3) {
	case 0:
		return n, nil
	case 1:
		return n, io.EOF
	}
	err := gvAny[error]()
	gvAssume(err != nil)
	gvAssume(gvNot(errors.Is(err, io.EOF)))
	gvSet("j.failed", "", true)
	return n, err
}

//govc:hook onappend []byte
func on_c01append__frames(frames [][]byte, frame []byte) {
	s := string(frame)
	max := gvGet[int]("j.max", "")
	gvCheck("a-record-ends-at-its-terminator", gvNot(gvContains(s, gvChar(0x1e))))
	gvCheck("oversized-records-are-never-delivered", gvOr(max == 0, len(s) <= max))
	if gvGet[int]("j.n", "") == gvGet[int]("j.K", "") {
		gvSet("j.k", "", s)
	}
	gvSet("j.n", "", gvGet[int]("j.n", "")+1)
	gvSet("j.out", "", gvGet[string]("j.out", "")+s+gvChar(0x1e))
}

//govc:inv
func inv_c01bytes__frames(b *bytes.Buffer) bool {
	return gvGet[string]("j.out", "")+gvBuf(b) == gvGet[string]("j.in", "")
}

//govc:inv
func inv_c01none__frames() bool {
	return gvImp(gvGet[int]("j.n", "") == 0, gvGet[string]("j.out", "") == "")
}

//govc:inv
func inv_c01count__frames(frames [][]byte) bool { return len(frames) == gvGet[int]("j.n", "") }

//govc:inv
func inv_c01frame__frames(frames [][]byte) bool {
	K := gvGet[int]("j.K", "")
	return gvImp(K < len(frames), gvAnd(string(gvElem(frames, K)) == gvGet[string]("j.k", ""), gvNot(gvOwned(gvElem(frames, K)))))
}

// every record becomes a ping in this task, so that it is about the records only
//
//govc:model encoding/json.Unmarshal
func c01unmarshal__frames(data []byte, v any) error {
	d := gvGet[int]("j.decoded", "")
	gvCheck("records-are-decoded-as-they-were-read", gvImp(d == gvGet[int]("j.K", ""), string(data) == gvGet[string]("j.k", "")))
	gvSet("j.decoded", "", d+1)
	return nil
}

//govc:inv
func inv_c01decodes__frames(messages []interface{}) bool {
	return len(messages) == gvGet[int]("j.decoded", "")
}

//govc:inv
func inv_c01messages__frames(messages []interface{}, i int) bool { return len(messages) == i }

//govc:inv
func inv_c01messagesTo__frames(messages []interface{}, i int) bool { return len(messages) == i+1 }

//govc:task C01 every-record-is-delivered-once-in-order mode=frames panics
func c01Parse() {
	max := gvAny[uint]()
	gvAssume(max < 1<<31)
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &jsonHubProtocol{}
	p.setMaxReceiveMessageSize(max)
	p.dbg = dbg
	K := gvRigid[int]()
	gvAssume(0 <= K)
	reader := gvAny[io.Reader]()
	gvAssume(reader != nil)
	gvAssume(gvNot(gvIs[*bytes.Buffer](reader)))
	rest := gvAny[string]()
	buf := &bytes.Buffer{}
	gvSet("buf", buf, rest)
	gvSet("j.max", "", int(max))
	gvSet("cut.off", "", false)
	gvSet("j.K", "", K)
	gvSet("j.in", "", rest)
	gvSet("j.out", "", "")
	gvSet("j.n", "", 0)
	gvSet("j.decoded", "", 0)
	gvSet("j.failed", "", false)
	messages, err := p.ParseMessages(reader, buf)
	in, out, n := gvGet[string]("j.in", ""), gvGet[string]("j.out", ""), gvGet[int]("j.n", "")
	if gvGet[bool]("j.failed", "") && err != nil {
		gvCheck("nothing-is-delivered-when-the-connection-failed", len(messages) == 0)
		gvCover("connection failed")
		return
	}
	if err == nil {
		left := gvBuf(buf)
		gvCheck("no-byte-is-lost-or-changed", out+left == in)
		gvCheck("every-record-is-delivered", len(messages) == n)
		gvCheck("no-complete-record-is-held-back", gvOr(gvNot(gvContains(left, gvChar(0x1e))), gvAnd(max > 0, gvIndex(left, gvChar(0x1e)) > int(max))))
		gvCover("delivered")
		return
	}
	head := gvSubstr(in, 0, int(max)+1)
	gvCheck("messages-before-an-oversized-record-are-delivered", n == 0)
	gvCheck("only-oversized-records-are-refused", gvAnd(gvAnd(max > 0, len(head) == int(max)+1), gvNot(gvContains(head, gvChar(0x1e)))))
	gvCover("oversized")
}

//govc:model readJSONFrames
func c01readFrames__decode(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("j.failed", "", true)
		return nil, err
	}
	frames := gvAny[[][]byte]()
	gvSet("j.frames", "", frames)
	gvSet("j.n", "", len(frames))
	gvSet("j.k", "", string(gvElem(frames, gvGet[int]("j.K", ""))))
	return frames, nil
}

// a message is checked when it is put to the others, after that it does not change
//
//govc:hook onappend iface
func on_c01message__decode(messages []interface{}, m interface{}) {
	if gvIs[json.RawMessage](m) {
		return
	}
	K, I, n := gvGet[int]("j.K", ""), gvGet[int]("j.i", ""), gvGet[int]("j.appended", "")
	if n == K {
		s := gvGet[string]("j.k", "")
		gvCheck("only-valid-records-become-messages", gvJSONMessageOK(s))
		gvCheck("one-message-per-record-in-order", gvJSONMessage(m, s, I))
		gvSet("j.msg", "", m)
		gvSet("j.text", "", gvJSONText(m, I))
	}
	gvSet("j.appended", "", n+1)
}

//govc:inv
func inv_c01appended__decode(messages []interface{}) bool {
	return len(messages) == gvGet[int]("j.appended", "")
}

//govc:inv
func inv_c01message__decode(messages []interface{}) bool {
	K := gvGet[int]("j.K", "")
	return gvImp(K < len(messages), gvSame(gvElem(messages, K), gvGet[any]("j.msg", "")))
}

//govc:inv
func inv_c01apart__decode(messages []interface{}) bool {
	m := gvGet[any]("j.msg", "")
	return gvImp(gvAnd(gvGet[int]("j.K", "") < gvGet[int]("j.appended", ""), gvIs[invocationMessage](m)), gvApart(gvAs[invocationMessage](m).Arguments, messages))
}

//govc:inv
func inv_c01text__decode() bool {
	K, I := gvGet[int]("j.K", ""), gvGet[int]("j.i", "")
	return gvImp(K < gvGet[int]("j.appended", ""), gvJSONText(gvGet[any]("j.msg", ""), I) == gvGet[string]("j.text", ""))
}

//govc:inv
func inv_c01args__decode(dst []interface{}, src []json.RawMessage, i int) bool {
	k := gvGet[int]("j.i", "")
	return gvImp(k < i, gvAnd(gvIs[json.RawMessage](gvElem(dst, k)), string(gvAs[json.RawMessage](gvElem(dst, k))) == string(gvElem(src, k))))
}

//govc:inv
func inv_c01argsTo__decode(dst []interface{}, src []json.RawMessage, i int) bool {
	k := gvGet[int]("j.i", "")
	return gvImp(k <= i, gvAnd(gvIs[json.RawMessage](gvElem(dst, k)), string(gvAs[json.RawMessage](gvElem(dst, k))) == string(gvElem(src, k))))
}

//govc:inv
func inv_c01argsLen__decode(dst []interface{}, i int) bool { return len(dst) == i }

//govc:inv
func inv_c01argsLenTo__decode(dst []interface{}, i int) bool { return len(dst) == i+1 }

//govc:task C01 message-number-k-is-made-of-record-number-k mode=decode panics
func c01Decode() {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &jsonHubProtocol{}
	p.dbg = dbg
	K, I := gvRigid[int](), gvRigid[int]()
	gvAssume(gvAnd(0 <= K, 0 <= I))
	gvSet("cut.off", "", false)
	gvSet("j.K", "", K)
	gvSet("j.i", "", I)
	gvSet("j.failed", "", false)
	gvSet("j.appended", "", 0)
	messages, err := p.ParseMessages(gvAny[io.Reader](), &bytes.Buffer{})
	n := gvGet[int]("j.n", "")
	if gvGet[bool]("j.failed", "") {
		gvCheck("a-failed-read-is-reported", gvAnd(err != nil, len(messages) == 0))
		gvCover("failed")
		return
	}
	gvCheck("one-message-per-record-in-order", gvAnd(len(messages) == gvGet[int]("j.appended", ""), gvImp(K < len(messages), gvSame(gvElem(messages, K), gvGet[any]("j.msg", "")))))
	gvCheck("messages-do-not-change", gvImp(K < len(messages), gvJSONText(gvElem(messages, K), I) == gvGet[string]("j.text", "")))
	if err == nil {
		gvCheck("every-record-is-delivered", len(messages) == n)
		gvCover("delivered")
		return
	}
	gvCheck("the-messages-before-an-invalid-record-are-delivered", gvAnd(len(messages) < n, gvImp(K == len(messages), gvNot(gvJSONMessageOK(gvGet[string]("j.k", ""))))))
	gvCover("invalid")
}

//govc:task C03 json-messages-are-refused-only-for-their-size mode=frames panics
func c03JSON() { c01Parse() }
