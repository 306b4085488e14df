package signalr

import (
	"encoding/json"
	"io"

	"github.com/go-kit/log"
)

// C04: the JSON form of the hub messages. That the messages of ParseMessages are those their records stand for is proved
// by the task of C01 which decodes record number k, here it is used for every record and every index of its arguments.
//
// Ghost state: e.n counts the writes, e.s is the text written last, e.enc the text made by encoding/json, e.cant tells
// that the message could not be encoded, e.i is an arbitrary index of arguments and stream ids.

//govc:model encoding/json.Marshal
func c04marshal__encode(v any) ([]byte, error) {
	gvSet("e.marshalled", "", true)
	b, err := gvJSONMarshal(v)
	if err != nil {
		gvSet("e.cant", "", true)
		return nil, err
	}
	gvSet("e.enc", "", string(b))
	gvJSONEncode(string(b), v, gvGet[int]("e.i", ""))
	return b, nil
}

//govc:model (io.Writer).Write
func c04write__encode(w io.Writer, p []byte) (int, error) {
	gvCheck("the-message-goes-to-the-writer", gvSame(w, gvGet[io.Writer]("e.w", "")))
	gvSet("e.n", "", gvGet[int]("e.n", "")+1)
	gvSet("e.s", "", string(p))
	if gvFork(2) == 1 {
		err := gvAny[error]()
		gvAssume(err != nil)
		gvSet("e.fail", "", err)
		return gvAny[int](), err
	}
	return len(p), nil
}

// c04is: s is the object with the values of m
func c04is(s string, m any, i int) {
	has := func(tag string) bool { return gvJSONHas(s, tag) }
	str := func(tag, v string) bool { return gvAnd(has(tag), gvJSON[string](s, tag) == v) }
	switch m := m.(type) {
	case hubMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(gvOr(has("target"), has("invocationId")), gvOr(has("error"), has("result")))))
		gvCover("ping")
	case invocationMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("target-and-id-are-written", gvAnd(str("target", m.Target), gvIte(m.InvocationID == "", gvNot(has("invocationId")), str("invocationId", m.InvocationID))))
		args, ids := gvJSON[[]interface{}](s, "arguments"), gvJSON[[]string](s, "streamIds")
		gvCheck("arguments-are-written", gvAnd(gvAnd(has("arguments"), len(args) == len(m.Arguments)), gvImp(gvAnd(0 <= i, i < len(args)), gvSame(gvElem(args, i), gvElem(m.Arguments, i)))))
		gvCheck("stream-ids-are-written", gvIte(len(m.StreamIds) == 0, gvNot(has("streamIds")), gvAnd(gvAnd(has("streamIds"), len(ids) == len(m.StreamIds)), gvImp(gvAnd(0 <= i, i < len(ids)), gvElem(ids, i) == gvElem(m.StreamIds, i)))))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(has("item"), gvOr(has("error"), has("result")))))
		gvCover("invocation")
	case streamItemMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("the-id-is-written", str("invocationId", m.InvocationID))
		gvCheck("the-item-is-written", gvAnd(has("item"), gvSame(gvJSON[interface{}](s, "item"), m.Item)))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(has("target"), gvOr(has("error"), has("result")))))
		gvCover("stream item")
	case completionMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("the-id-is-written", str("invocationId", m.InvocationID))
		gvCheck("the-error-is-written", gvIte(m.Error == "", gvNot(has("error")), str("error", m.Error)))
		gvCheck("the-result-is-written", gvIte(m.Result == nil, gvNot(has("result")), gvAnd(has("result"), gvSame(gvJSON[interface{}](s, "result"), m.Result))))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(has("target"), has("item"))))
		gvCover("completion")
	case cancelInvocationMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("the-id-is-written", str("invocationId", m.InvocationID))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(has("target"), gvOr(has("error"), has("result")))))
		gvCover("cancel")
	case closeMessage:
		gvCheck("the-type-is-written", gvAnd(has("type"), gvJSON[int](s, "type") == m.Type))
		gvCheck("the-error-is-written", gvIte(m.Error == "", gvOr(gvNot(has("error")), gvJSON[string](s, "error") == ""), str("error", m.Error)))
		gvCheck("whether-to-reconnect-is-written", gvIte(m.AllowReconnect, gvAnd(has("allowReconnect"), gvJSON[bool](s, "allowReconnect")), gvOr(gvNot(has("allowReconnect")), gvNot(gvJSON[bool](s, "allowReconnect")))))
		gvCheck("only-the-fields-of-the-message-are-written", gvNot(gvOr(has("target"), gvOr(has("invocationId"), has("result")))))
		gvCover("close")
	}
}

//govc:task C04 every-message-is-written-at-once-as-its-json-object mode=encode panics
func c04Write() {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &jsonHubProtocol{}
	p.dbg = dbg
	w := gvAny[io.Writer]()
	gvAssume(w != nil)
	i := gvRigid[int]()
	gvSet("e.i", "", i)
	gvSet("e.n", "", 0)
	gvSet("e.cant", "", false)
	gvSet("e.w", "", w)
	gvSet[error]("e.fail", "", nil)
	var m any
	switch gvFork(6) {
	case 0:
		m = gvAny[hubMessage]()
	case 1:
		m = gvAny[invocationMessage]()
	case 2:
		m = gvAny[streamItemMessage]()
	case 3:
		m = gvAny[completionMessage]()
	case 4:
		m = gvAny[cancelInvocationMessage]()
	case 5:
		m = gvAny[closeMessage]()
	}
	err := p.WriteMessage(m, w)
	if gvGet[bool]("e.cant", "") {
		gvCheck("what-can-not-be-encoded-is-not-written", gvGet[int]("e.n", "") == 0)
		gvCheck("what-can-not-be-encoded-is-reported", err != nil)
		gvCover("not encoded")
		return
	}
	gvCheck("a-message-is-one-write", gvGet[int]("e.n", "") == 1)
	fail := gvGet[error]("e.fail", "")
	gvCheck("a-failed-write-is-reported", gvIff(err != nil, fail != nil))
	enc := gvGet[string]("e.enc", "")
	gvCheck("an-object-and-its-terminator-are-written", gvGet[string]("e.s", "") == enc+gvChar(0x1e))
	gvCheck("only-the-last-byte-is-a-terminator", gvNot(gvContains(enc, gvChar(0x1e))))
	c04is(enc, m, i)
}

//govc:task C04 message-number-k-is-made-of-record-number-k mode=decode panics
func c04Decode() { c01Decode() }

//govc:model encoding/json.Unmarshal
func c04unmarshal__argument(data []byte, v any) error {
	gvCheck("the-argument-is-decoded-to-its-destination", gvAnd(string(data) == gvGet[string]("a.raw", ""), gvSame(v, gvGet[any]("a.dst", ""))))
	gvSet("a.n", "", gvGet[int]("a.n", "")+1)
	err := gvAny[error]()
	gvSet("a.err", "", err)
	return err
}

//govc:task C04 arguments-are-decoded-from-their-raw-text mode=argument
func c04Argument() {
	dbg := gvAny[log.Logger]()
	gvAssume(dbg != nil)
	p := &jsonHubProtocol{}
	p.dbg = dbg
	src, dst := gvAny[any](), gvAny[any]()
	raw := gvAs[json.RawMessage](src)
	gvSet("a.raw", "", string(raw))
	gvSet("a.dst", "", dst)
	gvSet("a.n", "", 0)
	err := p.UnmarshalArgument(src, dst)
	if gvNot(gvIs[json.RawMessage](src)) {
		gvCheck("other-sources-are-refused", gvAnd(err != nil, gvGet[int]("a.n", "") == 0))
		gvCover("refused")
		return
	}
	gvCheck("the-argument-is-decoded-once", gvGet[int]("a.n", "") == 1)
	gvCheck("malformed-arguments-are-reported", gvIff(err != nil, gvGet[error]("a.err", "") != nil))
	gvCover("decoded")
}
