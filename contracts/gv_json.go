package signalr

import (
	"encoding/json"
)

// Contracts of encoding/json (assumed): decoding an object is a function of its text for each field, fields which are
// missing keep their value; encoding is a function of the value and never contains a record separator.

func gvJSONHas(s, tag string) bool { return gvPure[bool]("json.has", s, tag) }

// gvJSONBad tells that s can not be decoded to a value of the type of dst
func gvJSONBad(s string, dst any) bool { return gvPure[bool]("json.bad", s, gvTypeName(dst)) }

//govc:model encoding/json.Unmarshal
func gvJSONUnmarshal(data []byte, v any) error {
	s := string(data)
	if gvJSONBad(s, v) {
		gvJSONDecode(s, v, false)
		err := gvAny[error]()
		gvAssume(err != nil)
		return err
	}
	gvJSONDecode(s, v, true)
	return nil
}

//govc:model encoding/json.Marshal
func gvJSONMarshal(v any) ([]byte, error) {
	if gvPure[bool]("json.cant", v) {
		err := gvAny[error]()
		gvAssume(err != nil)
		return nil, err
	}
	s := gvPure[string]("json.enc", v)
	gvAssume(gvNot(gvContains(s, gvChar(0x1e))))
	gvAssume(len(s) > 0)
	return []byte(s), nil
}

// gvJSONStr and gvJSONInt are the values of a field, zero if it is missing
func gvJSONStr(s, tag string) string {
	return gvIte(gvJSONHas(s, tag), gvJSON[string](s, tag), "")
}

func gvJSONInt(s, tag string) int { return gvIte(gvJSONHas(s, tag), gvJSON[int](s, tag), 0) }

func gvJSONBool(s, tag string) bool { return gvAnd(gvJSONHas(s, tag), gvJSON[bool](s, tag)) }

// gvJSONMessageOK: the record s can be decoded to the message of its type
func gvJSONMessageOK(s string) bool {
	t := gvJSONInt(s, "type")
	ok := gvNot(gvJSONBad(s, (*hubMessage)(nil)))
	ok = gvAnd(ok, gvImp(gvOr(t == 1, t == 4), gvNot(gvJSONBad(s, (*jsonInvocationMessage)(nil)))))
	ok = gvAnd(ok, gvImp(t == 2, gvNot(gvJSONBad(s, (*jsonStreamItemMessage)(nil)))))
	ok = gvAnd(ok, gvImp(t == 3, gvNot(gvJSONBad(s, (*jsonCompletionMessage)(nil)))))
	ok = gvAnd(ok, gvImp(t == 5, gvNot(gvJSONBad(s, (*cancelInvocationMessage)(nil)))))
	return gvAnd(ok, gvImp(t == 7, gvNot(gvJSONBad(s, (*closeMessage)(nil)))))
}

// gvJSONMessage: m is the message the record s stands for; k is an arbitrary index of arguments and stream ids
func gvJSONMessage(m any, s string, k int) bool {
	t := gvJSONInt(s, "type")
	ok := gvImp(gvOr(t == 1, t == 4), gvAnd(gvIs[invocationMessage](m), gvJSONInvocation(gvAs[invocationMessage](m), s, k)))
	si := gvAs[streamItemMessage](m)
	ok = gvAnd(ok, gvImp(t == 2, gvAnd(gvIs[streamItemMessage](m), gvAnd(gvAnd(si.Type == t, si.InvocationID == gvJSONStr(s, "invocationId")), gvJSONRaw(si.Item, s, "item")))))
	c := gvAs[completionMessage](m)
	ok = gvAnd(ok, gvImp(t == 3, gvAnd(gvIs[completionMessage](m), gvAnd(gvAnd(c.Type == t, c.InvocationID == gvJSONStr(s, "invocationId")),
		gvAnd(c.Error == gvJSONStr(s, "error"), gvIte(gvJSONHas(s, "result"), gvJSONRaw(c.Result, s, "result"), c.Result == nil))))))
	ca := gvAs[cancelInvocationMessage](m)
	ok = gvAnd(ok, gvImp(t == 5, gvAnd(gvIs[cancelInvocationMessage](m), gvAnd(ca.Type == t, ca.InvocationID == gvJSONStr(s, "invocationId")))))
	cl := gvAs[closeMessage](m)
	ok = gvAnd(ok, gvImp(t == 7, gvAnd(gvIs[closeMessage](m), gvAnd(cl.Type == t, gvAnd(cl.Error == gvJSONStr(s, "error"), gvIff(cl.AllowReconnect, gvJSONBool(s, "allowReconnect")))))))
	known := gvOr(gvOr(gvOr(t == 1, t == 4), gvOr(t == 2, t == 3)), gvOr(t == 5, t == 7))
	return gvAnd(ok, gvImp(gvNot(known), gvAnd(gvIs[hubMessage](m), gvAs[hubMessage](m).Type == t)))
}

func gvJSONInvocation(m invocationMessage, s string, k int) bool {
	args := gvJSON[[]json.RawMessage](s, "arguments")
	ids := gvJSON[[]string](s, "streamIds")
	n := gvIte(gvJSONHas(s, "arguments"), len(args), 0)
	ok := gvAnd(gvAnd(m.Type == gvJSONInt(s, "type"), m.Target == gvJSONStr(s, "target")), m.InvocationID == gvJSONStr(s, "invocationId"))
	arg := gvElem(m.Arguments, k)
	ok = gvAnd(ok, gvAnd(len(m.Arguments) == n, gvImp(gvAnd(0 <= k, k < n), gvAnd(gvIs[json.RawMessage](arg), string(gvAs[json.RawMessage](arg)) == string(gvElem(args, k))))))
	ni := gvIte(gvJSONHas(s, "streamIds"), len(ids), 0)
	return gvAnd(ok, gvAnd(len(m.StreamIds) == ni, gvImp(gvAnd(0 <= k, k < ni), gvElem(m.StreamIds, k) == gvElem(ids, k))))
}

// gvJSONRaw: x is the raw text of a field of s
func gvJSONRaw(x any, s, tag string) bool {
	r := gvAs[json.RawMessage](x)
	return gvAnd(gvIs[json.RawMessage](x), string(r) == gvIte(gvJSONHas(s, tag), string(gvJSON[json.RawMessage](s, tag)), ""))
}

// gvJSONText is the raw text of argument number k, of the item or of the result of m
func gvJSONText(m any, k int) string {
	args := gvAs[invocationMessage](m).Arguments
	t := gvIte(gvAnd(gvIs[invocationMessage](m), gvAnd(0 <= k, k < len(args))), string(gvAs[json.RawMessage](gvElem(args, k))), "")
	t = gvIte(gvIs[streamItemMessage](m), string(gvAs[json.RawMessage](gvAs[streamItemMessage](m).Item)), t)
	return gvIte(gvIs[completionMessage](m), string(gvAs[json.RawMessage](gvAs[completionMessage](m).Result)), t)
}
