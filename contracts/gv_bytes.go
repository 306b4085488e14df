package signalr

import (
	"bytes"
	"io"
	"strings"
)

// Contracts of bytes.Buffer and package bytes (assumed).
//
// Ghost state: buf(b) are the unread bytes of b. Next and Bytes lend the memory of the buffer: what was lent before
// is arbitrary after the buffer was changed.

func gvBuf(b *bytes.Buffer) string { return gvGet[string]("buf", b) }

// gvBufChange is called when b gets other contents
func gvBufChange(b *bytes.Buffer, s string) {
	pre := gvAny[string]()
	gvSet("buf", b, s)
	gvSet("bufpre", b, pre)
	gvSetLent(b, pre+s)
}

// gvBufLend is the memory of the bytes x, which are the first ones of b
func gvBufLend(b *bytes.Buffer, x, rest string) []byte {
	pre := gvGet[string]("bufpre", b)
	gvSetLent(b, pre+x+rest)
	return gvLent(b, len(pre), len(x))
}

// gvTake splits s after n bytes
func gvTake(s string, n int) (x, y string) {
	if !gvGet[bool]("cut.off", "") && gvGet[bool]("cut", s) {
		c := gvGet[byte]("cutat", s)
		switch x, y := gvCut(s, c); n {
		case len(x):
			return x, gvChar(c) + y
		case len(x) + 1:
			return x + gvChar(c), y
		}
	}
	x, y = gvPure[string]("take", s, n), gvPure[string]("drop", s, n)
	gvAssume(s == x+y)
	gvAssume(len(x) == n)
	return x, y
}

// gvBufSkip takes the bytes x, y is what comes after
func gvBufSkip(b *bytes.Buffer, x, y string) {
	gvSet("buf", b, y)
	gvSet("bufpre", b, gvGet[string]("bufpre", b)+x)
}

// gvCut cuts s at the first c: s == before + c + after
func gvCut(s string, c byte) (before, after string) {
	x, y := gvPure[string]("before", s, c), gvPure[string]("after", s, c)
	gvAssume(s == x+gvChar(c)+y)
	gvAssume(gvNot(gvContains(x, gvChar(c))))
	gvAssume(len(x) == gvIndex(s, gvChar(c)))
	return x, y
}

//govc:model bytes.NewBuffer|bytes.NewBufferString
func gvBytesNewBuffer(p []byte) *bytes.Buffer {
	b := new(bytes.Buffer)
	gvBufChange(b, string(p))
	return b
}

//govc:model (*bytes.Buffer).Write
func gvBufWrite(b *bytes.Buffer, p []byte) (int, error) {
	gvBufChange(b, gvBuf(b)+string(p))
	return len(p), nil
}

//govc:model (*bytes.Buffer).WriteString
func gvBufWriteString(b *bytes.Buffer, s string) (int, error) {
	gvBufChange(b, gvBuf(b)+s)
	return len(s), nil
}

//govc:model (*bytes.Buffer).WriteByte
func gvBufWriteByte(b *bytes.Buffer, c byte) error {
	gvBufChange(b, gvBuf(b)+gvChar(c))
	return nil
}

//govc:model (*bytes.Buffer).Read
func gvBufRead(b *bytes.Buffer, p []byte) (int, error) {
	n := len(gvBuf(b))
	if n == 0 {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	if n <= len(p) {
		gvSetBytes(p, gvBuf(b))
		gvBufSkip(b, gvBuf(b), "")
		return n, nil
	}
	x, y := gvTake(gvBuf(b), len(p))
	gvSetBytes(p, x)
	gvBufSkip(b, x, y)
	return len(p), nil
}

//govc:model (*bytes.Buffer).ReadByte
func gvBufReadByte(b *bytes.Buffer) (byte, error) {
	if len(gvBuf(b)) == 0 {
		return 0, io.EOF
	}
	x, y := gvTake(gvBuf(b), 1)
	gvBufSkip(b, x, y)
	return x[0], nil
}

//govc:model (*bytes.Buffer).ReadBytes
func gvBufReadBytes(b *bytes.Buffer, delim byte) ([]byte, error) {
	s := gvBuf(b)
	if !gvContains(s, gvChar(delim)) {
		gvBufSkip(b, s, "")
		return []byte(s), io.EOF
	}
	x, y := gvCut(s, delim)
	gvBufSkip(b, x+gvChar(delim), y)
	return []byte(x + gvChar(delim)), nil
}

//govc:model (*bytes.Buffer).ReadString
func gvBufReadString(b *bytes.Buffer, delim byte) (string, error) {
	p, err := gvBufReadBytes(b, delim)
	return string(p), err
}

//govc:model (*bytes.Buffer).ReadFrom
func gvBufReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	src, ok := r.(*bytes.Buffer)
	if !ok {
		s := gvPure[string]("alldata", r)
		gvBufChange(b, gvBuf(b)+s)
		var err error
		if gvFork(2) == 1 {
			err = gvAny[error]()
			gvAssume(err != nil)
		}
		return int64(len(s)), err
	}
	s := gvBuf(src)
	gvBufChange(src, "")
	gvBufChange(b, gvBuf(b)+s)
	return int64(len(s)), nil
}

//govc:model (*bytes.Buffer).WriteTo
func gvBufWriteTo(b *bytes.Buffer, w io.Writer) (int64, error) {
	s := gvBuf(b)
	if len(s) == 0 {
		return 0, nil
	}
	n, err := w.Write([]byte(s))
	gvAssume(gvAnd(0 <= n, n <= len(s)))
	if n == len(s) {
		gvBufSkip(b, s, "")
		return int64(n), err
	}
	x, y := gvTake(s, n)
	gvBufSkip(b, x, y)
	if err == nil {
		err = io.ErrShortWrite
	}
	return int64(n), err
}

//govc:model (*bytes.Buffer).Next
func gvBufNext(b *bytes.Buffer, n int) []byte {
	if len(gvBuf(b)) < n {
		return gvBufNextAll(b)
	}
	x, y := gvTake(gvBuf(b), n)
	p := gvBufLend(b, x, y)
	gvBufSkip(b, x, y)
	return p
}

func gvBufNextAll(b *bytes.Buffer) []byte {
	s := gvBuf(b)
	p := gvBufLend(b, s, "")
	gvBufSkip(b, s, "")
	return p
}

//govc:model (*bytes.Buffer).Bytes
func gvBufBytes(b *bytes.Buffer) []byte {
	s := gvBuf(b)
	gvAssume(len(s) < 1<<40)
	if len(s) == 0 {
		return nil
	}
	return gvBufLend(b, s, "")
}

//govc:model (*bytes.Buffer).Len
func gvBufLen(b *bytes.Buffer) int { return len(gvBuf(b)) }

//govc:model (*bytes.Buffer).String
func gvBufString(b *bytes.Buffer) string { return gvBuf(b) }

//govc:model (*bytes.Buffer).Reset
func gvBufReset(b *bytes.Buffer) { gvBufChange(b, "") }

//govc:model (*bytes.Buffer).Truncate
func gvBufTruncate(b *bytes.Buffer, n int) { gvBufChange(b, gvSubstr(gvBuf(b), 0, n)) }

//govc:model (*bytes.Buffer).Grow
func gvBufGrow(b *bytes.Buffer, n int) { gvBufChange(b, gvBuf(b)) }

//govc:model bytes.IndexByte
func gvBytesIndexByte(p []byte, c byte) int {
	s := string(p)
	if !gvContains(s, gvChar(c)) {
		return -1
	}
	x, _ := gvCut(s, c)
	gvSet("cut", s, true)
	gvSet("cutat", s, c)
	return len(x)
}

//govc:model bytes.Contains
func gvBytesContains(p, q []byte) bool { return gvContains(string(p), string(q)) }

//govc:model bytes.Equal
func gvBytesEqual(p, q []byte) bool { return string(p) == string(q) }

//govc:model bytes.HasPrefix
func gvBytesHasPrefix(p, q []byte) bool { return gvPrefix(string(p), string(q)) }

//govc:model bytes.TrimSuffix
func gvBytesTrimSuffix(p, q []byte) []byte {
	if n := len(p) - len(q); n >= 0 && string(p[n:]) == string(q) {
		return p[:n]
	}
	return p
}

//govc:model bytes.HasSuffix
func gvBytesHasSuffix(p, q []byte) bool {
	n := len(p) - len(q)
	return n >= 0 && string(p[n:]) == string(q)
}

// Uvarint reads the first bytes of p: their number and the value depend on them only.
//
//govc:model encoding/binary.Uvarint
func gvUvarint(p []byte) (uint64, int) {
	s := string(p)
	if len(s) == 0 {
		return 0, 0
	}
	l, v := gvPure[int]("uv.len", s), gvPure[uint64]("uv.val", s)
	gvAssume(gvAnd(-11 <= l, gvAnd(l <= 10, l <= len(s))))
	gvAssume(gvImp(l <= 0, v == 0))
	gvAssume(gvImp(l == 0, len(s) <= 10))
	gvAssume(gvImp(l < 0, len(s) >= 10))
	return v, l
}

//govc:model bytes.TrimPrefix
func gvBytesTrimPrefix(s, p []byte) []byte {
	if gvPrefix(string(s), string(p)) {
		return s[len(p):]
	}
	return s
}

// strings.Builder: its text so far

//govc:model (*strings.Builder).WriteString
func gvBuilderWriteString(b *strings.Builder, s string) (int, error) {
	gvSet("builder", b, gvGet[string]("builder", b)+s)
	return len(s), nil
}

//govc:model (*strings.Builder).Write
func gvBuilderWrite(b *strings.Builder, p []byte) (int, error) {
	return gvBuilderWriteString(b, string(p))
}

//govc:model (*strings.Builder).WriteByte
func gvBuilderWriteByte(b *strings.Builder, c byte) error {
	gvSet("builder", b, gvGet[string]("builder", b)+gvChar(c))
	return nil
}

//govc:model (*strings.Builder).String
func gvBuilderString(b *strings.Builder) string { return gvGet[string]("builder", b) }

//govc:model (*strings.Builder).Len
func gvBuilderLen(b *strings.Builder) int { return len(gvGet[string]("builder", b)) }

//govc:model (*strings.Builder).Grow
func gvBuilderGrow(b *strings.Builder, n int) {}
