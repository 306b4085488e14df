package signalr

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/vmihailenco/msgpack/v5"
)

// rpFrame is a MessagePack frame and the message it stands for.
func rpFrame(prefix int, v ...interface{}) []byte {
	b, err := msgpack.Marshal(v)
	if err != nil {
		panic(err)
	}
	return append(rpPrefix(len(b), prefix), b...)
}

// rpPrefix is the length with at least n bytes
func rpPrefix(l, n int) []byte {
	b := make([]byte, 10)
	b = b[:binary.PutUvarint(b, uint64(l))]
	for len(b) < n {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

type rpFrameMsg struct {
	frame []byte
	want  string
}

type m2 = map[string]interface{}

func rpFrames() []rpFrameMsg {
	type m = map[string]interface{}
	long := strings.Repeat("x", 40000)
	var r []rpFrameMsg
	add := func(want string, v ...interface{}) { r = append(r, rpFrameMsg{rpFrame(0, v...), want}) }
	add(`completion 3 "1" "" <nil>`, 3, m{}, "1", 2)
	add(`hub 6`, 6)
	add(`completion 3 "2" "no" <nil>`, 3, m{}, "2", 1, "no")
	add(`cancel 5 "3"`, 5, m{}, "3")
	for _, n := range []int{100, 118, 119, 120, 127, 128, 129, 16370, 16384, 40000} {
		x := long[:n]
		add(fmt.Sprintf(`completion 3 "l" %q <nil>`, x), 3, m{}, "l", 1, x)
	}
	add(`close 7 "" false`, 7, "", false)
	return r
}

func TestReplayC02(t *testing.T) {
	fs := rpFrames()
	pack := func() *messagePackHubProtocol {
		p := &messagePackHubProtocol{}
		p.setDebugLogger(rpLog())
		return p
	}
	// how the protocol understands the single frames
	for i := range fs {
		b := bytes.NewBuffer(append([]byte{}, fs[i].frame...))
		ms, err := pack().ParseMessages(&rpChunks{}, b)
		if err != nil || len(ms) != 1 || b.Len() != 0 {
			t.Errorf("frame %d: %d messages, %d bytes left, error %v", i, len(ms), b.Len(), err)
			return
		}
		if fs[i].want = rpMessage(ms[0]); !strings.HasPrefix(fs[i].want, rpFrames()[i].want[:4]) {
			t.Errorf("frame %d is %.60s", i, fs[i].want)
		}
	}
	var text []byte
	var want []string
	for _, f := range fs {
		text = append(text, f.frame...)
		want = append(want, f.want)
	}
	rpWithin(t, 100*time.Second, "parsing", func() {
		for _, size := range []int{1, 2, 3, 4, 5, 6, 7, 10, 11, 64, 127, 128, 129, 1000, 32767, 32768, 32769, 1 << 20} {
			for _, mode := range []string{"", "eof", "zero"} {
				got, _, err := rpReadAll(pack(), &rpChunks{chunks: rpCuts(string(text), size), eof: mode == "eof", zero: mode == "zero"})
				if !rpDiff(t, fmt.Sprintf("reads of %d bytes %s", size, mode), got, want) || !errors.Is(err, errRpEnd) {
					t.Errorf("reads of %d bytes %s: error %v", size, mode, err)
					return
				}
			}
		}
		// a frame with an item no version knows
		for _, extra := range []interface{}{1, "abc", []int{5, 6}, m2{"a": 1}} {
			s := string(rpFrame(0, 1, m2{}, "1", "f", []int{}, []string{}, extra)) + string(rpFrame(0, 5, m2{}, "1")) + string(rpFrame(0, 5, m2{}, "2"))
			got, _, _ := rpReadAll(pack(), &rpChunks{chunks: [][]byte{[]byte(s)}})
			if len(got) > 0 {
				got[0] = got[0][:6]
			}
			if !rpDiff(t, "additional item", got, []string{"invoca", `cancel 5 "1"`, `cancel 5 "2"`}) {
				return
			}
		}
		// each pair of frames, each cut, with an empty frame and prefixes which are longer than necessary
		for i, a := range fs {
			for j, b := range fs {
				if len(a.frame) > 400 || len(b.frame) > 400 {
					continue
				}
				for _, between := range []string{"", "\x00", "\x00\x00", "\x80\x00"} {
					s := string(a.frame) + between + string(b.frame)
					for c := 0; c < len(s); c++ {
						got, _, _ := rpReadAll(pack(), &rpChunks{chunks: [][]byte{[]byte(s[:c]), []byte(s[c:])}})
						if !rpDiff(t, fmt.Sprintf("frames %d,%q,%d cut at %d", i, between, j, c), got, []string{a.want, b.want}) {
							return
						}
					}
				}
			}
		}
		for n := 1; n <= 9; n++ {
			s := ""
			for i := 0; i < 3; i++ {
				s += string(rpFrame(n, 5, map[string]interface{}{}, "x"))
			}
			for _, size := range []int{1, 2, 3, 5, 1000} {
				got, _, _ := rpReadAll(pack(), &rpChunks{chunks: rpCuts(s, size)})
				if !rpDiff(t, fmt.Sprintf("length of %d bytes, reads of %d", n, size), got, []string{`cancel 5 "x"`, `cancel 5 "x"`, `cancel 5 "x"`}) {
					return
				}
			}
		}
		// many frames in one read, the last one incomplete
		for _, n := range []int{2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 3000} {
			s, w := "", []string{}
			for i := 0; i < n; i++ {
				s += string(rpFrame(0, 5, map[string]interface{}{}, fmt.Sprint(i)))
				w = append(w, fmt.Sprintf(`cancel 5 "%d"`, i))
			}
			for cut := 0; cut < 6; cut++ {
				tail := string(rpFrame(0, 5, map[string]interface{}{}, "tail"))
				chunks := [][]byte{[]byte(s + tail[:cut]), []byte(tail[cut:])}
				got, _, _ := rpReadAll(pack(), &rpChunks{chunks: chunks})
				if !rpDiff(t, fmt.Sprintf("%d frames at once and %d bytes", n, cut), got, append(w[:len(w):len(w)], `cancel 5 "tail"`)) {
					return
				}
			}
		}
		// nothing complete is held back
		for i, f := range fs {
			b := &bytes.Buffer{}
			p := pack()
			ms, err := p.ParseMessages(&rpChunks{chunks: [][]byte{append(append([]byte{}, f.frame...), fs[0].frame[:2]...)}}, b)
			if len(f.frame) < 1<<15-2 && (len(ms) != 1 || err != nil || b.String() != string(fs[0].frame[:2])) {
				t.Errorf("frame %d and a bit: %d messages, %q left, error %v", i, len(ms), b.String(), err)
			}
		}
		// messages keep their values when more are parsed
		p, b := pack(), &bytes.Buffer{}
		r := &rpChunks{chunks: rpCuts(string(text), 50)}
		var all []interface{}
		for {
			ms, err := p.ParseMessages(r, b)
			all = append(all, ms...)
			if err != nil {
				break
			}
		}
		got := []string{}
		for _, m := range all {
			got = append(got, rpMessage(m))
		}
		rpDiff(t, "messages kept", got, want)
		// an invalid frame
		ping := string(rpFrame(0, 6))
		for _, bad := range []string{"\x01\xc1", "\x02\x91\xa1", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x02"} {
			for _, cut := range []int{0, 1, 2} {
				s := ping + ping + bad + "\x00"
				got, _, err := rpReadAll(pack(), &rpChunks{chunks: [][]byte{[]byte(s[:len(s)-cut]), []byte(s[len(s)-cut:])}})
				rpDiff(t, "before an invalid frame", got, []string{"hub 6", "hub 6"})
				if err == nil || errors.Is(err, errRpEnd) {
					t.Errorf("invalid frame %q: error %v", bad, err)
				}
			}
		}
	})
	for _, size := range []int{1, 13, 1000, 1 << 20} {
		size := size
		rpWithin(t, 20*time.Second, "hub connection", func() {
			conn := newRpConn("c")
			defer conn.cancel()
			go func() {
				for _, c := range rpCuts(string(text), size) {
					conn.in <- c
				}
			}()
			hc := newHubConnection(conn, pack(), 1<<20, rpLog())
			got := []string{}
			ch := hc.Receive()
			for range want {
				select {
				case m := <-ch:
					if m.err != nil {
						t.Errorf("reads of %d: %v", size, m.err)
						return
					}
					got = append(got, rpMessage(m.message))
				case <-time.After(3 * time.Second):
					t.Errorf("reads of %d: message %d is missing", size, len(got))
					return
				}
			}
			rpDiff(t, fmt.Sprintf("hub connection, reads of %d", size), got, want)
		})
	}
}
