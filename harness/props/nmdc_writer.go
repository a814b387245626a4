package props

import (
	"bytes"
	"errors"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C19", sym.Both, WriterSequence, "up to 2 calls writing 0..2 messages each (thorough: 0..3 in the first) (good, payload-free, chat, empty chat, raw, refused by the encoder) or a keep-alive; up to 2 hooks with arbitrary verdicts per message; buffer sizes default and 16")
	sym.Register("C19", sym.Both, WriterText, "chat, raw and unknown commands with names of 1..3 and payloads of 0..4 (thorough 6) arbitrary bytes")
	sym.Register("C19", sym.Both, WriterBroken, "a transport that fails after an arbitrary number of bytes; messages written before and after")
	sym.Register("C19", sym.Both, MarshalPrefix, "MarshalTo into a buffer with 0..3 arbitrary bytes in it, arbitrary payload of 0..3 bytes, every registered payload-free command")
}

type writerItem struct {
	msg  nmdc.Message
	wire string
	bad  bool
}

func writerItems(i int) writerItem {
	switch i {
	case 0:
		return writerItem{&nmdc.Hello{Name: "joe"}, "$Hello joe|", false}
	case 1:
		return writerItem{&nmdc.GetNickList{}, "$GetNickList|", false}
	case 2:
		return writerItem{&nmdc.ChatMessage{Name: "a", Text: "b|$c"}, "<a> b&#124;&#36;c|", false}
	case 3:
		return writerItem{&nmdc.Hello{Name: "a\nb"}, "", true}
	case 4:
		return writerItem{&nmdc.ConnectToMe{Targ: "abc", Address: "h:1", Kind: nmdc.CTMKind(77)}, "", true}
	case 5:
		return writerItem{&nmdc.RawMessage{Typ: "Raw", Data: []byte("x y")}, "$Raw x y|", false}
	}
	return writerItem{}
}

func WriterSequence() {
	var w bytes.Buffer
	nw := nmdc.NewWriter(&w)
	if sym.Choose("small", 2) == 1 {
		nw = nmdc.NewWriterSize(&w, 16)
	}
	stop := errors.New("stop")
	var (
		want    []byte
		cur     []writerItem // rest of the current call
		stage   int
		stopped bool
	)
	hooks := sym.Choose("hooks", 3)
	for h := 0; h < hooks; h++ {
		h := h
		nw.OnMessage(func(m nmdc.Message) (bool, error) {
			sym.Assert(!stopped, "hook called after a failure")
			if h == 0 && stage == hooks {
				// the previous message was sent
				cur, stage = cur[1:], 0
			}
			sym.Assert(stage == h, "hooks out of order")
			sym.Assert(len(cur) > 0 && cur[0].msg == m, "hook got another message")
			switch sym.Choose("verdict", 3) {
			case 1:
				cur, stage = cur[1:], 0
				return false, nil
			case 2:
				stopped = true
				return true, stop
			}
			stage++
			if stage == hooks {
				want = append(want, cur[0].wire...)
			}
			return true, nil
		})
	}
	items := 6
	if hooks == 2 {
		items = 3
	}
	calls := 1 + sym.Choose("calls", 2)
	for i := 0; i < calls; i++ {
		if sym.Choose("keepalive", 2) == 1 {
			sym.Assert(nw.WriteKeepAlive() == nil, "keep-alive refused")
			want = append(want, '|')
			continue
		}
		max := 3
		if i == 0 {
			max = sym.Bound(3, 4)
		}
		n := sym.Choose("messages", max)
		var msgs []nmdc.Message
		cur, stage, stopped = nil, 0, false
		anyBad := false
		for j := 0; j < n; j++ {
			it := writerItems(sym.Choose("item", items))
			if it.bad && hooks > 0 {
				// the order of hooks and failures is checked without hooks
				it = writerItems(0)
			}
			cur = append(cur, it)
			msgs = append(msgs, it.msg)
			if hooks == 0 && !anyBad {
				want = append(want, it.wire...)
			}
			anyBad = anyBad || it.bad
		}
		err := nw.WriteMsg(msgs...)
		if stopped {
			sym.Assert(err == stop, "hook failure lost")
			sym.Reach("stopped")
			continue
		}
		sym.Assert((err != nil) == anyBad, "result of WriteMsg")
		if hooks > 0 && stage == hooks {
			cur = cur[1:]
		}
		if hooks > 0 {
			sym.Assert(len(cur) == 0, "message skipped without a verdict")
		}
		if anyBad {
			sym.Reach("refused")
		}
	}
	sym.Assert(nw.Flush() == nil, "flush failed")
	sym.Assert(bytes.Equal(w.Bytes(), want), "wire differs from the messages written")
	sym.Observe("wire", w.Bytes())
	sym.Reach("sent")
}

func WriterText() {
	var w bytes.Buffer
	nw := nmdc.NewWriter(&w)
	var want []byte
	switch sym.Choose("kind", 3) {
	case 0:
		s := uText("text", 0, sym.Bound(4, 6))
		m := &nmdc.ChatMessage{Text: s}
		sym.Assert(nw.WriteMsg(m) == nil, "chat refused")
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '&':
				want = append(want, "&amp;"...)
			case '$':
				want = append(want, "&#36;"...)
			case '|':
				want = append(want, "&#124;"...)
			default:
				want = append(want, s[i])
			}
		}
	case 1:
		name := sym.StrN("name", 1, 3)
		data := sym.Bytes("data", sym.Choose("n", sym.Bound(5, 7)))
		m := &nmdc.RawMessage{Typ: name, Data: data}
		sym.Assert(nw.WriteMsg(m) == nil, "raw refused")
		want = append(want, '$')
		want = append(want, name...)
		if len(data) > 0 {
			want = append(want, ' ')
			want = append(want, data...)
		}
	case 2:
		data := sym.Bytes("data", sym.Choose("n", sym.Bound(5, 7)))
		m := &nmdc.RawMessage{Data: data}
		sym.Assert(nw.WriteMsg(m) == nil, "raw refused")
		want = append(want, data...)
	}
	want = append(want, '|')
	sym.Assert(nw.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(w.Bytes(), want), "wire differs")
	sym.Reach("sent")
}

type brokenWriter struct {
	left int
	got  []byte
	err  error
}

func (b *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > b.left {
		n := b.left
		b.got = append(b.got, p[:n]...)
		b.left = 0
		return n, b.err
	}
	b.left -= len(p)
	b.got = append(b.got, p...)
	return len(p), nil
}

func WriterBroken() {
	w := &brokenWriter{left: sym.Choose("left", 30), err: errors.New("broken")}
	nw := nmdc.NewWriterSize(w, 16)
	msgs := []nmdc.Message{&nmdc.Hello{Name: "joe"}, &nmdc.ChatMessage{Text: "hello"}, &nmdc.Quit{Name: "j"}}
	const wire = "$Hello joe|hello|$Quit j|"
	flushEach := sym.Choose("flush", 2) == 1
	failed := false
	for _, m := range msgs {
		err := nw.WriteMsg(m)
		if failed {
			sym.Assert(err == w.err, "write after a failure")
		}
		if err != nil {
			sym.Assert(err == w.err, "another error")
			failed = true
		}
		if flushEach {
			if err := nw.Flush(); err != nil {
				sym.Assert(err == w.err, "another error")
				failed = true
			} else {
				sym.Assert(!failed, "failure forgotten")
			}
		}
	}
	err := nw.Flush()
	sym.Assert(bytes.HasPrefix([]byte(wire), w.got), "wire is not a prefix of the messages")
	if len(w.got) < len(wire) {
		sym.Assert(err == w.err, "failure not reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil && !failed, "failure invented")
		sym.Reach("complete")
	}
}

func MarshalPrefix() {
	pref := sym.Bytes("pref", sym.Choose("n", 4))
	var buf bytes.Buffer
	buf.Write(pref)
	want := append([]byte(nil), pref...)
	var m nmdc.Message
	switch sym.Choose("what", 3) {
	case 2:
		text := sym.StringIn("text", sym.Choose("text.len", 3), 'a', 'z')
		m = &nmdc.ChatMessage{Text: text}
		want = append(want, text...)
	case 1:
		data := sym.Bytes("data", sym.Choose("len", 4))
		m = &nmdc.RawMessage{Typ: "T", Data: data}
		want = append(want, "$T"...)
		if len(data) > 0 {
			want = append(want, ' ')
			want = append(want, data...)
		}
	case 0:
		all := []nmdc.Message{&nmdc.GetNickList{}, &nmdc.GetPass{}, &nmdc.BadPass{}, &nmdc.GetTopic{}, &nmdc.ZOn{}, &nmdc.MaxedOut{}, &nmdc.HubIsFull{}}
		m = all[sym.Choose("m", len(all))]
		want = append(want, '$')
		want = append(want, m.Type()...)
	}
	want = append(want, '|')
	sym.Assert(nmdc.MarshalTo(nil, &buf, m) == nil, "message refused")
	sym.Assert(sym.EqB(buf.Bytes(), want), "wire differs")
	sym.Reach("sent")
}
