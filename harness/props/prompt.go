package props

import (
	"compress/zlib"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C37", sym.Both, PromptLines, "streams of 0..5 (thorough 7) arbitrary bytes, arbitrary delimiter, every split into reads, limit off or on: the transport is only asked for data when no complete line is left")
	sym.Register("C37", sym.Both, PromptSession, "lock-step histories of 4 (thorough 5) operations of the writing side out of line, raw data, flush, compression on, compression off; the reading side catches up behind any of them; buffers of 4 bytes or default; transport delivering all that has arrived or one byte at a time: everything flushed is read and the transport is never asked for more than has arrived")
	sym.Register("C37", sym.Both, PromptNMDC, "lock-step histories of 3 (thorough 4) operations of an NMDC writer out of chat, private message, keep-alive, announced data, several messages at once, flush, compression on and off; the reading side catches up behind any flush")
	sym.Register("C37", sym.Both, PromptADC, "lock-step histories of 3 (thorough 4) operations of an ADC writer out of packets of every kind, keep-alive, announced data, flush, compression on and off; the reading side catches up behind any flush")
	sym.Register("C37", sym.Both, PromptRead, "2..3 (thorough 4) blocks of 1..6 bytes behind a line, compression off or on, flushed one by one, taken through the reader or a larger binary section with buffers of 1, 3, 20 or 5000 bytes at any of the flushes: everything flushed can be taken without asking for more")
	sym.Register("C38", sym.Both, TimeoutArmed, "histories of 4 (thorough 5) operations out of short and long lines, raw data, flush, compression on and off, close; 4-byte or default buffer; timeout callback failing at no or any call: the transport is only used while the timeout is armed, which it no longer is afterwards, and a failing callback prevents the transfer")
}

var errStarved = errors.New("nothing has arrived")

// pipe hands over what was written; asking for more than that counts as waiting.
type pipe struct {
	data    []byte
	one     bool
	starved int
	ended   bool
}

func (p *pipe) Write(b []byte) (int, error) {
	p.data = append(p.data, b...)
	return len(b), nil
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		if p.ended {
			return 0, io.EOF
		}
		p.starved++
		return 0, errStarved
	}
	if p.one && len(b) > 1 {
		b = b[:1]
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	return n, nil
}

// watched delivers data in arbitrary pieces and checks that every complete line
// handed over before was taken when it is asked for more.
type watched struct {
	chunked
	delim byte
	out   []byte // handed over
	lines int    // taken
}

func (w *watched) Read(p []byte) (int, error) {
	n := 0
	for _, c := range w.out {
		if c == w.delim {
			n++
		}
	}
	sym.Assert(n <= w.lines, "more data requested while a line is complete")
	rest := w.data
	k, err := w.chunked.Read(p)
	w.out = append(w.out, rest[:k]...)
	return k, err
}

func PromptLines() {
	n := sym.Choose("n", sym.Bound(5, 7)+1)
	data := sym.Bytes("b", n)
	d := sym.Byte("delim")
	w := &watched{chunked: chunked{data: data, empty: 1, end: io.EOF}, delim: d}
	r := lineproto.NewReader(w, d)
	if sym.Choose("limit", 2) == 1 {
		r.SetMaxLine(n + 1)
	}
	for {
		_, err := r.ReadLine()
		if err != nil {
			sym.Assert(err == io.EOF, "wrong error")
			break
		}
		w.lines++
		sym.Reach("line")
	}
}

// lockstep keeps what was written and not yet read.
type lockstep struct {
	p    *pipe
	log  []sessItem
	done int // items known to have been flushed
	zon  bool
}

func (l *lockstep) add(it sessItem) { l.log = append(l.log, it) }
func (l *lockstep) flushed()        { l.done = len(l.log) }

// next returns the next item that has been flushed.
func (l *lockstep) next(r *lineproto.Reader) (sessItem, bool) {
	if l.done == 0 {
		return sessItem{}, false
	}
	it := l.log[0]
	l.log, l.done = l.log[1:], l.done-1
	if l.zon {
		// the header is only there together with the data
		sym.Assert(r.EnableZlib() == nil, "decompression refused")
		l.zon = false
	}
	return it, true
}

func PromptSession() {
	p := &pipe{one: sym.Choose("one", 2) == 1}
	size := 4
	if sym.Choose("bigbuf", 2) == 1 {
		size = 0
	}
	w := lineproto.NewWriterSize(p, size)
	r := lineproto.NewReader(p, '|')
	l := &lockstep{p: p}
	catchUp := func() {
		for {
			it, ok := l.next(r)
			if !ok {
				break
			}
			switch it.kind {
			case 0:
				b, err := r.ReadLine()
				sym.Assert(err == nil, "line not available")
				sym.Assert(sym.EqB(b, it.data), "line differs")
				sym.Reach("line")
			case 1:
				checkBinary(r, it.data)
			case 2:
				l.zon = true
			}
			sym.Assert(p.starved == 0, "waiting for data that is not needed")
		}
	}
	on := false
	ops := sym.Bound(4, 5)
	for i := 0; i < ops; i++ {
		flushed := false
		switch sym.Choose("op", 5) {
		case 0:
			b := payload(true, sym.Choose("len", 2)*5)
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			l.add(sessItem{data: b})
		case 1:
			b := payload(false, 1+sym.Choose("len", 2)*7)
			n, err := w.Write(b)
			sym.Assert(err == nil && n == len(b), "raw write refused")
			l.add(sessItem{kind: 1, data: b})
			flushed = !on
		case 2:
			sym.Assert(w.Flush() == nil, "flush failed")
			flushed = true
		case 3:
			if on {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				on = false
				flushed = true
				break
			}
			// the peer learns about compression from a line
			b := []byte("z|")
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			l.add(sessItem{data: b})
			sym.Assert(w.EnableZlib() == nil, "compression not enabled")
			l.add(sessItem{kind: 2})
			on, flushed = true, true
		case 4:
			i = ops
		}
		if flushed {
			l.flushed()
			if sym.Choose("read", 2) == 1 {
				catchUp()
			}
		}
	}
	sym.Assert(w.Close() == nil, "close failed")
	l.flushed()
	catchUp()
	sym.Assert(p.starved == 0, "waiting for data that is not needed")
}

func PromptRead() {
	p := &pipe{one: sym.Choose("one", 2) == 1}
	w := lineproto.NewWriter(p)
	r := lineproto.NewReader(p, '|')
	sym.Assert(w.WriteLine([]byte("s|")) == nil, "line refused")
	z := sym.Choose("zlib", 2) == 1
	if z {
		sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	}
	var rd io.Reader
	var want []byte
	size := [...]int{1, 3, 20, 5000}[sym.Choose("buffer", 4)]
	blocks := sym.Bound(3, 4)
	for i := 0; i < blocks; i++ {
		b := payload(false, 1+sym.Choose("len", 2)*5)
		n, err := w.Write(b)
		sym.Assert(err == nil && n == len(b), "raw write refused")
		sym.Assert(w.Flush() == nil, "flush failed")
		want = append(want, b...)
		if sym.Choose("read", 2) == 0 {
			continue
		}
		if rd == nil {
			l, err := r.ReadLine()
			sym.Assert(err == nil && string(l) == "s|", "line not available")
			if z {
				sym.Assert(r.EnableZlib() == nil, "decompression refused")
			}
			rd = r
			if sym.Choose("section", 2) == 1 {
				rd, err = r.Binary(100000)
				sym.Assert(err == nil, "section refused")
			}
		}
		for empty := 0; len(want) > 0; {
			buf := make([]byte, size)
			n, err := rd.Read(buf)
			sym.Assert(err == nil && p.starved == 0, "waiting for data that is not needed")
			sym.Assert(n <= len(want) && sym.EqB(buf[:n], want[:n]), "data differs")
			want = want[n:]
			if n == 0 {
				empty++
				sym.Assert(empty < 3, "no data delivered")
			}
			sym.Reach("data")
		}
	}
}

func PromptNMDC() {
	p := &pipe{one: sym.Choose("one", 2) == 1}
	w := nmdc.NewWriter(p)
	r := nmdc.NewReader(p)
	l := &lockstep{p: p}
	catchUp := func() {
		for {
			it, ok := l.next(r.Reader)
			if !ok {
				break
			}
			switch it.kind {
			case 0:
				m, err := r.ReadMsg()
				sym.Assert(err == nil, "message not available")
				sym.Assert(sameMsg(m, it.msg), "message differs")
				sym.Reach("message")
			case 1:
				checkBinary(r.Reader, it.data)
			case 2:
				var z nmdc.ZOn
				sym.Assert(r.ReadMsgTo(&z) == nil, "compression command not available")
				l.zon = true
			}
			sym.Assert(p.starved == 0, "waiting for data that is not needed")
		}
	}
	on := false
	ops := sym.Bound(3, 4)
	for i := 0; i < ops; i++ {
		flushed := false
		switch sym.Choose("op", 6) {
		case 0:
			m := sessMessage(sym.Choose("message", 3), string([]byte{sym.ByteRange("c", 'a', 'z')}))
			sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
			l.add(sessItem{msg: m})
		case 1:
			sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused")
		case 2:
			sym.Assert(w.Flush() == nil, "flush failed")
			flushed = true
		case 3:
			if on {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				on, flushed = false, true
				break
			}
			sym.Assert(w.ZOnLevel(zlib.BestSpeed) == nil, "compression not enabled")
			l.add(sessItem{kind: 2})
			on, flushed = true, true
		case 4: // announced binary data
			data := []byte{sym.Byte("data"), '|', sym.Byte("data")}[:1+sym.Choose("size", 3)]
			m := &nmdc.ADCSnd{ContentType: "file", Identifier: "x", Start: 0, Length: uint64(len(data))}
			sym.Assert(w.WriteMsg(m) == nil, "legal message refused")
			n, err := w.Write(data)
			sym.Assert(err == nil && n == len(data), "data refused")
			l.add(sessItem{msg: m})
			l.add(sessItem{kind: 1, data: data})
			flushed = !on
		case 5:
			a, b := sessMessage(6, ""), sessMessage(0, "z")
			sym.Assert(w.WriteMsg(a, b) == nil, "legal message refused")
			l.add(sessItem{msg: a})
			l.add(sessItem{msg: b})
		}
		if flushed {
			l.flushed()
			if sym.Choose("read", 2) == 1 {
				catchUp()
			}
		}
	}
	if on || sym.Choose("end", 2) == 1 {
		sym.Assert(w.Close() == nil, "close failed")
	} else {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	l.flushed()
	catchUp()
	sym.Assert(p.starved == 0, "waiting for data that is not needed")
	p.ended = true
	if l.zon {
		sym.Assert(r.EnableZlib() == nil, "decompression refused")
	}
	m, err := r.ReadMsg()
	sym.Assert(m == nil && err == io.EOF, "extra data")
}

func PromptADC() {
	p := &pipe{one: sym.Choose("one", 2) == 1}
	w := adc.NewWriter(p)
	r := adc.NewReader(p)
	l := &lockstep{p: p}
	catchUp := func() {
		for {
			it, ok := l.next(r.Reader)
			if !ok {
				break
			}
			switch it.kind {
			case 0:
				q, err := r.ReadPacket()
				sym.Assert(err == nil, "packet not available")
				sym.Assert(samePacket(q, it.pkt), "packet differs")
				sym.Reach("packet")
			case 1:
				checkBinary(r.Reader, it.data)
			case 2:
				m, err := r.ReadInfo()
				sym.Assert(err == nil, "compression command not available")
				_, ok := m.(adc.ZOn)
				sym.Assert(ok, "compression command not available")
				l.zon = true
			}
			sym.Assert(p.starved == 0, "waiting for data that is not needed")
		}
	}
	from, to := adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}
	on := false
	ops := sym.Bound(3, 4)
	for i := 0; i < ops; i++ {
		flushed := false
		switch sym.Choose("op", 6) {
		case 0:
			q := newPacket("IHBDEFCU"[sym.Choose("kind", 8)], from, to, adc.CID{1}, []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}}, adc.ChatMessage{Text: string([]byte{sym.ByteRange("c", 'a', 'z')})})
			sym.Assert(w.WritePacket(q) == nil, "legal packet refused")
			l.add(sessItem{pkt: q})
		case 1:
			sym.Assert(w.WriteKeepAlive() == nil, "keep-alive refused")
		case 2:
			sym.Assert(w.Flush() == nil, "flush failed")
			flushed = true
		case 3:
			if on {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				on, flushed = false, true
				break
			}
			sym.Assert(w.WriteInfo(adc.ZOn{}) == nil, "message refused")
			sym.Assert(w.EnableZlib() == nil, "compression not enabled")
			l.add(sessItem{kind: 2})
			on, flushed = true, true
		case 4:
			data := []byte{sym.Byte("data"), '\n', sym.Byte("data")}[:1+sym.Choose("size", 3)]
			q := newPacket('C', from, to, adc.CID{}, nil, adc.GetResponse{Type: "file", Path: "x", Start: 0, Bytes: int64(len(data))})
			sym.Assert(w.WritePacket(q) == nil, "legal packet refused")
			n, err := w.Write(data)
			sym.Assert(err == nil && n == len(data), "data refused")
			l.add(sessItem{pkt: q})
			l.add(sessItem{kind: 1, data: data})
			flushed = !on
		case 5:
			st := w.DirectStream(from, to)
			m := adc.Status{Sev: adc.Fatal, Code: 21, Msg: "nick taken"}
			sym.Assert(st.WriteMessage(m) == nil && st.Flush() == nil, "legal message refused")
			l.add(sessItem{pkt: newPacket('D', from, to, adc.CID{}, nil, m)})
			flushed = true
		}
		if flushed {
			l.flushed()
			if sym.Choose("read", 2) == 1 {
				catchUp()
			}
		}
	}
	if on || sym.Choose("end", 2) == 1 {
		sym.Assert(w.Close() == nil, "close failed")
	} else {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	l.flushed()
	catchUp()
	sym.Assert(p.starved == 0, "waiting for data that is not needed")
	p.ended = true
	if l.zon {
		sym.Assert(r.EnableZlib() == nil, "decompression refused")
	}
	q, err := r.ReadPacket()
	sym.Assert(q == nil && err == io.EOF, "extra data")
}

// ---- write timeouts ----

// armedSink checks that it is only used while the timeout is armed.
type armedSink struct {
	sink
	armed int
}

func (s *armedSink) Write(p []byte) (int, error) {
	sym.Assert(s.armed > 0, "transport used without a timeout")
	sym.Reach("write")
	return s.sink.Write(p)
}

func TimeoutArmed() {
	s := &armedSink{sink: sink{limit: -1}}
	size := 4
	if sym.Choose("bigbuf", 2) == 1 {
		size = 0
	}
	w := lineproto.NewWriterSize(s, size)
	calls, fail := 0, sym.Choose("failat", sym.Bound(5, 7))-1
	w.Timeout = func(enable bool) error {
		if !enable {
			s.armed--
			return nil
		}
		calls++
		if fail >= 0 && calls > fail {
			return errHook
		}
		s.armed++
		return nil
	}
	var log []zop
	on, failed := false, false
	ops := sym.Bound(4, 5)
	for i := 0; i <= ops; i++ {
		var err error
		before, sent := calls, len(s.got)
		op := 4
		if i < ops {
			op = sym.Choose("op", 4)
		}
		switch op {
		case 0:
			b := payload(true, sym.Choose("len", 2)*5)
			if err = w.WriteLine(b); err == nil {
				log = append(log, zop{0, b})
			}
		case 1:
			b := payload(false, 1+sym.Choose("len", 2)*7)
			var n int
			if n, err = w.Write(b); err == nil {
				sym.Assert(n == len(b), "data lost")
				log = append(log, zop{1, b})
			}
		case 2:
			err = w.Flush()
		case 3:
			if on {
				if err = w.DisableZlib(); err == nil {
					on = false
				}
				break
			}
			b := []byte("z|")
			if err = w.WriteLine(b); err == nil {
				log = append(log, zop{0, b})
				if err = w.EnableZlib(); err == nil {
					on = true
					log = append(log, zop{kind: 2})
				}
			}
		case 4:
			err = w.Close()
		}
		sym.Assert(s.armed == 0, "timeout left armed")
		if failed && op != 4 {
			sym.Assert(err == errHook, "timeout failure forgotten")
			sym.Assert(len(s.got) == sent, "data sent behind a timeout failure")
		}
		if fail >= 0 && calls > fail && before <= fail {
			sym.Assert(err == errHook, "timeout failure not reported")
			failed = true
		} else if !failed {
			sym.Assert(err == nil, "failure invented")
		}
	}
	if failed {
		return
	}
	r := lineproto.NewReader(&splitAt{data: s.got, end: io.EOF}, '|')
	for _, o := range log {
		switch o.kind {
		case 0:
			b, err := r.ReadLine()
			sym.Assert(err == nil && sym.EqB(b, o.data), "line lost")
		case 1:
			checkBinary(r, o.data)
		case 2:
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
		}
	}
}
