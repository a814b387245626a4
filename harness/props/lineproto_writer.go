package props

import (
	"compress/zlib"
	"errors"
	"io"

	"github.com/direct-connect/go-dc/lineproto"

	"verif/harness/sym"
)

func init() {
	sym.Register("C04", sym.Both, ZlibSwitch, "histories of up to 5 (thorough 6) operations out of line, raw write, flush, compression on (any level), compression off; 4-byte or default write buffer; reads of full size or one byte at a time; arbitrary contents")
	sym.Register("C04", sym.Both, ZlibChunks, "plain line, compressed line, optional flush, plain line; arbitrary contents; every split of the transport stream into reads of 1..3 bytes or an empty read in a window of 4 (thorough 6) reads starting anywhere")
	sym.Register("C04", sym.Both, ZlibBroken, "one or two compressed lines with arbitrary contents, with or without flush, followed by a plain line; the transport ends or fails in the last four bytes of the compressed section, or one of them is damaged; read by lines, raw or as a binary section: a prefix of the data, then an error that is not the end of the stream, again on every later read")
	sym.Register("C04", sym.Both, ZlibErrors, "enabling twice, disabling when off, invalid levels -10..20 (asked for twice, on a new or a used writer), truncated or damaged compressed header")
	sym.Register("C06", sym.Both, WriterOrder, "histories of up to 4 (thorough 5) operations out of line of 0..6 bytes, raw write of 0..6 bytes, flush, hook verdict; buffers of 4 bytes or default; arbitrary contents")
	sym.Register("C06", sym.Both, WriterLarge, "histories of 3 lines and raw writes of 0, 1, 4090..4102 bytes around the default 4096-byte buffer, 9000, 33000 or 70000 bytes")
	sym.Register("C04", sym.Both, ZlibLarge, "compressed sections of up to three blocks of 1, 2048 or 9000 (thorough 33000) bytes as lines or raw writes, with and without flushes, two sections in a row; reads of full or odd size, by lines or raw")
	sym.Register("C06", sym.Both, WriterHooks, "up to 3 hooks with arbitrary verdicts on 3 lines")
	sym.Register("C07", sym.Both, WriterFaults, "histories of up to 4 (thorough 5) operations out of line, raw write, flush, compression switch; the transport fails after an arbitrary number of bytes with an arbitrary short count; compression off or on")
	sym.Register("C07", sym.Both, WriterTimeouts, "timeout callback failing at an arbitrary call; histories of 3 operations")
}

// sink records what reaches the transport and fails after limit bytes.
type sink struct {
	got    []byte
	limit  int // -1: never
	failed bool
	after  int // writes after the failure
}

var errSink = errors.New("transport failed")

func (s *sink) Write(p []byte) (int, error) {
	if s.failed {
		s.after++
		return 0, errSink
	}
	if s.limit >= 0 && len(s.got)+len(p) > s.limit {
		n := s.limit - len(s.got)
		s.got = append(s.got, p[:n]...)
		s.failed = true
		return n, errSink
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

type zop struct {
	kind int // 0 line, 1 raw, 2 zlib on
	data []byte
}

func zlevel() int {
	switch sym.Choose("level", 3) {
	case 1:
		return zlib.BestSpeed
	case 2:
		return zlib.NoCompression
	}
	return zlib.DefaultCompression
}

// payload returns a line or block with two arbitrary bytes.
func payload(line bool, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i)
	}
	for i := 0; i < n && i < 2; i++ {
		b[i] = sym.Byte("c")
		if line {
			sym.Assume(b[i] != '|')
		}
	}
	if line {
		b = append(b, '|')
	}
	return b
}

func ZlibSwitch() {
	s := &sink{limit: -1}
	size := 4
	if sym.Bool("bigbuf") {
		size = 0
	}
	w := lineproto.NewWriterSize(s, size)
	var log []zop
	on := false
	ops := sym.Bound(5, 6)
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 5) {
		case 0:
			b := payload(true, sym.Choose("len", 2)*5)
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			log = append(log, zop{0, b})
		case 1:
			b := payload(false, 1+sym.Choose("len", 2)*7)
			n, err := w.Write(b)
			sym.Assert(err == nil && n == len(b), "raw write refused")
			log = append(log, zop{1, b})
		case 2:
			sym.Assert(w.Flush() == nil, "flush failed")
		case 3:
			if on {
				sym.Assert(w.DisableZlib() == nil, "compression not disabled")
				on = false
				break
			}
			// the peer learns about compression from a line
			b := []byte("z|")
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			log = append(log, zop{0, b})
			sym.Assert(w.EnableZlibLevel(zlevel()) == nil, "compression not enabled")
			log = append(log, zop{kind: 2})
			on = true
		case 4:
			i = ops
		}
	}
	if on || sym.Choose("close", 2) == 1 {
		sym.Assert(w.Close() == nil, "close failed")
	} else {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	var src io.Reader = &splitAt{data: s.got, end: io.EOF}
	if sym.Choose("chunks", 2) == 1 {
		src = &oneByte{s.got}
	}
	r := lineproto.NewReader(src, '|')
	for _, o := range log {
		switch o.kind {
		case 0:
			l, err := r.ReadLine()
			sym.Assert(err == nil, "line lost")
			sym.Assert(sym.EqB(l, o.data), "line differs")
		case 1:
			b := make([]byte, len(o.data))
			n, err := io.ReadFull(r, b)
			sym.Assert(err == nil && n == len(b), "data lost")
			sym.Assert(sym.EqB(b, o.data), "data differs")
		case 2:
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
			sym.Reach("on")
		}
	}
	l, err := r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "extra data")
}

type oneByte struct{ data []byte }

func (c *oneByte) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = c.data[0]
	c.data = c.data[1:]
	return 1, nil
}

// windowed delivers full buffers except for a window of small reads.
type windowed struct {
	data  []byte
	skip  int // bytes delivered before the window
	small int // small reads in the window
	empty int
}

func (c *windowed) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if n > len(p) {
		n = len(p)
	}
	if n == 0 {
		return 0, nil
	}
	if c.skip > 0 {
		if n > c.skip {
			n = c.skip
		}
		c.skip -= n
	} else if c.small > 0 {
		c.small--
		m := 3
		if m > n {
			m = n
		}
		if c.empty > 0 {
			n = sym.Choose("chunk", m+1)
			if n == 0 {
				c.empty--
				return 0, nil
			}
		} else {
			n = 1 + sym.Choose("chunk", m)
		}
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func ZlibChunks() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	l0 := payload(true, 1)
	sym.Assert(w.WriteLine(l0) == nil, "line refused")
	sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	l1 := payload(true, 3)
	sym.Assert(w.WriteLine(l1) == nil, "line refused")
	if sym.Choose("flush", 2) == 1 {
		sym.Assert(w.Flush() == nil, "flush failed")
	}
	sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	l2 := payload(true, 2)
	sym.Assert(w.WriteLine(l2) == nil, "line refused")
	sym.Assert(w.Flush() == nil, "flush failed")
	at := sym.Choose("at", 26)
	if at > len(s.got) {
		at = len(s.got)
	}
	r := lineproto.NewReader(&windowed{data: s.got, skip: at, small: sym.Bound(4, 6), empty: 1}, '|')
	l, err := r.ReadLine()
	sym.Assert(err == nil && sym.EqB(l, l0), "plain line before compression")
	sym.Assert(r.EnableZlib() == nil, "decompression refused")
	if sym.Choose("raw", 2) == 1 {
		b := make([]byte, len(l1))
		_, err = io.ReadFull(r, b)
		sym.Assert(err == nil && sym.EqB(b, l1), "compressed bytes")
		b = make([]byte, len(l2))
		_, err = io.ReadFull(r, b)
		sym.Assert(err == nil && sym.EqB(b, l2), "plain bytes after compression")
	} else {
		l, err = r.ReadLine()
		sym.Assert(err == nil && sym.EqB(l, l1), "compressed line")
		l, err = r.ReadLine()
		sym.Assert(err == nil && sym.EqB(l, l2), "plain line after compression")
	}
	l, err = r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "extra data")
}

func ZlibErrors() {
	switch sym.Choose("case", 4) {
	case 0: // invalid level: the writer stays usable uncompressed
		s := &sink{limit: -1}
		w := lineproto.NewWriter(s)
		used := sym.Choose("used", 2) == 1 // was compressed before
		if used {
			sym.Assert(w.EnableZlibLevel(zlib.BestSpeed) == nil && w.DisableZlib() == nil, "valid level refused")
			s.got = nil
		}
		lvl := sym.Fork(sym.IntRange("level", -10, 20))
		err := w.EnableZlibLevel(lvl)
		if lvl >= zlib.HuffmanOnly && lvl <= zlib.BestCompression {
			sym.Assert(err == nil, "valid level refused")
			sym.Assert(w.EnableZlib() != nil, "enabled twice")
			return
		}
		sym.Assert(err != nil, "invalid level accepted")
		sym.Assert(w.EnableZlibLevel(lvl) != nil, "invalid level accepted when asked again")
		sym.Assert(w.WriteLine([]byte("x|")) == nil, "line refused")
		sym.Assert(w.Flush() == nil, "flush failed")
		sym.Assert(string(s.got) == "x|", "line damaged")
		sym.Assert(w.EnableZlib() == nil, "compression refused")
		sym.Reach("recovered")
	case 1:
		s := &sink{limit: -1}
		w := lineproto.NewWriter(s)
		sym.Assert(w.DisableZlib() != nil, "disabled while off")
		sym.Assert(w.WriteLine([]byte("x|")) == nil, "line refused")
		sym.Assert(w.Flush() == nil, "flush failed")
		sym.Assert(string(s.got) == "x|", "line damaged")
	case 2: // reader: damaged header
		b := []byte{sym.Byte("h"), sym.Byte("h")}
		sym.Assume(b[0] != 0x78)
		sym.Assume(sym.Or(b[0]&0xf != 8, (uint64(b[0])*256+uint64(b[1]))%31 != 0))
		data := append([]byte("z|"), b...)
		data = append(data, "x|"...)
		r := lineproto.NewReader(&splitAt{data: data, end: io.EOF}, '|')
		l, err := r.ReadLine()
		sym.Assert(err == nil && string(l) == "z|", "line lost")
		sym.Assert(r.EnableZlib() != nil, "damaged header accepted")
	case 3: // reader: stream ends in the header
		r := lineproto.NewReader(&splitAt{data: []byte("z|x")[:2+sym.Choose("n", 2)], end: io.EOF}, '|')
		l, err := r.ReadLine()
		sym.Assert(err == nil && string(l) == "z|", "line lost")
		sym.Assert(r.EnableZlib() != nil, "missing header accepted")
		_, err = r.ReadLine()
		sym.Assert(err == io.EOF, "no end of stream")
	}
}

func ZlibBroken() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	var want []byte
	sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	for i := sym.Choose("lines", 3); i > 0; i-- {
		b := append(sym.Bytes("b", 2), "xyz|"...)
		sym.Assert(w.WriteLine(b) == nil, "line refused")
		want = append(want, b...)
		if sym.Choose("flush", 2) == 1 {
			sym.Assert(w.Flush() == nil, "flush failed")
		}
	}
	sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	n := len(s.got)
	sym.Assert(w.WriteLine([]byte("plain|")) == nil && w.Close() == nil, "line refused")
	data := append([]byte(nil), s.got...)
	cut := 1 + sym.Choose("cut", 4)
	end := io.EOF
	switch sym.Choose("how", 3) {
	case 0:
		data = data[:n-cut]
	case 1:
		data, end = data[:n-cut], errors.New("broken")
	case 2:
		d := sym.Byte("damage")
		sym.Assume(d != 0)
		data[n-cut] ^= d
	}
	at := 0
	if sym.Choose("pieces", 2) == 1 {
		at = 3
	}
	r := lineproto.NewReader(&splitAt{data: data, at: at, end: end}, '|')
	sym.Assert(r.EnableZlib() == nil, "decompression refused")
	var got []byte
	var err error
	switch sym.Choose("read", 3) {
	case 0:
		for err == nil && len(got) <= len(want) {
			var l []byte
			if l, err = r.ReadLine(); err == nil {
				got = append(got, l...)
			}
		}
	case 1:
		got, err = readSome(r, len(want)+1)
	case 2:
		b, err1 := r.Binary(uint64(len(want) + 1))
		sym.Assert(err1 == nil, "section refused")
		got, err = readSome(b, len(want)+1)
		sym.Assert(err != io.EOF, "broken section ends without an error")
		sym.Assert(b.Close() != nil, "broken section closed without an error")
	}
	sym.Assert(err != nil && err != io.EOF, "broken section ends without an error")
	sym.Assert(len(got) <= len(want) && sym.EqB(got, want[:len(got)]), "not the data sent")
	for i := 0; i < 2; i++ {
		if sym.Choose("again", 2) == 1 {
			l, err := r.ReadLine()
			sym.Assert(err != nil && err != io.EOF, "a broken section was left behind")
			sym.Assert(len(l) == 0 || len(got)+len(l) <= len(want), "data behind a broken section")
		} else {
			k, err := r.Read(make([]byte, 4))
			sym.Assert(k == 0 && err != nil && err != io.EOF, "a broken section was left behind")
		}
	}
	sym.Reach("broken")
}

func WriterOrder() {
	s := &sink{limit: -1}
	size := 4
	if sym.Bool("bigbuf") {
		size = 0
	}
	w := lineproto.NewWriterSize(s, size)
	drop := false
	w.OnLine(func(line []byte) (bool, error) { return !drop, nil })
	var want []byte
	ops := sym.Bound(4, 5)
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			b := payload(true, sym.Choose("len", 4)*2)
			drop = sym.Choose("drop", 3) == 1
			sym.Assert(w.WriteLine(b) == nil, "line refused")
			if !drop {
				want = append(want, b...)
			}
		case 1:
			b := payload(false, sym.Choose("len", 3)*3)
			n, err := w.Write(b)
			sym.Assert(err == nil && n == len(b), "raw write refused")
			want = append(want, b...)
			sym.Assert(sym.EqB(s.got, want), "raw write reordered or held back")
			sym.Reach("raw")
		case 2:
			sym.Assert(w.Flush() == nil, "flush failed")
			sym.Assert(sym.EqB(s.got, want), "flush did not deliver everything")
			sym.Reach("flush")
		case 3:
			i = ops
		}
		sym.Assert(len(s.got) <= len(want), "extra data sent")
		sym.Assert(sym.EqB(s.got, want[:len(s.got)]), "data out of order")
	}
	sym.Assert(w.Close() == nil, "close failed")
	sym.Assert(sym.EqB(s.got, want), "close did not deliver everything")
	sym.Assert(w.WriteLine([]byte("x|")) != nil, "write after close accepted")
	n, err := w.Write([]byte("x"))
	sym.Assert(err != nil && n == 0, "raw write after close accepted")
	sym.Assert(w.Flush() != nil, "flush after close succeeded")
	sym.Assert(sym.EqB(s.got, want), "data sent after close")
}

func WriterLarge() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	var want []byte
	for i := 0; i < 3; i++ {
		n := [...]int{0, 1, 4090, 4095, 4096, 4097, 4102, 9000, 33000, 70000}[sym.Choose("len", 10)]
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(i + j*7)
		}
		if n > 0 {
			b[n-1] = sym.Byte("c")
		}
		if sym.Choose("raw", 2) == 1 {
			m, err := w.Write(b)
			sym.Assert(err == nil && m == n, "raw write refused")
		} else {
			sym.Assert(w.WriteLine(b) == nil, "line refused")
		}
		want = append(want, b...)
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(s.got, want), "flush did not deliver everything in order")
}

func WriterHooks() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	nh := 1 + sym.Choose("hooks", 3)
	var verdict []int
	var log []int
	var seen []string
	for h := 0; h < nh; h++ {
		h := h
		w.OnLine(func(line []byte) (bool, error) {
			log = append(log, h)
			seen = append(seen, string(line))
			switch verdict[h] {
			case 1:
				return false, nil
			case 2:
				return sym.Bool("okerr"), errHook
			}
			return true, nil
		})
	}
	var want []byte
	for i := 0; i < 3; i++ {
		b := payload(true, 2)
		verdict = make([]int, nh)
		if k := sym.Choose("verdict", 1+2*nh); k > 0 {
			verdict[(k-1)/2] = 1 + (k-1)%2
		}
		log, seen = nil, nil
		err := w.WriteLine(b)
		calls, fail, drop := 0, false, false
		for h := 0; h < nh; h++ {
			calls++
			if verdict[h] != 0 {
				fail = verdict[h] == 2
				drop = verdict[h] == 1
				break
			}
		}
		sym.Assert(len(log) == calls, "number of hook calls")
		for h := range log {
			sym.Assert(log[h] == h, "hook order")
			sym.Assert(sym.Eq(seen[h], string(b)), "hook saw a different line")
		}
		if fail {
			sym.Assert(err == errHook, "hook error not returned")
			sym.Assert(w.WriteLine(b) == errHook, "hook error not sticky")
			sym.Assert(w.Flush() == errHook, "hook error not sticky in flush")
			sym.Reach("fail")
			return
		}
		sym.Assert(err == nil, "line refused")
		if !drop {
			want = append(want, b...)
		}
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	sym.Assert(sym.EqB(s.got, want), "delivered lines differ")
}

func WriterFaults() {
	z := sym.Choose("zlib", 2) == 1
	limit := sym.Choose("limit", 14)
	s := &sink{limit: limit}
	w := lineproto.NewWriterSize(s, 4)
	ref := &sink{limit: -1}
	wr := lineproto.NewWriterSize(ref, 4) // same history on a working transport
	if z {
		sym.Assert(wr.EnableZlib() == nil, "compression not enabled")
		sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	}
	reported := false
	check := func(err error) {
		if reported {
			sym.Assert(err != nil, "failure forgotten")
		}
		if err != nil {
			sym.Assert(s.failed, "failure invented")
			reported = true
		}
		if reported {
			sym.Assert(w.Err() != nil, "failure not reported by Err")
		}
	}
	ops := sym.Bound(4, 5)
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 4) {
		case 3:
			if z {
				sym.Assert(wr.DisableZlib() == nil, "compression not disabled")
				check(w.DisableZlib())
			} else {
				sym.Assert(wr.EnableZlib() == nil, "compression not enabled")
				check(w.EnableZlib())
			}
			z = !z
		case 0:
			b := payload(true, sym.Choose("len", 3)*2)
			sym.Assert(wr.WriteLine(b) == nil, "line refused")
			check(w.WriteLine(b))
		case 1:
			b := payload(false, sym.Choose("len", 2)*5)
			_, err := wr.Write(b)
			sym.Assert(err == nil, "raw write refused")
			_, err = w.Write(b)
			check(err)
		case 2:
			sym.Assert(wr.Flush() == nil, "flush failed")
			err := w.Flush()
			check(err)
			if s.failed {
				sym.Assert(err != nil, "flush hides the failure")
			}
		}
	}
	if !reported {
		sym.Assert(wr.Close() == nil, "close failed")
		err := w.Close()
		if s.failed {
			sym.Assert(err != nil, "close hides the failure")
			sym.Reach("atclose")
		} else {
			sym.Assert(err == nil, "failure invented")
			sym.Assert(sym.EqB(s.got, ref.got), "data lost")
		}
	} else {
		wr.Flush()
		first := w.Err()
		if sym.Choose("hook", 2) == 1 {
			w.OnLine(func([]byte) (bool, error) { return false, nil })
			sym.Assert(w.WriteLine([]byte("x|")) == first, "failure forgotten for a dropped line")
		}
		w.Close()
		sym.Assert(w.Err() == first, "failure replaced by the close")
		sym.Assert(w.WriteLine([]byte("x|")) == first, "failure forgotten after the close")
		sym.Reach("reported")
	}
	sym.Assert(s.after == 0, "transport used after its failure")
	sym.Assert(len(s.got) <= len(ref.got), "extra data sent")
	sym.Assert(sym.EqB(s.got, ref.got[:len(s.got)]), "delivered data is not a prefix")
}

func WriterTimeouts() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	fail := sym.Choose("failat", 4)
	armed, calls := 0, 0
	w.Timeout = func(enable bool) error {
		if !enable {
			armed--
			return nil
		}
		if calls == fail {
			return errHook
		}
		calls++
		armed++
		return nil
	}
	var want []byte
	failed := false
	for i := 0; i < 3; i++ {
		var err error
		b := payload(true, 1)
		if sym.Choose("op", 2) == 0 {
			err = w.WriteLine(b)
			if err == nil {
				want = append(want, b...)
			}
		} else {
			err = w.Flush()
			if err == nil {
				sym.Assert(sym.EqB(s.got, want), "flush did not deliver everything")
			}
		}
		sym.Assert(armed == 0, "timeout left armed")
		if failed {
			sym.Assert(err == errHook, "timeout failure forgotten")
		}
		if err != nil {
			sym.Assert(err == errHook, "failure invented")
			sym.Assert(w.Err() == errHook, "timeout failure not reported by Err")
			failed = true
		}
	}
	sym.Assert(len(s.got) <= len(want), "extra data sent")
	sym.Assert(sym.EqB(s.got, want[:len(s.got)]), "delivered data is not a prefix")
}

func ZlibLarge() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	var log []zop
	two := sym.Choose("sections", 2) == 1
	for sec := 0; sec < 2; sec++ {
		b := []byte("z|")
		sym.Assert(w.WriteLine(b) == nil, "line refused")
		log = append(log, zop{0, b})
		lvl := zlib.DefaultCompression
		if sec > 0 && sym.Choose("level", 2) == 1 {
			lvl = zlib.BestSpeed
		}
		sym.Assert(w.EnableZlibLevel(lvl) == nil, "compression not enabled")
		log = append(log, zop{kind: 2})
		for i := 0; i < 2-sec; i++ {
			n := [...]int{1, 2048, 9000, 33000}[sym.Choose("len", sym.Bound(3, 4)-sec)]
			if sym.Choose("raw", 2) == 1 {
				b = filler(n, false)
				m, err := w.Write(b)
				sym.Assert(err == nil && m == n, "raw write refused")
				log = append(log, zop{1, b})
			} else {
				b = filler(n, true)
				sym.Assert(w.WriteLine(b) == nil, "line refused")
				log = append(log, zop{0, b})
			}
		}
		if sym.Choose("flush", 2) == 1 {
			sym.Assert(w.Flush() == nil, "flush failed")
		}
		sym.Assert(w.DisableZlib() == nil, "compression not disabled")
		b = filler(2, true)
		sym.Assert(w.WriteLine(b) == nil, "line refused")
		log = append(log, zop{0, b})
		if !two {
			break
		}
	}
	sym.Assert(w.Close() == nil, "close failed")
	r := lineproto.NewReader(&splitAt{data: s.got, at: [...]int{0, 3, 2047}[sym.Choose("first", 3)], end: io.EOF}, '|')
	r.SetMaxLine(0)
	for _, o := range log {
		switch o.kind {
		case 0:
			l, err := r.ReadLine()
			sym.Assert(err == nil, "line lost")
			sym.Assert(sym.EqB(l, o.data), "line differs")
		case 1:
			b := make([]byte, len(o.data))
			n, err := io.ReadFull(r, b)
			sym.Assert(err == nil && n == len(b), "data lost")
			sym.Assert(sym.EqB(b, o.data), "data differs")
		case 2:
			sym.Assert(r.EnableZlib() == nil, "decompression refused")
		}
	}
	l, err := r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "extra data")
}
