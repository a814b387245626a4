package props

import (
	"errors"
	"io"

	"github.com/direct-connect/go-dc/lineproto"

	"verif/harness/sym"
)

func init() {
	sym.Register("C01", sym.Both, LinesSmall, "streams of 0..5 (thorough 0..7) arbitrary bytes, arbitrary delimiter, every split into reads, at most one empty read, data alone or together with EOF")
	sym.Register("C01", sym.Both, LinesBoundary, "streams up to 4104 bytes whose bytes at 2044..2051 and 4092..4103 are arbitrary (filler elsewhere), reads of full size or split near the 2048-byte buffer")
	sym.Register("C02", sym.Both, MaxLine, "limits 1..6, streams of 0..7 (thorough 0..9) arbitrary bytes, every split into reads")
	sym.Register("C02", sym.Both, MaxLineDefault, "default limit 32768: one line of 32760..32776 bytes, read sizes 1..2048 at the end")
	sym.Register("C02", sym.Both, MaxLineCompressed, "limits 1..6, 2048 and 4096; a line of the limit -3..+3 bytes that starts in a compressed section and ends behind it, cut at every position (a large one: at its ends and in the middle), alone or behind another one, first read of any of 9 sizes")
	sym.Register("C02", sym.Both, MaxLineEndless, "a peer that never sends the delimiter but any other byte, in pieces of 1000 bytes, alone or after a part of the line that was compressed: refused after the limit (20000, 100000 or the default) plus at most 16384 bytes were taken from it")
	sym.Register("C03", sym.Both, LineHooks, "up to 3 hooks with arbitrary verdicts on up to 4 lines, every split into two reads")
	sym.Register("C05", sym.Both, BinarySection, "streams of 2..7 (thorough 2..9) arbitrary bytes, arbitrary section size and 64-bit size, arbitrary partial consumption, every split into reads")
	sym.Register("C01", sym.Both, LinesLarge, "two lines of up to 70000 bytes (around 2048, 8192, 32768, 65536) with the limit lifted (0 or negative) or raised, first read of any listed size; two arbitrary bytes per line")
	sym.Register("C02", sym.Both, MaxLineSet, "limits from 2040 to 70000 set before or after the first line, lines of the limit -1, exactly the limit, +1, several times the limit; the default limit lifted (0 or negative) with lines of 32767 to 70000 bytes")
	sym.Register("C05", sym.Both, BinaryLarge, "section sizes around 8192, 32768, 65536 and 200000 bytes, partial consumption of 0, 1, half, all but one or all, through one or several reads; next line and next section right behind")
	sym.Register("C05", sym.Both, BinaryCompressed, "section inside of a compressed stream, behind a compressed line: arbitrary contents, every size, every partial consumption, every split of the plain transport into a first read")
	sym.Register("C05", sym.Both, BinaryBoundary, "line, section and line around the 2048-byte buffer boundary, section sizes 0..4200 around multiples of it")
}

// chunked delivers data in arbitrary pieces.
type chunked struct {
	data    []byte
	empty   int  // empty reads still allowed
	eofWith bool // the last piece may come with io.EOF
	end     error
	exact   bool // whole buffer at a time
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.end
	}
	max := len(c.data)
	if max > len(p) {
		max = len(p)
	}
	if max == 0 {
		return 0, nil
	}
	n := max
	if !c.exact {
		if c.empty > 0 {
			n = sym.Choose("chunk", max+1)
			if n == 0 {
				c.empty--
				return 0, nil
			}
		} else {
			n = 1 + sym.Choose("chunk", max)
		}
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eofWith && sym.Bool("eofWith") {
		return n, c.end
	}
	return n, nil
}

// expectLines reads everything from r and compares it with the reference split.
func expectLines(r *lineproto.Reader, data []byte, d byte, end error) {
	start := 0
	for i := 0; i < len(data); i++ {
		if data[i] != d {
			continue
		}
		line, err := r.ReadLine()
		sym.Assert(err == nil, "complete line not delivered")
		sym.Assert(sym.EqB(line, data[start:i+1]), "line differs from the stream")
		start = i + 1
		sym.Reach("line")
	}
	line, err := r.ReadLine()
	sym.Assert(err != nil, "line delivered without its delimiter")
	sym.Assert(err == end, "transport error lost")
	if start == len(data) {
		sym.Assert(len(line) == 0, "data invented at the end of the stream")
	}
	sym.Observe("rest", line)
}

func LinesSmall() {
	n := sym.Choose("n", sym.Bound(5, 7)+1)
	data := sym.Bytes("b", n)
	d := sym.Byte("delim")
	c := &chunked{data: data, empty: 1, eofWith: true, end: io.EOF}
	if sym.Bool("broken") {
		c.end = errors.New("transport failed")
	}
	expectLines(lineproto.NewReader(c, d), data, d, c.end)
}

func LinesBoundary() {
	total := 4086 + sym.Choose("total", 4)*6
	data := make([]byte, total)
	for i := range data {
		data[i] = 'a' + byte(i%17)
	}
	k := sym.Choose("at", 3)
	lo, hi := 2045, 2051
	if k == 1 {
		lo, hi = 4092, 4099
	}
	if k == 2 {
		lo, hi = 2047, 2050
		for i := 4095; i < 4098 && i < total; i++ {
			data[i] = sym.Byte("b")
		}
	}
	for i := lo; i < hi && i < total; i++ {
		data[i] = sym.Byte("b")
	}
	c := &splitAt{data: data, at: 2040 + sym.Choose("split", 12), end: io.EOF}
	expectLines(lineproto.NewReader(c, '|'), data, '|', io.EOF)
}

// splitAt delivers data in one short piece first and full buffers afterwards.
type splitAt struct {
	data []byte
	at   int
	end  error
}

func (c *splitAt) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.end
	}
	n := len(c.data)
	if n > len(p) {
		n = len(p)
	}
	if c.at > 0 && n > c.at {
		n = c.at
	}
	c.at = 0
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func MaxLine() {
	n := sym.Choose("n", sym.Bound(7, 9)+1)
	data := sym.Bytes("b", n)
	max := 1 + sym.Choose("max", 6)
	r := lineproto.NewReader(&chunked{data: data, end: io.EOF}, '|')
	r.SetMaxLine(max)
	if sym.Choose("hook", 2) == 1 {
		r.OnLine(func(line []byte) (bool, error) {
			sym.Assert(len(line) <= max, "over-long line handed to a hook")
			return true, nil
		})
	}
	start := 0
	for i := 0; i < n; i++ {
		if data[i] != '|' {
			continue
		}
		line, err := r.ReadLine()
		if i+1-start > max {
			sym.Assert(err != nil, "over-long line accepted")
			sym.Assert(err != io.EOF, "over-long line reported as end of stream")
			sym.Assert(len(line) <= max, "over-long line handed out")
			sym.Reach("long")
			return
		}
		sym.Assert(err == nil, "line within the limit rejected")
		sym.Assert(sym.EqB(line, data[start:i+1]), "line within the limit differs")
		sym.Reach("short")
		start = i + 1
	}
	_, err := r.ReadLine()
	sym.Assert(err != nil, "line without delimiter accepted")
	if n-start > max {
		sym.Assert(err != io.EOF, "over-long unfinished line not rejected")
	}
}

func MaxLineDefault() {
	n := 32760 + sym.Choose("n", 17)
	data := make([]byte, n+2)
	for i := range data {
		data[i] = 'x'
	}
	data[n-1] = '|'
	data[n+1] = '|'
	first := 1 + sym.Choose("first", 40)*51
	r := lineproto.NewReader(&splitAt{data: data, at: first, end: io.EOF}, '|')
	line, err := r.ReadLine()
	if n > 32768 {
		sym.Assert(err != nil, "line above the default limit accepted")
		sym.Reach("long")
		return
	}
	sym.Assert(err == nil && len(line) == n, "line within the default limit rejected")
	line, err = r.ReadLine()
	sym.Assert(err == nil && string(line) == "x|", "next line damaged")
}

var errHook = errors.New("hook failed")

func LineHooks() {
	nl := 1 + sym.Choose("lines", sym.Bound(3, 4))
	nh := 1 + sym.Choose("hooks", 3)
	type call struct {
		hook int
		line string
	}
	var log, want []call
	var verdict [][]int
	r := lineproto.NewReader(nil, '|')
	_ = r
	lines := make([]string, nl)
	var data []byte
	for i := range lines {
		lines[i] = sym.StringIn("l", sym.Choose("ll", 3), 'a', 'z') + "|"
		data = append(data, lines[i]...)
	}
	cut := sym.Choose("cut", len(data)+1)
	if cut == len(data) {
		cut = 0
	}
	r = lineproto.NewReader(&splitAt{data: data, at: cut, end: io.EOF}, '|')
	cur := 0
	for h := 0; h < nh; h++ {
		h := h
		r.OnLine(func(line []byte) (bool, error) {
			log = append(log, call{h, string(line)})
			v := 0
			if cur < len(verdict) {
				v = verdict[cur][h]
			}
			if h == nh-1 || v != 0 {
				cur++
			}
			switch v {
			case 1:
				return false, nil
			case 2:
				return sym.Bool("okerr"), errHook
			}
			return true, nil
		})
	}
	// verdicts: 0 pass, 1 drop, 2 fail
	for range lines {
		v := make([]int, nh)
		k := sym.Choose("verdict", 1+2*nh)
		if k > 0 {
			v[(k-1)/2] = 1 + (k-1)%2
		}
		verdict = append(verdict, v)
	}
	for i, l := range lines {
		failed, dropped := false, false
		for h := 0; h < nh; h++ {
			want = append(want, call{h, l})
			if verdict[i][h] == 1 {
				dropped = true
				break
			}
			if verdict[i][h] == 2 {
				failed = true
				break
			}
		}
		if dropped {
			continue
		}
		got, err := r.ReadLine()
		if failed {
			sym.Assert(err == errHook, "hook error not returned")
			sym.Reach("fail")
			continue
		}
		sym.Assert(err == nil, "accepted line not delivered")
		sym.Assert(string(got) == l, "wrong line delivered")
		sym.Reach("pass")
	}
	got, err := r.ReadLine()
	sym.Assert(err == io.EOF, "no end of stream")
	sym.Assert(len(got) == 0, "dropped line delivered with the end of stream")
	sym.Assert(len(log) == len(want), "number of hook calls")
	for i := range want {
		sym.Assert(log[i].hook == want[i].hook, "hook order")
		sym.Assert(log[i].line == want[i].line, "hook saw a different line")
	}
}

// readSome reads up to k bytes from r in one or several calls.
func readSome(r io.Reader, k int) ([]byte, error) {
	out := make([]byte, 0, k)
	for len(out) < k {
		buf := make([]byte, k-len(out))
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			return out, err
		}
	}
	return out, nil
}

func BinarySection() {
	n := 2 + sym.Choose("n", sym.Bound(6, 8))
	data := sym.Bytes("b", n)
	c := &chunked{data: data, empty: 1, end: io.EOF}
	r := lineproto.NewReader(c, '|')
	p := 0
	if sym.Choose("prefix", 2) == 1 {
		data[1] = '|'
		sym.Assume(data[0] != '|')
		l, err := r.ReadLine()
		sym.Assert(err == nil && sym.EqB(l, data[:2]), "line before the section")
		p = 2
	}
	sz := sym.Uint64("size")
	left := n - p
	if sz > uint64(left) {
		// the stream ends inside of the section
		b, err := r.Binary(sz)
		if err != nil {
			return
		}
		got, err := readSome(b, left+1)
		sym.Assert(err == io.EOF || err == io.ErrUnexpectedEOF, "section longer than the stream")
		sym.Assert(sym.EqB(got, data[p:]), "section bytes before the end of the stream")
		sym.Reach("truncated")
		return
	}
	k := sym.Fork(int(sz))
	b, err := r.Binary(sz)
	sym.Assert(err == nil, "section refused")
	part := sym.Choose("part", k+2)
	got, err := readSome(b, part)
	if part <= k {
		sym.Assert(err == nil || len(got) == part, "section read failed")
		sym.Assert(sym.EqB(got, data[p:p+part]), "section bytes")
	} else {
		sym.Assert(err == io.EOF, "section does not end")
		sym.Assert(sym.EqB(got, data[p:p+k]), "section bytes")
	}
	sym.Assert(b.Close() == nil, "section close failed")
	rest := data[p+k:]
	for i := 0; i < len(rest); i++ {
		if rest[i] == '|' {
			l, err := r.ReadLine()
			sym.Assert(err == nil, "line after the section missing")
			sym.Assert(sym.EqB(l, rest[:i+1]), "line after the section differs")
			sym.Reach("after")
			return
		}
	}
	_, err = r.ReadLine()
	sym.Assert(err == io.EOF, "unfinished line after the section accepted")
}

func BinaryBoundary() {
	l1 := 2 + sym.Choose("l1", 4)*2044/3
	sz := [...]int{0, 1, 2040, 2047, 2048, 2049, 4090, 4096, 4200}[sym.Choose("size", 9)]
	var data []byte
	for i := 0; i < l1; i++ {
		data = append(data, 'a'+byte(i%13))
	}
	data = append(data, '|')
	p := len(data)
	for i := 0; i < sz; i++ {
		c := byte(i)
		if i < 2 || i+2 >= sz {
			c = sym.Byte("s")
		}
		data = append(data, c)
	}
	data = append(data, "next|more|"...)
	r := lineproto.NewReader(&splitAt{data: data, at: [...]int{0, 1, l1, l1 + 1, l1 + 2, 2047}[sym.Choose("split", 6)], end: io.EOF}, '|')
	l, err := r.ReadLine()
	sym.Assert(err == nil && string(l) == string(data[:p]), "line before the section")
	b, err := r.Binary(uint64(sz))
	sym.Assert(err == nil, "section refused")
	part := [...]int{0, 1, sz / 2, sz}[sym.Choose("part", 4)]
	if part > sz {
		part = sz
	}
	got := make([]byte, part)
	m, err := io.ReadFull(b, got)
	sym.Assert(err == nil && m == part, "section read failed")
	sym.Assert(sym.EqB(got, data[p:p+part]), "section bytes")
	sym.Assert(b.Close() == nil, "section close failed")
	l, err = r.ReadLine()
	sym.Assert(err == nil && string(l) == "next|", "line after the section")
	l, err = r.ReadLine()
	sym.Assert(err == nil && string(l) == "more|", "second line after the section")
}

// filler returns n bytes without the delimiter, the first and the last arbitrary.
func filler(n int, line bool) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	if n > 1 {
		b[0], b[n-1] = sym.Byte("f"), sym.Byte("f")
		if line {
			sym.Assume(sym.And(b[0] != '|', b[n-1] != '|'))
		}
	}
	if line {
		b = append(b, '|')
	}
	return b
}

var largeSizes = [...]int{2047, 2048, 4096, 8191, 8193, 32766, 32767, 32768, 65535, 65537, 70000}

func LinesLarge() {
	n := largeSizes[sym.Choose("size", len(largeSizes))]
	l0, l1 := filler(n, true), filler(3, true)
	data := append(append(append([]byte(nil), l0...), l1...), l0...)
	r := lineproto.NewReader(&splitAt{data: data, at: [...]int{0, 1, 2047, 1500}[sym.Choose("first", 4)], end: io.EOF}, '|')
	r.SetMaxLine([...]int{0, -1, 1 << 20, n + 1}[sym.Choose("max", 4)])
	for _, want := range [][]byte{l0, l1, l0} {
		l, err := r.ReadLine()
		sym.Assert(err == nil, "complete line not delivered")
		sym.Assert(sym.EqB(l, want), "line differs from the stream")
	}
	l, err := r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "no end of stream")
}

func MaxLineSet() {
	set := [...]int{2040, 2047, 2048, 2049, 4096, 5000, 32768, 70000, 0, -1}[sym.Choose("max", 10)]
	max := set
	if set <= 0 {
		max = 80000 // no limit: longer than the lines used here
	}
	var n int // length with the delimiter
	if set <= 0 {
		n = [...]int{32767, 32768, 32769, 40000, 70000}[sym.Choose("len", 5)]
	} else {
		switch sym.Choose("len", 5) {
		case 0:
			n = max - 1
		case 1:
			n = max
		case 2:
			n = max + 1
		case 3:
			n = max + 2048
		case 4:
			n = 3 * max
		}
	}
	l0, l1 := filler(1, true), filler(n-1, true)
	data := append(append([]byte(nil), l0...), l1...)
	if sym.Choose("terminated", 2) == 0 {
		data = data[:len(data)-1]
	}
	end := len(data) == len(l0)+len(l1)
	r := lineproto.NewReader(&splitAt{data: data, at: [...]int{0, 1, 3, 2047, 1500}[sym.Choose("first", 5)], end: io.EOF}, '|')
	late := sym.Choose("late", 2) == 1
	if !late {
		r.SetMaxLine(set)
	}
	l, err := r.ReadLine()
	sym.Assert(err == nil && sym.EqB(l, l0), "line within the limit rejected")
	if late {
		r.SetMaxLine(set)
	}
	l, err = r.ReadLine()
	if n <= max && end {
		sym.Assert(err == nil, "line within the limit rejected")
		sym.Assert(sym.EqB(l, l1), "line within the limit differs")
		sym.Reach("short")
		return
	}
	if set <= 0 {
		sym.Assert(err != nil, "unfinished line accepted")
		return
	}
	sym.Assert(err != nil, "over-long or unfinished line accepted")
	sym.Assert(len(l) <= max, "over-long line handed out")
	if end || n-1 > max {
		sym.Assert(err != io.EOF, "over-long line reported as end of stream")
		sym.Reach("long")
	}
}

func MaxLineCompressed() {
	max := [...]int{1, 2, 3, 6, 2048, 4096}[sym.Choose("max", 6)]
	n := max - 3 + sym.Choose("over", 7) // with the delimiter
	if n < 1 {
		n = 1
	}
	line := make([]byte, n)
	for i := range line {
		line[i] = 'a' + byte(i%23)
	}
	i := sym.Choose("arbitrary", 2) * (n - 1) / 2
	line[i] = sym.Byte("c")
	sym.Assume(line[i] != '|')
	line[n-1] = '|'
	to := 0
	if n < 16 {
		to = sym.Choose("cut", n+1)
	} else {
		to = [...]int{0, 1, n / 2, n - 1, n}[sym.Choose("cut", 5)]
	}
	before := sym.Choose("before", 2) == 1 // a compressed line before this one
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	raw := func(b []byte) {
		_, err := w.Write(b)
		sym.Assert(err == nil, "raw write refused")
	}
	sym.Assert(w.WriteLine([]byte("|")) == nil, "line refused")
	sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	if before {
		raw([]byte("|"))
	}
	raw(line[:to])
	sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	raw(line[to:])
	raw([]byte("|"))
	sym.Assert(w.Flush() == nil, "flush failed")
	r := lineproto.NewReader(&splitAt{data: s.got, at: sym.Choose("first", 9), end: io.EOF}, '|')
	r.SetMaxLine(max)
	l, err := r.ReadLine()
	sym.Assert(err == nil && len(l) == 1, "first line refused")
	sym.Assert(r.EnableZlib() == nil, "decompression refused")
	if before {
		l, err = r.ReadLine()
		sym.Assert(err == nil && len(l) == 1, "compressed line refused")
	}
	l, err = r.ReadLine()
	if n > max {
		sym.Assert(err != nil, "over-long line accepted")
		sym.Assert(err != io.EOF, "over-long line reported as end of stream")
		sym.Assert(len(l) <= max, "over-long line handed out")
		sym.Reach("long")
		return
	}
	sym.Assert(err == nil, "line within the limit rejected")
	sym.Assert(sym.EqB(l, line), "line within the limit differs")
	l, err = r.ReadLine()
	sym.Assert(err == nil && len(l) == 1, "next line damaged")
	sym.Reach("short")
}

// endless delivers data and then the same byte forever.
type endless struct {
	data []byte
	fill byte
	took int // bytes of the endless part
}

func (e *endless) Read(p []byte) (int, error) {
	if len(e.data) > 0 {
		n := copy(p, e.data)
		e.data = e.data[n:]
		return n, nil
	}
	sym.Assert(e.took < 1000000, "endless line is not refused")
	n := len(p)
	if n > 1000 {
		n = 1000
	}
	for i := 0; i < n; i++ {
		p[i] = e.fill
	}
	e.took += n
	return n, nil
}

func MaxLineEndless() {
	max := [...]int{20000, 100000, 32768}[sym.Choose("max", 3)]
	e := &endless{data: []byte("|"), fill: sym.Byte("fill")}
	sym.Assume(e.fill != '|')
	part := [...]int{-1, 0, 1, max / 2, max - 2048, max - 1}[sym.Choose("compressed", 6)]
	if part >= 0 {
		s := &sink{limit: -1}
		w := lineproto.NewWriter(s)
		sym.Assert(w.WriteLine([]byte("|")) == nil, "line refused")
		sym.Assert(w.EnableZlib() == nil, "compression not enabled")
		_, err := w.Write(filler(part, true)[:part])
		sym.Assert(err == nil, "raw write refused")
		sym.Assert(w.DisableZlib() == nil && w.Flush() == nil, "compression not disabled")
		e.data = s.got
	}
	r := lineproto.NewReader(e, '|')
	if max != 32768 {
		r.SetMaxLine(max)
	}
	l, err := r.ReadLine()
	sym.Assert(err == nil && len(l) == 1, "line refused")
	if part >= 0 {
		sym.Assert(r.EnableZlib() == nil, "decompression refused")
	} else {
		part = 0
	}
	l, err = r.ReadLine()
	sym.Assert(err != nil && err != io.EOF, "endless line accepted")
	sym.Assert(len(l) <= max, "over-long line handed out")
	sym.Assert(e.took <= max-part+16384, "more than the limit was taken from the peer")
	sym.Reach("refused")
}

func BinaryLarge() {
	sz := [...]int{8191, 8192, 8193, 32767, 32768, 32769, 40000, 65535, 65537, 98304, 200000}[sym.Choose("size", 11)]
	body := filler(sz, false)
	data := append([]byte("line|"), body...)
	data = append(data, "next|12more|"...)
	r := lineproto.NewReader(&splitAt{data: data, at: [...]int{0, 1, 5, 6, 2047}[sym.Choose("first", 5)], end: io.EOF}, '|')
	if sym.Choose("maxline", 2) == 1 {
		r.SetMaxLine(16) // the limit is about lines
	}
	l, err := r.ReadLine()
	sym.Assert(err == nil && string(l) == "line|", "line before the section")
	b, err := r.Binary(uint64(sz))
	sym.Assert(err == nil, "section refused")
	part := [...]int{0, 1, 2047, sz / 2, sz - 1, sz}[sym.Choose("part", 6)]
	got := make([]byte, part)
	m, err := io.ReadFull(b, got)
	sym.Assert(err == nil && m == part, "section read failed")
	sym.Assert(sym.EqB(got, body[:part]), "section bytes")
	if part == sz {
		m, err = b.Read(make([]byte, 10))
		sym.Assert(m == 0 && err == io.EOF, "section does not end")
	}
	sym.Assert(b.Close() == nil, "section close failed")
	l, err = r.ReadLine()
	sym.Assert(err == nil && string(l) == "next|", "line after the section")
	b, err = r.Binary(2)
	sym.Assert(err == nil, "section refused")
	got, err = readSome(b, 3)
	sym.Assert(err == io.EOF && string(got) == "12", "second section")
	sym.Assert(b.Close() == nil, "section close failed")
	l, err = r.ReadLine()
	sym.Assert(err == nil && string(l) == "more|", "second line after the section")
}

func BinaryCompressed() {
	s := &sink{limit: -1}
	w := lineproto.NewWriter(s)
	sym.Assert(w.WriteLine([]byte("z|")) == nil, "line refused")
	sym.Assert(w.EnableZlib() == nil, "compression not enabled")
	l1 := filler(2, true)
	sym.Assert(w.WriteLine(l1) == nil, "line refused")
	k := sym.Choose("size", sym.Bound(5, 7))
	if sym.Choose("large", 6) == 1 {
		k = 40000
	}
	body := filler(k, false)
	_, err := w.Write(body)
	sym.Assert(err == nil, "raw write refused")
	inside := sym.Choose("inside", 2) == 1
	if !inside {
		sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	}
	l2 := filler(2, true)
	sym.Assert(w.WriteLine(l2) == nil, "line refused")
	if inside {
		sym.Assert(w.DisableZlib() == nil, "compression not disabled")
	}
	sym.Assert(w.Flush() == nil, "flush failed")
	at := sym.Choose("first", 24)
	if at > len(s.got) {
		at = 0
	}
	r := lineproto.NewReader(&splitAt{data: s.got, at: at, end: io.EOF}, '|')
	l, err := r.ReadLine()
	sym.Assert(err == nil && string(l) == "z|", "line lost")
	sym.Assert(r.EnableZlib() == nil, "decompression refused")
	l, err = r.ReadLine()
	sym.Assert(err == nil && sym.EqB(l, l1), "line before the section")
	b, err := r.Binary(uint64(k))
	sym.Assert(err == nil, "section refused")
	part := k
	if k > 10 {
		part = [...]int{0, 1, k - 1, k}[sym.Choose("part", 4)]
	} else {
		part = sym.Choose("part", k+1)
	}
	got := make([]byte, part)
	m, err := io.ReadFull(b, got)
	sym.Assert(err == nil && m == part, "section read failed")
	sym.Assert(sym.EqB(got, body[:part]), "section bytes")
	sym.Assert(b.Close() == nil, "section close failed")
	l, err = r.ReadLine()
	sym.Assert(err == nil && sym.EqB(l, l2), "line after the section")
	l, err = r.ReadLine()
	sym.Assert(err == io.EOF && len(l) == 0, "extra data")
}
