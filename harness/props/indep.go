package props

import (
	"bytes"
	"io"

	"golang.org/x/text/encoding"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/sym"
)

func init() {
	sym.Register("C40", sym.Both, IndepConns, "two connections out of 12 kinds (reader, writer, transcoding reader, transcoding writer of NMDC; reader and writer of ADC; compressing writer and decompressing reader; tree hash; encoding and decoding of single values) with two messages each (10 NMDC, 19 ADC messages) with an arbitrary character: while the first is at any call of its transport, hook, text encoding or custom field, the second does one (thorough: or two) of its operations (the rest before or afterwards); both give and keep the results they give alone")
}

// stepCharset is a text encoding in which something else happens.
type stepCharset struct {
	charset
	step func()
}

func (c *stepCharset) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	c.step()
	n, m, err := c.charset.Transform(dst, src, atEOF)
	c.step()
	return n, m, err
}

// stepSource is a transport in whose calls something else happens.
type stepSource struct {
	data []byte
	cut  int
	step func()
}

func (s *stepSource) Read(p []byte) (int, error) {
	s.step()
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.data)
	if n > s.cut {
		n = s.cut
	}
	s.data = s.data[n:]
	return n, nil
}

type stepSink struct {
	buf  bytes.Buffer
	step func()
}

func (s *stepSink) Write(p []byte) (int, error) {
	if len(p) > 1 {
		s.buf.Write(p[:1])
		s.step()
		s.buf.Write(p[1:])
		return len(p), nil
	}
	s.step()
	s.buf.Write(p)
	return len(p), nil
}

// stepMsg is a command in whose encoding and decoding something else happens.
type stepMsg struct {
	A, B nmdc.String
	step func()
}

func (*stepMsg) Type() string { return "VerifStep" }
func (m *stepMsg) MarshalNMDC(enc *nmdc.TextEncoder, buf *bytes.Buffer) error {
	if err := m.A.MarshalNMDC(enc, buf); err != nil {
		return err
	}
	buf.WriteByte(' ')
	m.step()
	return m.B.MarshalNMDC(enc, buf)
}
func (m *stepMsg) UnmarshalNMDC(dec *nmdc.TextDecoder, data []byte) error {
	i := bytes.IndexByte(data, ' ')
	if i < 0 {
		return io.ErrUnexpectedEOF
	}
	if err := m.A.UnmarshalNMDC(dec, data[:i]); err != nil {
		return err
	}
	m.step()
	return m.B.UnmarshalNMDC(dec, data[i+1:])
}

// stepField is a field of an ADC message in whose encoding and decoding
// something else happens.
type stepField struct{ s adc.String }

// fieldStep is what happens, for the connection that is running.
var fieldStep func()

func (f stepField) MarshalADC(buf *bytes.Buffer) error {
	fieldStep()
	if err := f.s.MarshalADC(buf); err != nil {
		return err
	}
	fieldStep()
	return nil
}
func (f *stepField) UnmarshalADC(data []byte) error {
	fieldStep()
	err := f.s.UnmarshalADC(data)
	fieldStep()
	return err
}

type stepAdc struct {
	A string    `adc:"#"`
	F stepField `adc:"FF"`
	B string    `adc:"BB"`
}

func (stepAdc) Cmd() adc.MsgType { return adc.MsgType{'V', 'S', 'T'} }

// indepConn is a connection: operations and their results.
type indepConn struct {
	ops []func() interface{}
}

// indepSpec is what a connection does, chosen once and run twice.
type indepSpec struct {
	kind, k, cut int
	txt          string
}

const indepKinds = 12

func (s indepSpec) messages() (nmdc.Message, nmdc.Message) {
	return sessMessage(s.k%10, s.txt), sessMessage(0, "y"+s.txt)
}

func (s indepSpec) packets() (adc.Packet, adc.Packet) {
	sm := adcSamples[s.k]
	m, err := adc.UnmarshalMessage(msgType(sm.name), []byte(sm.payload))
	sym.Assert(err == nil, "sample refused")
	if s.k == 0 {
		m = stepAdc{A: "x" + s.txt, F: stepField{s: adc.String("f " + s.txt)}, B: "y"}
	}
	from, to := adc.SID{'A', 'A', 'A', 'B'}, adc.SID{'C', 'C', 'C', 'D'}
	return newPacket('D', from, to, adc.CID{}, nil, m), newPacket('B', from, to, adc.CID{}, nil, adc.ChatMessage{Text: "y" + s.txt})
}

func (s indepSpec) open(step func()) *indepConn {
	c := &indepConn{}
	add := func(f func() interface{}) { c.ops = append(c.ops, f) }
	write := func(dst *stepSink, f func() error) {
		add(func() interface{} {
			if err := f(); err != nil {
				return err.Error()
			}
			return append([]byte(nil), dst.buf.Bytes()...)
		})
	}
	must := func(b []byte, err error) []byte {
		sym.Assert(err == nil, "sample message refused")
		return b
	}
	switch s.kind {
	case 0, 1, 2: // NMDC reader
		m1, m2 := s.messages()
		data := append(must(nmdc.Marshal(nil, m1)), must(nmdc.Marshal(nil, m2))...)
		if s.kind == 1 {
			data = append(must(nmdc.Marshal(charsetEncoder(), m1)), must(nmdc.Marshal(charsetEncoder(), m2))...)
		}
		r := nmdc.NewReader(&stepSource{data: data, cut: s.cut, step: step})
		if s.kind == 1 {
			r.SetDecoder(&encoding.Decoder{Transformer: &stepCharset{charset{}, step}})
		}
		if s.kind == 2 {
			r.OnLine(func(line []byte) (bool, error) { step(); return true, nil })
			r.OnRawMessage(func(cmd, args []byte) (bool, error) { step(); return true, nil })
			r.OnMessage(func(m nmdc.Message) (bool, error) { step(); return true, nil })
		}
		for i := 0; i < 3; i++ {
			add(func() interface{} {
				m, err := r.ReadMsg()
				if err != nil {
					return err.Error()
				}
				return m
			})
		}
	case 3, 4, 5: // NMDC writer
		m1, m2 := s.messages()
		dst := &stepSink{step: step}
		w := nmdc.NewWriter(dst)
		if s.kind == 4 {
			w.SetEncoder(&encoding.Encoder{Transformer: &stepCharset{charset{enc: true}, step}})
		}
		if s.kind == 5 {
			w.OnMessage(func(m nmdc.Message) (bool, error) { step(); return true, nil })
			w.OnLine(func(line []byte) (bool, error) { step(); return true, nil })
		}
		write(dst, func() error { return w.WriteMsg(m1, m2) })
		write(dst, func() error { return w.WriteMsg(&stepMsg{nmdc.String("p" + s.txt), nmdc.String("q$" + s.txt), step}) })
		write(dst, w.Flush)
	case 6: // ADC reader
		p1, p2 := s.packets()
		fieldStep = func() {}
		buf := bytes.NewBuffer(nil)
		sym.Assert(p1.MarshalPacketADC(buf) == nil && p2.MarshalPacketADC(buf) == nil, "sample packet refused")
		r := adc.NewReader(&stepSource{data: buf.Bytes(), cut: s.cut, step: step})
		r.OnLine(func(line []byte) (bool, error) { step(); return true, nil })
		for i := 0; i < 3; i++ {
			add(func() interface{} {
				fieldStep = step
				p, err := r.ReadPacket()
				if err != nil {
					return err.Error()
				}
				if raw, ok := p.Message().(*adc.RawMessage); ok && raw.Type == (stepAdc{}).Cmd() {
					var m stepAdc
					if err := p.DecodeMessageTo(&m); err != nil {
						return err.Error()
					}
					p.SetMessage(m)
				}
				return p
			})
		}
	case 7: // ADC writer
		p1, p2 := s.packets()
		dst := &stepSink{step: step}
		w := adc.NewWriter(dst)
		for _, p := range []adc.Packet{p1, p2} {
			p := p
			write(dst, func() error { fieldStep = step; return w.WritePacket(p) })
		}
		write(dst, w.Flush)
	case 8: // lines, some of them compressed
		dst := &stepSink{step: step}
		w := lineproto.NewWriter(dst)
		write(dst, func() error { return w.WriteLine([]byte("a" + s.txt + "|")) })
		write(dst, w.EnableZlib)
		write(dst, func() error { return w.WriteLine([]byte("b" + s.txt + "|")) })
		write(dst, w.DisableZlib)
		write(dst, w.EnableZlib)
		write(dst, func() error { return w.WriteLine([]byte("c" + s.txt + "|")) })
		write(dst, w.DisableZlib)
	case 9:
		dst := &stepSink{step: func() {}}
		w := lineproto.NewWriter(dst)
		sym.Assert(w.WriteLine([]byte("a"+s.txt+"|")) == nil && w.EnableZlib() == nil && w.WriteLine([]byte("b"+s.txt+"|")) == nil && w.DisableZlib() == nil && w.WriteLine([]byte("c"+s.txt+"|")) == nil && w.Flush() == nil, "line refused")
		r := lineproto.NewReader(&stepSource{data: dst.buf.Bytes(), cut: s.cut, step: step}, '|')
		line := func() interface{} {
			l, err := r.ReadLine()
			if err != nil {
				return err.Error()
			}
			return append([]byte(nil), l...)
		}
		add(line)
		add(func() interface{} { return r.EnableZlib() == nil })
		add(line)
		add(line)
	case 10: // tree hash
		data := make([]byte, 1500)
		copy(data, s.txt)
		for i := 0; i < 2; i++ {
			add(func() interface{} {
				h, err := tiger.TreeHash(&stepSource{data: data, cut: 700, step: step})
				if err != nil {
					return err.Error()
				}
				return h.String()
			})
		}
	case 11: // values
		var fs adc.ExtFeatures
		add(func() interface{} { return nmdc.UnescapeBytes([]byte("&#36;" + s.txt + "&amp;")) })
		add(func() interface{} {
			lock := nmdc.Lock{Lock: "abc" + s.txt, PK: "p"}
			return lock.Key().Key
		})
		add(func() interface{} {
			err := fs.UnmarshalADC([]byte("TCP4,SEGA"))
			if err != nil {
				return err.Error()
			}
			return fs
		})
		add(func() interface{} { return adc.MustMarshal(adc.ChatMessage{Text: "a b" + s.txt}) })
	}
	return c
}

func IndepConns() {
	spec := func(name string, k int) indepSpec {
		c := sym.ByteRange(name, 'a', 'z')
		return indepSpec{k: k, txt: string([]byte{c, '&'}), cut: 7}
	}
	a := spec("a", 0)
	a.kind = sym.Choose("first", indepKinds)
	switch a.kind {
	case 0, 1, 2, 3, 4, 5:
		a.k = sym.Choose("message", 10)
	case 6, 7:
		a.k = sym.Choose("message", len(adcSamples))
	}
	b := spec("b", 0)
	b.kind = sym.Choose("second", indepKinds)
	switch b.kind {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		b.k = [...]int{a.k, 3, 0}[sym.Choose("other message", sym.Bound(2, 3))]
		if b.kind < 6 {
			b.k %= 10
		}
	}
	if sym.Thorough() {
		a.cut = [...]int{7, 1}[sym.Choose("pieces", 2)]
	}
	alone := func(s indepSpec, step func()) (res, was []interface{}) {
		for _, op := range s.open(step).ops {
			r := op()
			// as given, and as it was then
			res, was = append(res, r), append(was, sym.Clone(r))
		}
		return
	}
	_, bwant := alone(b, func() {})
	points := 0
	_, awant := alone(a, func() { points++ })
	when := sym.Choose("when", points+1)
	first := sym.Choose("before", 2)
	many := 1 + sym.Choose("many", sym.Bound(1, 2))
	cb := b.open(func() {})
	var bres []interface{}
	next := func(n int) {
		for ; n > 0 && len(bres) < len(cb.ops); n-- {
			keep := fieldStep
			bres = append(bres, cb.ops[len(bres)]())
			fieldStep = keep
		}
	}
	next(first)
	at := 0
	ares, _ := alone(a, func() {
		if at == when {
			at++ // not again in its own operations
			next(many)
			return
		}
		at++
	})
	next(100)
	sym.Assert(len(ares) == len(awant) && len(bres) == len(bwant), "number of results")
	for i := range ares {
		sym.Assert(sym.Same(ares[i], awant[i]), "another connection changed the result")
	}
	for i := range bres {
		sym.Assert(sym.Same(bres[i], bwant[i]), "another connection changed the result")
	}
	sym.Reach("same")
}
