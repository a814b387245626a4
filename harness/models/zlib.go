// Package models holds stubs that stand for code outside of go-dc during the
// symbolic runs. The engine substitutes them (see engine/load.go); the native
// replay uses the real packages.
package models

import (
	"bufio"
	"compress/flate"
	"compress/zlib"
	"errors"
	"io"
)

// The model codec keeps what the callers of compress/zlib can observe:
//   - the header is written with the first Write, Flush or Close;
//   - data may be held back until Flush or Close;
//   - a decompressor consumes exactly the bytes of its stream when its source
//     is an io.ByteReader, and reads ahead through a bufio.Reader otherwise;
//   - the last data may be delivered together with io.EOF;
//   - errors are sticky, an unfinished stream is io.ErrUnexpectedEOF.
const (
	zhdr0, zhdr1 = 0x78, 0x9c
	zend         = 0x00
	zsync        = 0xff
	zwindow      = 6
)

type zwriter struct {
	w    io.Writer
	hdr  bool
	pend []byte
	err  error
}

var zwriters = map[*zlib.Writer]*zwriter{}

func ZlibNewWriter(w io.Writer) *zlib.Writer {
	z, _ := ZlibNewWriterLevel(w, zlib.DefaultCompression)
	return z
}

func ZlibNewWriterLevel(w io.Writer, level int) (*zlib.Writer, error) {
	if level < zlib.HuffmanOnly || level > zlib.BestCompression {
		return nil, errors.New("zlib: invalid compression level")
	}
	z := new(zlib.Writer)
	zwriters[z] = &zwriter{w: w}
	return z, nil
}

func ZlibWriterReset(z *zlib.Writer, w io.Writer) {
	zwriters[z] = &zwriter{w: w}
}

func (s *zwriter) emit(b []byte) {
	if s.err != nil {
		return
	}
	n, err := s.w.Write(b)
	if err == nil && n != len(b) {
		err = io.ErrShortWrite
	}
	s.err = err
}

func (s *zwriter) header() {
	if !s.hdr {
		s.hdr = true
		s.emit([]byte{zhdr0, zhdr1})
	}
}

func (s *zwriter) drain() {
	if len(s.pend) > 0 {
		b := append([]byte{byte(len(s.pend))}, s.pend...)
		s.pend = nil
		s.emit(b)
	}
}

func ZlibWriterWrite(z *zlib.Writer, p []byte) (int, error) {
	s := zwriters[z]
	s.header()
	if s.err != nil {
		return 0, s.err
	}
	for _, c := range p {
		s.pend = append(s.pend, c)
		if len(s.pend) >= zwindow {
			s.drain()
		}
	}
	if s.err != nil {
		return 0, s.err
	}
	return len(p), nil
}

func ZlibWriterFlush(z *zlib.Writer) error {
	s := zwriters[z]
	s.header()
	s.drain()
	s.emit([]byte{zsync})
	return s.err
}

func ZlibWriterClose(z *zlib.Writer) error {
	s := zwriters[z]
	s.header()
	s.drain()
	s.emit([]byte{zend})
	s.emit([]byte{1, 2, 3, 4})
	return s.err
}

type zreader struct {
	r      flate.Reader
	held   []byte
	toRead []byte
	final  bool
	err    error
}

func ZlibNewReader(r io.Reader) (io.ReadCloser, error) {
	z := new(zreader)
	if err := z.Reset(r, nil); err != nil {
		return nil, err
	}
	return z, nil
}

func (z *zreader) Reset(r io.Reader, dict []byte) error {
	*z = zreader{}
	if fr, ok := r.(flate.Reader); ok {
		z.r = fr
	} else {
		z.r = bufio.NewReader(r)
	}
	var h [2]byte
	if _, z.err = io.ReadFull(z.r, h[:]); z.err != nil {
		if z.err == io.EOF {
			z.err = io.ErrUnexpectedEOF
		}
		return z.err
	}
	if h[0] != zhdr0 || h[1] != zhdr1 {
		z.err = zlib.ErrHeader
		return z.err
	}
	return nil
}

func (z *zreader) byte() byte {
	b, err := z.r.ReadByte()
	if err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		z.err = err
	}
	return b
}

func (z *zreader) Read(p []byte) (int, error) {
	if z.err != nil {
		return 0, z.err
	}
	for len(z.toRead) == 0 && !z.final {
		n := z.byte()
		if z.err != nil {
			return 0, z.err
		}
		switch {
		case n == zend:
			z.final = true
			z.toRead, z.held = z.held, nil
		case n == zsync:
			z.toRead, z.held = z.held, nil
		case n > zwindow:
			z.err = flate.CorruptInputError(0)
			return 0, z.err
		default:
			for i := 0; i < int(n); i++ {
				c := z.byte()
				if z.err != nil {
					return 0, z.err
				}
				z.held = append(z.held, c)
			}
			if len(z.held) >= 2*zwindow {
				z.toRead, z.held = z.held, nil
			}
		}
	}
	n := copy(p, z.toRead)
	z.toRead = z.toRead[n:]
	if len(z.toRead) > 0 || !z.final {
		return n, nil
	}
	var t [4]byte
	if _, err := io.ReadFull(z.r, t[:]); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		z.err = err
		return n, z.err
	}
	if t != [4]byte{1, 2, 3, 4} {
		z.err = zlib.ErrChecksum
		return n, z.err
	}
	z.err = io.EOF
	return n, io.EOF
}

func (z *zreader) Close() error {
	if z.err != nil && z.err != io.EOF {
		return z.err
	}
	return nil
}
