package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/sym"
)

func init() {
	sym.Register("C30", sym.Both, HashTrip, "all values of 24 bytes: the base32 text (String, Base32, MarshalText, MarshalADC, MarshalBase32) is the 39 digits of the definition, the hexadecimal text is right, and each reader returns the value, over an arbitrary old value")
	sym.Register("C30", sym.Both, HashText, "texts of 39 digits with up to 2 (thorough 3) arbitrary bytes at adjacent positions (or the first and the last), and all texts of 39 bytes without line breaks: every reader accepts exactly the base32 alphabet, the value is the one of the definition")
	sym.Register("C30", sym.Both, HashLength, "texts of 0..45 and 64 digits, line breaks or padding with one arbitrary byte in them: refused unless they are 39 digits")
	sym.Register("C30", sym.Both, HashZero, "all values of 24 bytes: IsZero, Bytes and equality")
	sym.Register("C24", sym.Both, SIDNumbers, "all 20 bit numbers: the session identifier is the four base32 digits of the number; two numbers, two identifiers")
	sym.Register("C24", sym.Both, SIDText, "texts of 0..7 arbitrary bytes: exactly those of 4 bytes are accepted, as they are; the panicking form agrees")
	sym.Register("C24", sym.Both, CIDTrip, "all values of 24 bytes through String, Base32, MarshalText, MarshalADC and back; IsZero; the hash of an identifier is the hash of its bytes")
	sym.Register("C24", sym.Both, CIDText, "texts of 39 digits with up to 2 (thorough 3) arbitrary bytes, all texts of 39 bytes without line breaks, and texts of other lengths: accepted exactly when they are 39 base32 digits; the panicking forms agree")
	sym.Register("C24", sym.Both, SaltText, "salts of a password request from 0..4 (thorough 6) arbitrary bytes and from 8..39 digits with an arbitrary byte among them: an accepted one has only base32 digits and is the value they denote")
}

// SaltText: the salt of a password request is decoded exactly or refused.
func SaltText() {
	var w []byte
	if sym.Choose("long", 2) == 1 {
		n := [...]int{8, 13, 16, 26, 39}[sym.Choose("length", 5)]
		for i := 0; i < n; i++ {
			w = append(w, "QX7AGZB2"[i%8])
		}
		w[[...]int{0, 1, n / 2, n - 2, n - 1}[sym.Choose("at", 5)]] = sym.Byte("byte")
	} else {
		w = []byte(sym.Str("text", sym.Bound(4, 6)))
	}
	sym.None(string(w), "\n")
	m, err := adc.UnmarshalMessage(adc.MsgType{'G', 'P', 'A'}, w)
	if err != nil {
		sym.Reach("refused")
		return
	}
	salt := m.(adc.GetPassword).Salt
	sym.Observe("salt", salt)
	sym.Assert(len(salt) == len(w)*5/8, "length of the salt")
	for i, c := range w {
		d := bits5(salt, i)
		n := len(salt)*8 - 5*i // bits of the digit in the salt; the rest is padding
		switch {
		case n >= 5:
			sym.Assert(isDigit32(c, d), "not the salt its digits denote")
		default:
			ok := false
			k := uint(5)
			if n > 0 {
				k = uint(5 - n)
			}
			for r := uint64(0); r < 1<<k; r++ {
				ok = sym.Or(ok, isDigit32(c, d|r))
			}
			sym.Assert(ok, "not the salt its digits denote")
		}
	}
	sym.Reach("accepted")
}

func anyHash(name string) (h tiger.Hash) {
	copy(h[:], sym.Bytes(name, len(h)))
	return h
}

// isDigit32 relates a byte to the value of a base32 digit.
func isDigit32(c byte, d uint64) bool {
	return sym.Or(sym.And(d < 26, uint64(c) == 'A'+d), sym.And(d >= 26, uint64(c) == '2'+d-26))
}

// bits5 is the i-th group of five bits of b, padded with zeros.
func bits5(b []byte, i int) uint64 {
	var v uint64
	for k := 0; k < 5; k++ {
		bit := 5*i + k
		v <<= 1
		if bit/8 < len(b) {
			v |= uint64(b[bit/8]>>(7-uint(bit%8))) & 1
		}
	}
	return v
}

// isBase32 asserts that text is the unpadded base32 text of b.
func isBase32(text, b []byte) bool {
	if len(text) != (len(b)*8+4)/5 {
		return false
	}
	for i := range text {
		sym.Assert(isDigit32(text[i], bits5(b, i)), "base32 digit")
	}
	return true
}

// sameBytes is EqB, byte by byte.
func sameBytes(a, b []byte, msg string) {
	sym.Assert(len(a) == len(b), msg)
	for i := range a {
		sym.Assert(a[i] == b[i], msg)
	}
}

func HashTrip() {
	h := anyHash("hash")
	in := h
	old := sampleHash(0x11)
	out := old
	var err error
	switch sym.Choose("form", 6) {
	case 0:
		s := h.Base32()
		sym.Assert(isBase32([]byte(s), in[:]), "base32 text")
		sym.Assert(sym.Eq(h.String(), s), "String")
		err = out.FromBase32(s)
	case 1:
		var b []byte
		b, err = h.MarshalText()
		sym.Assert(err == nil && isBase32(b, in[:]), "text form")
		err = out.UnmarshalText(b)
	case 2:
		buf := bytes.NewBufferString("x")
		sym.Assert(h.MarshalADC(buf) == nil, "wire form refused")
		b := buf.Bytes()
		sym.Assert(b[0] == 'x' && isBase32(b[1:], in[:]), "wire form")
		err = out.UnmarshalADC(b[1:])
	case 3:
		b := make([]byte, tiger.Base32Size+sym.Choose("extra", 2))
		sym.Assert(h.MarshalBase32(b) == nil, "buffer form refused")
		sym.Assert(isBase32(b[:tiger.Base32Size], in[:]), "buffer form")
		sym.Assert(len(b) == tiger.Base32Size || b[tiger.Base32Size] == 0, "buffer overrun")
		err = out.UnmarshalBase32(b[:tiger.Base32Size])
	case 4:
		out = tiger.MustParseBase32(h.String())
	case 5:
		s := h.Hex()
		sym.Assert(len(s) == 48, "hexadecimal text")
		ok := true
		for i := 0; i < len(s); i++ {
			d := in[i/2] >> 4
			if i%2 == 1 {
				d = in[i/2] & 15
			}
			ok = sym.And(ok, sym.Or(sym.And(d < 10, s[i] == '0'+d), sym.And(d >= 10, s[i] == 'a'+d-10)))
		}
		sym.Assert(ok, "hexadecimal text")
		sym.Reach("hex")
		return
	}
	sym.Assert(err == nil, "text of a hash refused")
	sameBytes(out[:], in[:], "hash altered")
	sym.Assert(sym.EqB(h[:], in[:]), "source altered")
	sym.Reach("trip")
}

// readHash reads a hash or an identifier in one of its forms.
func readHash(form int, s string) (h tiger.Hash, err error) {
	h = sampleHash(0x33)
	c := types.CID(h)
	switch form {
	case 0:
		err = h.FromBase32(s)
	case 1:
		err = h.UnmarshalText([]byte(s))
	case 2:
		err = h.UnmarshalADC([]byte(s))
	case 3:
		err = h.UnmarshalBase32([]byte(s))
	case 4:
		err = c.FromBase32(s)
		h = tiger.Hash(c)
	case 5:
		err = c.UnmarshalText([]byte(s))
		h = tiger.Hash(c)
	case 6:
		err = c.UnmarshalADC([]byte(s))
		h = tiger.Hash(c)
	}
	return h, err
}

func is32(c byte) bool {
	return sym.Or(sym.And(c >= 'A', c <= 'Z'), sym.And(c >= '2', c <= '7'))
}

// damaged39 is a text of 39 digits with arbitrary bytes in it.
func damaged39() []byte {
	s := []byte(sampleCID)
	k := sym.Bound(2, 3)
	pos := sym.Choose("position", 40-k+2)
	if pos == 40-k+1 {
		// every digit arbitrary, but no line breaks
		copy(s, sym.Bytes("digits", 39))
		sym.None(string(s), "\r\n")
		return s
	}
	if pos == 40-k {
		s[0] = sym.Byte("first")
		s[38] = sym.Byte("last")
		return s
	}
	for i := 0; i < k; i++ {
		s[pos+i] = sym.Byte("digit")
	}
	return s
}

func checkHashText(form int, s []byte) {
	h, err := readHash(form, string(s))
	ok := true
	for _, c := range s {
		ok = sym.And(ok, is32(c))
	}
	sym.Observe("accepted", err == nil)
	if err != nil {
		sym.Assert(sym.Not(sym.And(ok, len(s) == 39)), "base32 text refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(s) == 39, "text of another length accepted")
	sym.Assert(ok, "text outside of the alphabet accepted")
	// the last two bits of the text carry nothing
	for i := 0; i < 38; i++ {
		sym.Assert(isDigit32(s[i], bits5(h[:], i)), "value of the text")
	}
	last := bits5(h[:], 38)
	any := false
	for d := uint64(0); d < 8; d++ {
		any = sym.Or(any, isDigit32(s[38], last|d))
	}
	sym.Assert(any, "value of the text")
	sym.Reach("accepted")
}

func HashText() {
	checkHashText(sym.Choose("form", 4), damaged39())
}

// otherText is a text of any length but with one arbitrary byte.
func otherText() []byte {
	n := sym.Choose("length", 47)
	if n == 46 {
		n = 64
	}
	s := make([]byte, n)
	fill := []byte{'A', '7', '\n', '\r', '='}[sym.Choose("rest", 5)]
	for i := range s {
		if fill >= '2' && fill != '=' || i >= 39 {
			s[i] = fill
		} else {
			s[i] = 'B'
		}
	}
	if n > 0 {
		p := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
		s[p] = sym.Byte("byte")
	}
	return s
}

func HashLength() {
	checkHashText(sym.Choose("form", 4), otherText())
}

func HashZero() {
	h := anyHash("hash")
	zero := true
	for _, b := range h {
		zero = sym.And(zero, b == 0)
	}
	sym.Assert(h.IsZero() == zero, "IsZero")
	sym.Assert(sym.EqB(h.Bytes(), h[:]), "Bytes")
	sym.Assert(len(h.Bytes()) == tiger.Size, "size")
	sym.Reach("compared")
}

func SIDNumbers() {
	v := uint32(sym.URange("number", 0, 1<<20-1))
	id := types.SIDFromInt(v)
	ok := true
	for i := 0; i < 4; i++ {
		ok = sym.And(ok, isDigit32(id[i], uint64(v>>(15-5*uint(i)))&31))
	}
	sym.Assert(ok, "digits")
	w := uint32(sym.URange("other", 0, 1<<20-1))
	other := types.SIDFromInt(w)
	sym.Assert((v == w) == sym.EqB(id[:], other[:]), "one identifier for two numbers")
	sym.Assert(sym.Eq(types.SIDFromString(id.String()).String(), string(id[:])), "text")
	sym.Reach("distinct")
}

// panics reports whether f panics.
func panics(f func()) (r bool) {
	defer func() {
		if recover() != nil {
			r = true
		}
	}()
	f()
	return false
}

func SIDText() {
	s := sym.Str("text", 7)
	id := types.SID{1, 2, 3, 4}
	err := id.UnmarshalADC([]byte(s))
	var id2 types.SID
	p := panics(func() { id2 = types.SIDFromString(s) })
	if len(s) != 4 {
		sym.Assert(err != nil, "text of a wrong length accepted")
		sym.Assert(p, "text of a wrong length accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil && !p, "identifier refused")
	sym.Assert(sym.Eq(id.String(), s), "identifier altered")
	sym.Assert(sym.EqB(id2[:], id[:]), "identifier altered")
	buf := bytes.NewBuffer(nil)
	sym.Assert(id.MarshalADC(buf) == nil && sym.Eq(buf.String(), s), "wire form")
	sym.Reach("accepted")
}

func CIDTrip() {
	h := anyHash("cid")
	id := types.CID(h)
	out := types.CID(sampleHash(0x22))
	var err error
	switch sym.Choose("form", 5) {
	case 0:
		s := id.Base32()
		sym.Assert(isBase32([]byte(s), h[:]), "base32 text")
		sym.Assert(sym.Eq(id.String(), s), "String")
		err = out.FromBase32(s)
	case 1:
		var b []byte
		b, err = id.MarshalText()
		sym.Assert(err == nil && isBase32(b, h[:]), "text form")
		err = out.UnmarshalText(b)
	case 2:
		buf := bytes.NewBufferString("x")
		sym.Assert(id.MarshalADC(buf) == nil, "wire form refused")
		b := buf.Bytes()
		sym.Assert(b[0] == 'x' && isBase32(b[1:], h[:]), "wire form")
		err = out.UnmarshalADC(b[1:])
	case 3:
		out = types.MustParseCID(id.String())
	case 4:
		out = *types.MustParseCIDP(id.String())
		hashed := tiger.HashBytes(h[:])
		ch := id.Hash()
		sym.Assert(sym.EqB(ch[:], hashed[:]), "hash of an identifier")
	}
	sym.Assert(err == nil, "text of an identifier refused")
	sameBytes(out[:], h[:], "identifier altered")
	zero := true
	for _, b := range h {
		zero = sym.And(zero, b == 0)
	}
	sym.Assert(id.IsZero() == zero, "IsZero")
	sym.Reach("trip")
}

func CIDText() {
	var s []byte
	if sym.Choose("length", 2) == 1 {
		s = otherText()
	} else {
		s = damaged39()
	}
	form := sym.Choose("form", 4)
	if form == 3 {
		var id adc.CID
		_, err := readHash(4, string(s))
		p := panics(func() { id = types.MustParseCID(string(s)) })
		q := panics(func() { id = *types.MustParseCIDP(string(s)) })
		sym.Assert(p == (err != nil) && q == p, "panicking form disagrees")
		_ = id
		sym.Reach("panicking")
		return
	}
	checkHashText(4+form, s)
}
