package props

import (
	"bytes"
	"encoding/base32"
	"strconv"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"

	"verif/harness/sym"
)

// refEscape is the ADC escaping, byte by byte.
func refEscape(s string) []byte {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ':
			out = append(out, '\\', 's')
		case '\n':
			out = append(out, '\\', 'n')
		case '\\':
			out = append(out, '\\', '\\')
		default:
			out = append(out, s[i])
		}
	}
	return out
}

// oneLine asserts that nothing in b ends the line or the word.
func oneWord(b []byte) {
	ok := true
	for i := 0; i < len(b); i++ {
		ok = sym.And(ok, sym.And(b[i] != ' ', b[i] != '\n'))
	}
	sym.Assert(ok, "raw space or newline in an escaped text")
}

func oneLine(b []byte) {
	ok := true
	for i := 0; i < len(b); i++ {
		ok = sym.And(ok, b[i] != '\n')
	}
	sym.Assert(ok, "raw newline in an encoded message")
}

var refBase32 = base32.StdEncoding.WithPadding(base32.NoPadding)

// field is one field of a message: how the protocol names it and where it is
// stored in the message to encode and in the decoded one.
type field struct {
	tag string // "#" for a positional field
	req bool   // sent even when it is zero
	in  interface{}
	out interface{}
}

// wire lists the words that must carry the field.
func (f field) wire() [][]byte {
	one := func(b []byte, zero bool) [][]byte {
		if f.tag == "#" {
			return [][]byte{b}
		}
		if zero && !f.req {
			return nil
		}
		return [][]byte{append([]byte(f.tag), b...)}
	}
	num := func(v int64) [][]byte {
		return one([]byte(strconv.FormatInt(v, 10)), v == 0)
	}
	switch p := f.in.(type) {
	case *string:
		return one(refEscape(*p), len(*p) == 0)
	case *int:
		return num(int64(*p))
	case *int64:
		return num(*p)
	case *adc.UserType:
		return num(int64(*p))
	case *adc.AwayType:
		return num(int64(*p))
	case *adc.FileType:
		return num(int64(*p))
	case *adc.ExtGroup:
		return num(int64(*p))
	case *adc.Category:
		return num(int64(*p))
	case *bool:
		if *p {
			return one([]byte("1"), false)
		}
		return one([]byte("0"), true)
	case *adc.SID:
		return one((*p)[:], *p == adc.SID{})
	case **adc.SID:
		if *p == nil {
			return one(nil, true)
		}
		return one((**p)[:], false)
	case *adc.CID:
		return one([]byte(refBase32.EncodeToString((*p)[:])), *p == adc.CID{})
	case **adc.CID:
		if *p == nil {
			return one(nil, true)
		}
		return one([]byte(refBase32.EncodeToString((**p)[:])), false)
	case *tiger.Hash:
		return one([]byte(refBase32.EncodeToString((*p)[:])), *p == tiger.Hash{})
	case **tiger.Hash:
		if *p == nil {
			return one(nil, true)
		}
		return one([]byte(refBase32.EncodeToString((**p)[:])), false)
	case *[]string:
		var out [][]byte
		for _, s := range *p {
			out = append(out, append([]byte(f.tag), refEscape(s)...))
		}
		return out
	case *adc.ExtFeatures:
		var b []byte
		for i, x := range *p {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, x[:]...)
		}
		return one(b, len(*p) == 0)
	case *adc.Path:
		var b []byte
		for i, x := range *p {
			if i > 0 {
				b = append(b, '/')
			}
			b = append(b, refEscape(x)...)
		}
		return one(b, len(*p) == 0)
	}
	panic("field type")
}

// same compares the decoded field.
func (f field) same() bool {
	switch p := f.in.(type) {
	case *string:
		return sym.Eq(*p, *f.out.(*string))
	case *int:
		return *p == *f.out.(*int)
	case *int64:
		return *p == *f.out.(*int64)
	case *adc.UserType:
		return *p == *f.out.(*adc.UserType)
	case *adc.AwayType:
		return *p == *f.out.(*adc.AwayType)
	case *adc.FileType:
		return *p == *f.out.(*adc.FileType)
	case *adc.ExtGroup:
		return *p == *f.out.(*adc.ExtGroup)
	case *adc.Category:
		return *p == *f.out.(*adc.Category)
	case *bool:
		return *p == *f.out.(*bool)
	case *adc.SID:
		q := *f.out.(*adc.SID)
		return sym.EqB((*p)[:], q[:])
	case **adc.SID:
		q := *f.out.(**adc.SID)
		if *p == nil || q == nil {
			return *p == nil && q == nil
		}
		return sym.EqB((**p)[:], (*q)[:])
	case *adc.CID:
		q := *f.out.(*adc.CID)
		return sym.EqB((*p)[:], q[:])
	case **adc.CID:
		q := *f.out.(**adc.CID)
		if *p == nil || q == nil {
			return *p == nil && q == nil
		}
		return sym.EqB((**p)[:], (*q)[:])
	case *tiger.Hash:
		q := *f.out.(*tiger.Hash)
		return sym.EqB((*p)[:], q[:])
	case **tiger.Hash:
		q := *f.out.(**tiger.Hash)
		if *p == nil || q == nil {
			return *p == nil && q == nil
		}
		return sym.EqB((**p)[:], (*q)[:])
	case *[]string:
		return sameList(*p, *f.out.(*[]string))
	case *adc.Path:
		return sameList([]string(*p), []string(*f.out.(*adc.Path)))
	case *adc.ExtFeatures:
		q := *f.out.(*adc.ExtFeatures)
		if len(*p) != len(q) {
			return false
		}
		r := true
		for i := range q {
			r = sym.And(r, sym.EqB((*p)[i][:], q[i][:]))
		}
		return r
	}
	panic("field type")
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.Eq(a[i], b[i]))
	}
	return r
}

// wordByte is an arbitrary byte that may stand in a word of the wire.
func wordByte(name string) byte {
	b := sym.Byte(name)
	sym.Assume(sym.And(sym.And(b != ' ', b != '\n'), b != 0))
	return b
}

func someSID(name string) (id adc.SID) {
	for i := range id {
		id[i] = wordByte(name)
	}
	return id
}

// someHash has arbitrary bytes at both ends; all of them in the deep tier.
func someHash(name string) (h tiger.Hash) {
	for i := range h {
		if i < 3 || i >= 21 || sym.Thorough() {
			h[i] = sym.Byte(name)
		} else {
			h[i] = byte(0x5a + 7*i)
		}
	}
	sym.Assume(h[1] != 0)
	return h
}

func sampleHash(k byte) (h tiger.Hash) {
	for i := range h {
		h[i] = k + byte(i)*11
	}
	return h
}

// adcTokens are pieces of text that mean something somewhere in the protocol.
var adcTokens = [...]string{"NI", "TOx", " NIx", "AN", "\\s", "\\\\n", "\\ ", " +TCP4", "IMSG ", "\n", "/", ",", "-1", "PMAAAB", "TIGR"}

// fill stores an arbitrary value in the field.
func (f field) fill(n int) {
	switch p := f.in.(type) {
	case *string:
		if k := sym.Choose(f.tag+" token", 1+len(adcTokens)); k > 0 {
			*p = adcTokens[k-1]
			if sym.Choose(f.tag+" more", 2) == 1 {
				*p += sym.StrN(f.tag, 1, 1) + adcTokens[k-1]
			}
			return
		}
		*p = sym.StrN(f.tag, 0, n)
	case *int:
		*p = someInt(f.tag)
	case *int64:
		*p = int64(someInt(f.tag))
	case *adc.UserType:
		*p = adc.UserType(sym.IntRange(f.tag, 0, 0x7f))
	case *adc.AwayType:
		*p = adc.AwayType(sym.IntRange(f.tag, 0, 2))
	case *adc.FileType:
		*p = adc.FileType(sym.IntRange(f.tag, 0, 2))
	case *adc.ExtGroup:
		*p = adc.ExtGroup(sym.IntRange(f.tag, 0, 0x3f))
	case *adc.Category:
		*p = adc.Category(sym.IntRange(f.tag, 0, 15))
	case *bool:
		*p = sym.Bool(f.tag)
	case *adc.SID:
		*p = someSID(f.tag)
	case **adc.SID:
		if sym.Choose(f.tag+" present", 2) == 1 {
			id := someSID(f.tag)
			*p = &id
		} else {
			*p = nil
		}
	case *adc.CID:
		*p = adc.CID(someHash(f.tag))
	case **adc.CID:
		if sym.Choose(f.tag+" present", 2) == 1 {
			id := adc.CID(someHash(f.tag))
			*p = &id
		} else {
			*p = nil
		}
	case *tiger.Hash:
		*p = someHash(f.tag)
	case **tiger.Hash:
		if sym.Choose(f.tag+" present", 2) == 1 {
			h := someHash(f.tag)
			*p = &h
		} else {
			*p = nil
		}
	case *[]string:
		*p = nil
		k := sym.Choose(f.tag+" count", 3)
		for i := 0; i < k; i++ {
			*p = append(*p, sym.StrN(f.tag, 0, max(n-i, 0)))
		}
	case *adc.ExtFeatures:
		*p = nil
		k := sym.Choose(f.tag+" count", 4)
		for i := 0; i < k; i++ {
			x := someSID(f.tag)
			for _, c := range x {
				sym.Assume(c != ',')
			}
			*p = append(*p, adc.Feature(x))
		}
	case *adc.Path:
		*p = nil
		k := 1 + sym.Choose(f.tag+" count", 3)
		for i := 0; i < k; i++ {
			s := sym.StrN(f.tag, 0, max(n-i, 0))
			sym.None(s, "/")
			*p = append(*p, s)
		}
	default:
		panic("field type")
	}
}

// sample stores a fixed value, different for every k.
func (f field) sample(k int) {
	switch p := f.in.(type) {
	case *string:
		*p = "v" + strconv.Itoa(k) + " \\n"
	case *int:
		*p = 100 + k
	case *int64:
		*p = int64(1<<40 + k)
	case *adc.UserType:
		*p = adc.UserType(k%63 + 1)
	case *adc.AwayType:
		*p = adc.AwayTypeExtended
	case *adc.FileType:
		*p = adc.FileTypeDir
	case *adc.ExtGroup:
		*p = adc.ExtAudio | adc.ExtVideo
	case *adc.Category:
		*p = adc.CategorySearch
	case *bool:
		*p = true
	case *adc.SID:
		*p = types.SIDFromInt(uint32(1000 + k))
	case **adc.SID:
		id := types.SIDFromInt(uint32(1000 + k))
		*p = &id
	case *adc.CID:
		*p = adc.CID(sampleHash(byte(k + 1)))
	case **adc.CID:
		id := adc.CID(sampleHash(byte(k + 1)))
		*p = &id
	case *tiger.Hash:
		*p = sampleHash(byte(k + 1))
	case **tiger.Hash:
		h := sampleHash(byte(k + 1))
		*p = &h
	case *[]string:
		*p = []string{"x" + strconv.Itoa(k), "y z"}
	case *adc.ExtFeatures:
		*p = adc.ExtFeatures{adc.FeaTCP4, adc.FeaSEGA}
	case *adc.Path:
		*p = adc.Path{"menu", "item " + strconv.Itoa(k)}
	default:
		panic("field type")
	}
}

// fillMessage makes the fields of a message from first on arbitrary: one of
// them (or it and its successor, with shorter texts, when both is set), the rest being absent or set.
func fillMessage(fs []field, both bool) {
	if sym.Choose("others", 2) == 1 {
		for i, f := range fs {
			f.sample(i)
		}
	} else {
		for i, f := range fs {
			switch f.in.(type) {
			case *adc.Path, *adc.SID, *tiger.Hash:
				if f.tag == "#" {
					f.sample(i)
				}
			}
		}
	}
	k := sym.Choose("focus", len(fs))
	if both && k+1 < len(fs) && sym.Choose("pair", 2) == 1 {
		fs[k].fill(1)
		fs[k+1].fill(1)
		return
	}
	fs[k].fill(sym.Bound(2, 3))
}

// payload encodes a message and checks the words that carry its fields: the
// positional ones first and in order, the named ones in any order.
func aPayload(m adc.Message, fs []field) []byte {
	buf := bytes.NewBuffer(nil)
	err := adc.Marshal(buf, m)
	sym.Assert(err == nil, "legal message refused by the encoder")
	data := buf.Bytes()
	sym.Observe("payload", data)
	oneLine(data)
	var want [][]byte
	pos := 0
	for _, f := range fs {
		w := f.wire()
		want = append(want, w...)
		if f.tag == "#" {
			pos++
		}
	}
	var got [][]byte
	if len(data) > 0 || pos > 0 {
		got = splitWords(data)
	}
	sym.Assert(len(got) == len(want), "wrong number of fields in the encoded message")
	for i := 0; i < pos; i++ {
		sym.Assert(sym.EqB(got[i], want[i]), "positional field in the encoded message")
	}
	for i := pos; i < len(want); i++ {
		found := false
		for j := pos; j < len(got); j++ {
			found = sym.Or(found, sym.EqB(got[j], want[i]))
		}
		sym.Assert(found, "named field missing in the encoded message")
	}
	return data
}

func splitWords(b []byte) [][]byte {
	var out [][]byte
	last := 0
	for i := 0; i < len(b); i++ {
		if b[i] == ' ' {
			out = append(out, b[last:i])
			last = i + 1
		}
	}
	return append(out, b[last:])
}

func checkFields(fs []field) {
	for _, f := range fs {
		sym.Assert(f.same(), "field altered: "+f.tag)
	}
	sym.Reach("decoded")
}

// aDecode decodes a payload the way packets do.
func aDecode(m adc.Message, data []byte) adc.Message {
	if ref, ok := adcName(m); ok {
		name := m.Cmd()
		sym.Assert(string(name[:]) == ref, "not the command name the protocol defines")
	}
	out, err := adc.UnmarshalMessage(m.Cmd(), data)
	sym.Assert(err == nil, "encoded message refused by the decoder")
	return out
}
