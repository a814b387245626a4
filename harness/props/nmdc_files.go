package props

import (
	"math"

	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C12", sym.Both, GetText, "download request and reply: content type and identifier of 0..2 (thorough 3) arbitrary characters without space, every combination of the flags")
	sym.Register("C12", sym.Both, GetFlags, "download request with 0..3 (thorough 4) flags in any order: the compression flag, received bytes, or a word of 1..3 arbitrary bytes that is neither")
	sym.Register("C12", sym.Both, GetNumbers, "download request and reply: start, length (-1 for the whole file) and received bytes over 0..9999999 and around 2^32, 2^63 and 2^64")
	sym.Register("C12", sym.Both, GetNegative, "download request with a negative length -1000..-1: -1 survives, the others are refused or preserved")
	sym.Register("C12", sym.Both, DirectionTrip, "direction with every number 0..2^64-1 in the listed ranges: 1..32767 survives, the others are refused")
	sym.Register("C12", sym.Both, TransferWire, "download request and reply payloads with any of the numbers replaced by digits written as listed, or up to 3 arbitrary bytes: decoded exactly or refused")
	sym.Register("C15", sym.Both, NumbersWire, "every number of every command written as up to 4 (thorough 6) arbitrary bytes: decoded to the value of all its digits or refused (a share size that is not a number counts as zero, a user command context ends at the first other byte, an empty hub count is 1, a negative search size means unrestricted)")
	sym.Register("C15", sym.Both, NumbersLimits, "every number of every command written as 7..21 digits, the last 3 arbitrary, the first ones those of 10^k, 2^31, 2^32, 2^63 and 2^64")
}

func GetText() {
	t, id := nmdc.String("file"), nmdc.String("TTH/&$|x")
	n := sym.Bound(2, 3)
	switch sym.Choose("fields", 3) {
	case 0:
		t = nmdc.String(uText("type", 0, n))
	case 1:
		id = nmdc.String(uText("id", 0, n))
	case 2:
		t, id = nmdc.String(aText("type", 1, 1)), nmdc.String(aText("id", 1, 2))
	}
	sym.None(string(t), " ")
	sym.None(string(id), " ")
	if sym.Choose("reply", 2) == 1 {
		checkSnd(&nmdc.ADCSnd{ContentType: t, Identifier: id, Start: 10, Length: 1 << 40, Compressed: sym.Choose("zl", 2) == 1})
		return
	}
	in := &nmdc.ADCGet{ContentType: t, Identifier: id, Start: 123, Length: -1, Compressed: sym.Choose("zl", 2) == 1}
	if sym.Choose("db", 2) == 1 {
		v := uint64(1 << 33)
		in.DownloadedBytes = &v
	}
	checkGet(in)
}

// GetFlags puts the flags of a request in any order among others.
func GetFlags() {
	line := []byte("file x 7 9")
	zl, db := false, -1
	for k := sym.Choose("flags", sym.Bound(4, 5)); k > 0; k-- {
		line = append(line, ' ')
		switch sym.Choose("flag", 3) {
		case 0:
			line = append(line, "ZL1"...)
			zl = true
		case 1:
			d := sym.ByteRange("db", '0', '9')
			line = append(line, 'D', 'B', d)
			db = int(d - '0')
		case 2:
			w := sym.Bytes("word", 1+sym.Choose("len", 3))
			for _, c := range w {
				sym.Assume(sym.And(c != ' ', sym.And(c != '|', c != 0)))
			}
			sym.Assume(string(w) != "ZL1")
			if len(w) > 1 {
				sym.Assume(string(w[:2]) != "DB")
			}
			line = append(line, w...)
		}
	}
	m, err := nDecode("ADCGET", line)
	sym.Assert(err == nil, "request with other flags refused")
	if err != nil {
		return
	}
	get := m.(*nmdc.ADCGet)
	sym.Assert(get.Start == 7 && get.Length == 9, "numbers")
	sym.Assert(get.Compressed == zl, "compression flag")
	sym.Assert((get.DownloadedBytes != nil) == (db >= 0), "presence of received bytes")
	if db >= 0 {
		sym.Assert(*get.DownloadedBytes == uint64(db), "received bytes")
	}
	sym.Reach("flags")
}

func checkGet(in *nmdc.ADCGet) {
	out := nTrip(in).(*nmdc.ADCGet)
	sym.Assert(sym.Eq(string(out.ContentType), string(in.ContentType)), "content type")
	sym.Assert(sym.Eq(string(out.Identifier), string(in.Identifier)), "identifier")
	sym.Assert(out.Start == in.Start, "start")
	sym.Assert(out.Length == in.Length, "length")
	sym.Assert(out.Compressed == in.Compressed, "compression flag")
	sym.Assert((out.DownloadedBytes != nil) == (in.DownloadedBytes != nil), "presence of received bytes")
	if in.DownloadedBytes != nil {
		sym.Assert(*out.DownloadedBytes == *in.DownloadedBytes, "received bytes")
	}
}

func checkSnd(in *nmdc.ADCSnd) {
	out := nTrip(in).(*nmdc.ADCSnd)
	sym.Assert(sym.Eq(string(out.ContentType), string(in.ContentType)), "content type")
	sym.Assert(sym.Eq(string(out.Identifier), string(in.Identifier)), "identifier")
	sym.Assert(out.Start == in.Start, "start")
	sym.Assert(out.Length == in.Length, "length")
	sym.Assert(out.Compressed == in.Compressed, "compression flag")
}

func GetNumbers() {
	zl := sym.Choose("zl", 2) == 1
	if sym.Choose("reply", 2) == 1 {
		in := &nmdc.ADCSnd{ContentType: "file", Identifier: "x", Start: 5, Length: 6, Compressed: zl}
		if sym.Choose("field", 2) == 0 {
			in.Start = someUint64("start")
		} else {
			in.Length = someUint64("length")
		}
		checkSnd(in)
		return
	}
	in := &nmdc.ADCGet{ContentType: "file", Identifier: "x", Start: 5, Length: -1, Compressed: zl}
	switch sym.Choose("field", 3) {
	case 0:
		in.Start = someUint64("start")
	case 1:
		u := someUint64("length")
		sym.Assume(u <= math.MaxInt64)
		in.Length = int64(u)
	case 2:
		v := someUint64("db")
		in.DownloadedBytes = &v
	}
	checkGet(in)
}

func GetNegative() {
	l := sym.IntRange("length", -1000, -1)
	in := &nmdc.ADCGet{ContentType: "file", Identifier: "x", Length: int64(l)}
	if l == -1 {
		checkGet(in)
		return
	}
	p, ok := nEncode(in)
	if !ok {
		return
	}
	m, err := nDecode("ADCGET", p)
	if err == nil {
		sym.Assert(m.(*nmdc.ADCGet).Length == int64(l), "negative length altered")
	}
	sym.Reach("negative")
}

func DirectionTrip() {
	in := &nmdc.Direction{Upload: sym.Choose("upload", 2) == 1}
	if sym.Choose("range", 2) == 0 {
		in.Number = uint(sym.URange("number", 0, 70000))
	} else {
		in.Number = uint(someUint64("number"))
	}
	p, ok := nEncode(in)
	legal := sym.And(in.Number >= 1, in.Number <= 32767)
	if !ok {
		sym.Assert(sym.Not(legal), "legal number refused by the encoder")
		return
	}
	m, err := nDecode("Direction", p)
	if err != nil {
		sym.Assert(sym.Not(legal), "legal number refused")
		sym.Reach("refused")
		return
	}
	out := m.(*nmdc.Direction)
	sym.Assert(out.Number == in.Number, "number altered")
	sym.Assert(out.Upload == in.Upload, "direction")
	sym.Reach("decoded")
}

// refNumber is the value of a decimal number: ok is false when s, without the
// surrounding spaces, is not an optional sign and digits, or does not fit.
func refNumber(s string, signed bool) (neg bool, abs uint64, ok bool) {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	if len(s) > 0 && signed && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return false, 0, false
	}
	digits := true
	for i := 0; i < len(s); i++ {
		digits = sym.And(digits, sym.And(s[i] >= '0', s[i] <= '9'))
	}
	if !digits {
		return false, 0, false
	}
	for i := 0; i < len(s); i++ {
		d := uint64(s[i] - '0')
		if abs > math.MaxUint64/10 {
			return false, 0, false
		}
		abs *= 10
		if abs > math.MaxUint64-d {
			return false, 0, false
		}
		abs += d
	}
	return neg, abs, true
}

// numField is one decimal number of one command.
type numField struct {
	typ       string
	pre, post string
	signed    bool
	max       uint64 // of the value kept by the library
	lenient   int
	get       func(m nmdc.Message) int64
	min       uint64
}

const (
	exact       = iota
	shareSize   // not a number: zero
	contextNum  // ends at the first other byte
	emptyIsOne  // empty: one
	searchSize  // a leading minus means no restriction
	emptyIgnore // empty: not present
)

const maxI, maxU = math.MaxInt64, math.MaxUint64

var numFields = []numField{
	{"UserCommand", "", " 3 p $c", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.UserCommand).Typ) }, 0},
	{"UserCommand", "1 ", " p $c", true, maxI, contextNum, func(m nmdc.Message) int64 { return int64(m.(*nmdc.UserCommand).Context) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:", "/2/3,S:4>$ $x\x01$m$5$", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).HubsNormal) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:1/", "/3,S:4>$ $x\x01$m$5$", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).HubsRegistered) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:1/2/", ",S:4>$ $x\x01$m$5$", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).HubsOperator) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:", ",S:4>$ $x\x01$m$5$", true, maxI, emptyIsOne, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).HubsNormal) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:1/2/3,S:", ">$ $x\x01$m$5$", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).Slots) }, 0},
	{"MyINFO", "$ALL n d<c V:1,M:A,H:1/2/3,S:4>$ $x\x01$m$", "$", false, maxU, shareSize, func(m nmdc.Message) int64 { return int64(m.(*nmdc.MyINFO).ShareSize) }, 0},
	{"Search", "Hub:u T?T?", "?1?p", false, maxU, searchSize, func(m nmdc.Message) int64 { return int64(m.(*nmdc.Search).Size) }, 0},
	{"Search", "1.2.3.4:5 T?T?100?", "?TTH:TO32WPD6AQE7VA7654HEAM5GKFQGIL7F2BEKFNA", false, maxU, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.Search).DataType) }, 0},
	{"SR", "u p\x05", " 1/2\x05h (a)", false, maxU, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.SR).Size) }, 0},
	{"SR", "u p\x055 ", "/2\x05h (a)", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.SR).FreeSlots) }, 0},
	{"SR", "u p\x055 1/", "\x05h (a)", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.SR).TotalSlots) }, 0},
	{"ADCGET", "file x ", " 7", false, maxU, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.ADCGet).Start) }, 0},
	{"ADCGET", "file x 7 ", "", false, maxI, exact, func(m nmdc.Message) int64 { return m.(*nmdc.ADCGet).Length }, 0},
	{"ADCGET", "file x 7 8 ZL1 DB", "", false, maxU, exact, func(m nmdc.Message) int64 { return int64(*m.(*nmdc.ADCGet).DownloadedBytes) }, 0},
	{"ADCSND", "file x ", " 7", false, maxU, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.ADCSnd).Start) }, 0},
	{"ADCSND", "file x 7 ", " ZL1", false, maxU, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.ADCSnd).Length) }, 0},
	{"Direction", "Download ", "", false, 32767, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.Direction).Number) }, 1},
	{"HubINFO", "n$h$d$", "$2$3$4$s 1$o$s$e", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.HubINFO).I1) }, 0},
	{"HubINFO", "n$h$d$1$", "$3$4$s 1$o$s$e", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.HubINFO).I2) }, 0},
	{"HubINFO", "n$h$d$1$2$", "$4$s 1$o$s$e", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.HubINFO).I3) }, 0},
	{"HubINFO", "n$h$d$1$2$3$", "$s 1$o$s$e", true, maxI, exact, func(m nmdc.Message) int64 { return int64(m.(*nmdc.HubINFO).I4) }, 0},
}

func checkNumber(f *numField, num string) {
	m, err := nDecode(f.typ, []byte(f.pre+num+f.post))
	want := num
	switch f.lenient {
	case contextNum:
		i := 0
		for i < len(num) && num[i] >= '0' && num[i] <= '9' {
			i++
		}
		want = num[:i]
	case emptyIsOne:
		if num == "" {
			want = "1"
		}
	case searchSize:
		if len(num) > 0 && num[0] == '-' {
			if err == nil {
				sym.Assert(sym.Not(m.(*nmdc.Search).SizeRestricted), "negative size kept as a restriction")
				sym.Reach("negative")
			}
			return
		}
		if num == "" {
			want = "0"
		}
	case shareSize:
		if num == "" {
			want = "0"
		}
	}
	neg, abs, ok := refNumber(want, f.signed)
	if ok {
		lim := f.max
		if neg {
			lim++
		}
		if sym.Or(abs > lim, sym.And(sym.Not(neg), abs < f.min)) {
			ok = false
		}
	}
	if err != nil {
		sym.Assert(!ok || f.lenient == shareSize, "a valid number is refused")
		sym.Reach("refused")
		return
	}
	got := f.get(m)
	if !ok {
		sym.Assert(f.lenient == shareSize, "an invalid number is accepted")
		sym.Assert(got == 0, "an invalid number is taken for another value")
		return
	}
	w := abs
	if neg {
		w = -abs
	}
	sym.Assert(uint64(got) == w, "the number is altered")
	sym.Reach("exact")
}

func oneNumField() *numField { return &numFields[sym.Choose("number", len(numFields))] }

func NumbersWire() {
	f := oneNumField()
	n := sym.Choose("len", sym.Bound(5, 7))
	num := sym.String("num", n)
	sym.None(num, "|")
	// bytes that end the field belong to the next one
	switch {
	case f.typ == "MyINFO":
		sym.None(num, "$/,<>")
	case f.typ == "HubINFO":
		sym.None(num, "$")
	case f.typ == "Search":
		sym.None(num, "?")
	case f.typ == "SR":
		sym.None(num, "/\x05 ")
	case f.typ == "Direction":
	default:
		sym.None(num, " ")
	}
	if f.typ == "UserCommand" {
		sym.None(num, "$\t\n\v\f\r")
		for i := 0; i < len(num); i++ {
			sym.Assume(num[i] < 0x80) // other white space
		}
	}
	if f.typ == "ADCGET" && f.max == maxI {
		sym.Assume(num != "-1")
	}
	checkNumber(f, num)
}

var numPrefixes = []string{"1000", "10000", "100000", "1000000", "10000000000", "100000000000000000",
	"2147483", "4294967", "9223372036854775", "18446744073709551", "1844674407370955", "99999999999999999",
	"184467440737095516", "184467440737095520", "1000000000000000000", "0000000000000000000"}

func NumbersLimits() {
	f := oneNumField()
	num := numPrefixes[sym.Choose("prefix", len(numPrefixes))] + sym.StringIn("digit", 3, '0', '9')
	if f.signed && sym.Choose("neg", 2) == 1 && f.lenient != contextNum {
		num = "-" + num
	}
	checkNumber(f, num)
}

func TransferWire() {
	k := sym.Choose("number", len(numFields))
	f := &numFields[k]
	if f.typ != "ADCGET" && f.typ != "ADCSND" {
		return
	}
	var num string
	if sym.Choose("kind", 2) == 0 {
		num = sym.Str("num", 3)
		sym.None(num, "| ")
		if f.max == maxI {
			sym.Assume(num != "-1")
		}
	} else {
		num = numPrefixes[sym.Choose("prefix", len(numPrefixes))] + sym.StringIn("digit", 3, '0', '9')
	}
	checkNumber(f, num)
}
