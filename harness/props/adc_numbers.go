package props

import (
	"bytes"
	"math"
	"strconv"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C28", sym.Both, AdcNumbers, "every numeric field written as 1..2 (thorough 3 for the share size and the GET/SND positions) arbitrary bytes without underscore: a decimal integer is decoded exactly, an integral decimal fraction exactly, anything else is refused")
	sym.Register("C28", sym.Both, AdcNumberLimits, "every numeric field written as 7..21 digits, the last 2 arbitrary, the first ones those of 10^k, 2^31, 2^32, 2^63 and 2^64, with either sign: decoded exactly or refused, and not refused when it fits")
	sym.Register("C28", sym.Both, AdcFloats, "every numeric field written as one of 40 texts with fractions, exponents, hexadecimal, underscores, infinities: decoded exactly or refused")
	sym.Register("C28", sym.Both, AdcBools, "boolean fields of 0..2 arbitrary bytes, and the boolean codec: '0' is false, '1' is true, anything else is refused")
	sym.Register("C28", sym.Both, AdcStatus, "status lines with every severity and code, and with 0..3 arbitrary bytes as the code: the severity and code written, or refused")
	sym.Register("C28", sym.Both, AdcSmallInts, "integers of 16, 32 and 64 bits in a structure decoded by the generic decoder, values around their limits: decoded exactly or refused")
}

type aNumber struct {
	name, pre, post string
	plain           bool // only plain integers are accepted
	get             func(m adc.Message) int64
}

var aNumbers = []aNumber{
	{"INF", "NIx SS", " VEv", false, func(m adc.Message) int64 { return m.(adc.UserInfo).ShareSize }},
	{"CTM", "ADC/1.0 ", " tok", false, func(m adc.Message) int64 { return int64(m.(adc.ConnectRequest).Port) }},
	{"GET", "file x ", " 5", true, func(m adc.Message) int64 { return m.(adc.GetRequest).Start }},
	{"SND", "file x 5 ", " ZL1", true, func(m adc.Message) int64 { return m.(adc.GetResponse).Bytes }},
	{"MSG", "x TS", "", false, func(m adc.Message) int64 { return m.(adc.ChatMessage).TS }},
	{"SCH", "TY", " ANx", false, func(m adc.Message) int64 { return int64(m.(adc.SearchRequest).Type) }},
	{"INF", "SF", " NIx", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).ShareFiles) }},
	{"INF", "SL", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).Slots) }},
	{"INF", "FS", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).SlotsFree) }},
	{"INF", "AS", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).AutoSlotLimit) }},
	{"INF", "U4", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).Udp4) }},
	{"INF", "U6", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).Udp6) }},
	{"INF", "HN", " HO1", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).HubsNormal) }},
	{"INF", "HR", " HO1", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).HubsRegistered) }},
	{"INF", "HO", " HN1", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).HubsOperator) }},
	{"INF", "CT", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).Type) }},
	{"INF", "AW", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserInfo).Away) }},
	{"SCH", "LE", " ANx", false, func(m adc.Message) int64 { return m.(adc.SearchRequest).Le }},
	{"SCH", "GE", " ANx", false, func(m adc.Message) int64 { return m.(adc.SearchRequest).Ge }},
	{"SCH", "EQ", " ANx", false, func(m adc.Message) int64 { return m.(adc.SearchRequest).Eq }},
	{"SCH", "GR", "", false, func(m adc.Message) int64 { return int64(m.(adc.SearchRequest).Group) }},
	{"RES", "SI", " FNx", false, func(m adc.Message) int64 { return m.(adc.SearchResult).Size }},
	{"RES", "SL", "", false, func(m adc.Message) int64 { return int64(m.(adc.SearchResult).Slots) }},
	{"QUI", "ABCD TL", "", false, func(m adc.Message) int64 { return int64(m.(adc.Disconnect).Duration) }},
	{"CMD", "x CT", "", false, func(m adc.Message) int64 { return int64(m.(adc.UserCommand).Category) }},
	{"CMD", "x RM", " TTx", false, func(m adc.Message) int64 { return int64(m.(adc.UserCommand).Remove) }},
	{"CMD", "x CO", " TTx", false, func(m adc.Message) int64 { return int64(m.(adc.UserCommand).Constrained) }},
	{"CMD", "x SP", " TTx", false, func(m adc.Message) int64 { return int64(m.(adc.UserCommand).Separator) }},
	{"GET", "file x 5 ", "", true, func(m adc.Message) int64 { return m.(adc.GetRequest).Bytes }},
	{"SND", "file x ", " 5", true, func(m adc.Message) int64 { return m.(adc.GetResponse).Start }},
}

// refDecimal is the exact value of a decimal number with an optional fraction
// and exponent. plain is set when it has neither.
func refDecimal(s string) (v int64, plain, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	plain = true
	var digits []byte
	frac := 0
	i := 0
	for ; i < len(s); i++ {
		if s[i] == '.' {
			if !plain {
				return 0, false, false
			}
			plain = false
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			break
		}
		digits = append(digits, s[i])
		if !plain {
			frac++
		}
	}
	if len(digits) == 0 {
		return 0, false, false
	}
	exp := 0
	if i < len(s) {
		if s[i] != 'e' && s[i] != 'E' {
			return 0, false, false
		}
		plain = false
		i++
		eneg := false
		if i < len(s) && (s[i] == '-' || s[i] == '+') {
			eneg = s[i] == '-'
			i++
		}
		if i >= len(s) {
			return 0, false, false
		}
		for ; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' || exp > 1000 {
				return 0, false, false
			}
			exp = exp*10 + int(s[i]-'0')
		}
		if eneg {
			exp = -exp
		}
	}
	zero := true
	for _, d := range digits {
		zero = sym.And(zero, d == '0')
	}
	if zero {
		return 0, plain, true
	}
	for shift := exp - frac; shift != 0; {
		if shift > 0 {
			digits = append(digits, '0')
			shift--
			if len(digits) > 40 {
				return 0, plain, false
			}
			continue
		}
		if len(digits) == 0 || digits[len(digits)-1] != '0' {
			return 0, plain, false // a fraction
		}
		digits = digits[:len(digits)-1]
		shift++
	}
	var abs uint64
	for _, c := range digits {
		d := uint64(c - '0')
		if abs > math.MaxUint64/10 {
			return 0, plain, false
		}
		abs *= 10
		if abs > math.MaxUint64-d {
			return 0, plain, false
		}
		abs += d
	}
	if neg {
		if abs > 1<<63 {
			return 0, plain, false
		}
		return -int64(abs), plain, true
	}
	if abs > math.MaxInt64 {
		return 0, plain, false
	}
	return int64(abs), plain, true
}

func checkADCNumber(f aNumber, text string) {
	p := append([]byte(f.pre), text...)
	m, err := adc.UnmarshalMessage(msgType(f.name), append(p, f.post...))
	v, plain, ok := refDecimal(text)
	sym.Observe("accepted", err == nil)
	if err != nil {
		sym.Assert(!ok || !plain, "a number that fits is refused")
		sym.Reach("refused")
		return
	}
	got := f.get(m)
	sym.Observe("value", got)
	sym.Assert(ok, "something that is not an integer is accepted")
	sym.Assert(got == v, "number altered")
	sym.Assert(plain || !f.plain, "fraction accepted")
	sym.Reach("accepted")
}

func AdcNumbers() {
	n := 2
	f := aNumbers[sym.Choose("field", len(aNumbers))]
	if sym.Thorough() && (f.pre == "NIx SS" || f.pre == "file x ") {
		n = 3
	}
	v := sym.StrN("value", 1, n)
	sym.None(v, " \n\x00_")
	checkADCNumber(f, v)
}

var numberHeads = []string{
	"1", "10000", "99999", "10000000", "21474836", "42949672", "9007199254740",
	"99999999999999999", "92233720368547758", "184467440737095516", "1844674407370955161",
	"9223372036854775807", "0000000000000000000",
}

func AdcNumberLimits() {
	f := aNumbers[sym.Choose("field", len(aNumbers))]
	head := numberHeads[sym.Choose("head", len(numberHeads))]
	v := []string{"", "-", "+"}[sym.Choose("sign", 3)] + head + sym.StringIn("tail", 2, '0', '9')
	checkADCNumber(f, v)
}

var floatTexts = []string{
	"1.5", "2.0", "-2.0", "0.0", ".5", "5.", "1e3", "1E3", "1e-1", "10e-1", "-1e18", "1e19", "-1e19", "1e30", "1e400",
	"-1e400", "Inf", "-Inf", "+inf", "infinity", "NaN", "nan", "0x10", "0x1p4", "0x1.8p0", "1_000", "0b1", "0o7",
	"4294967296.0", "2147483648.0", "65536.0", "9007199254740992.0", "9007199254740993.0", "-9007199254740993.0",
	"9223372036854775807.0", "9223372036854775808.0", "-9223372036854775808.0", "1e", "e1", "1.2.3",
}

func AdcFloats() {
	f := aNumbers[sym.Choose("field", len(aNumbers))]
	text := floatTexts[sym.Choose("text", len(floatTexts))]
	if text == "1_000" || text[0] == '0' && len(text) > 2 && text[1] != '.' {
		// not decimal: only an exact value would do
		m, err := adc.UnmarshalMessage(msgType(f.name), []byte(f.pre+text+f.post))
		if err == nil {
			want, err := strconv.ParseFloat(text, 64)
			sym.Assert(err == nil && float64(f.get(m)) == want, "number altered")
		}
		sym.Reach("other")
		return
	}
	checkADCNumber(f, text)
}

func AdcBools() {
	v := sym.Str("value", 2)
	sym.None(v, " \n\x00")
	want, ok := false, false
	if len(v) == 1 {
		want = v[0] == '1'
		ok = sym.Or(v[0] == '0', v[0] == '1')
	}
	var got bool
	var err error
	codec := sym.Choose("codec", 2) == 1
	if codec {
		b := adc.BoolInt(sym.Choose("old", 2) == 1)
		err = b.UnmarshalADC([]byte(v))
		got = bool(b)
		if err == nil {
			buf := bytes.NewBuffer(nil)
			sym.Assert(b.MarshalADC(buf) == nil, "flag refused")
			sym.Assert(sym.Eq(buf.String(), v), "flag altered")
		}
	} else {
		var m adc.Message
		m, err = adc.UnmarshalMessage(msgType("MSG"), []byte("x ME"+v))
		if err == nil {
			got = m.(adc.ChatMessage).Me
		}
		if len(v) == 0 {
			sym.Assert(err == nil && !got, "empty flag")
			return
		}
	}
	sym.Observe("accepted", err == nil)
	if err != nil {
		sym.Assert(sym.Not(ok), "flag refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "wrong flag accepted")
	sym.Assert(got == want, "flag altered")
	sym.Reach("accepted")
}

func AdcStatus() {
	if sym.Choose("wire", 2) == 0 {
		in := adc.Status{
			Sev:  adc.Severity(sym.IntRange("severity", 0, 2)),
			Code: sym.IntRange("code", 0, 99),
			Msg:  "a b",
		}
		buf := bytes.NewBuffer(nil)
		sym.Assert(adc.Marshal(buf, in) == nil, "legal message refused by the encoder")
		w := buf.Bytes()
		sym.Observe("wire", w)
		want := []byte{'0' + byte(in.Sev), '0' + byte(in.Code/10), '0' + byte(in.Code%10)}
		sym.Assert(sym.EqB(w, append(want, ` a\sb`...)), "not the status line of the protocol")
		var out adc.Status
		out.Msg = "old"
		sym.Assert(out.UnmarshalADC(w) == nil, "encoded status refused")
		sym.Assert(out.Sev == in.Sev, "severity")
		sym.Assert(out.Code == in.Code, "code")
		sym.Assert(out.Msg == in.Msg, "text")
		sym.Assert(out.Ok() == (in.Sev == 0), "Ok")
		sym.Assert(out.Recoverable() == (in.Sev != 2), "Recoverable")
		sym.Assert((out.Err() == nil) == (in.Sev == 0), "Err")
		sym.Reach("trip")
		return
	}
	v := sym.Str("value", 3)
	sym.None(v, " \n\x00")
	out := adc.Status{Msg: "old", Sev: 1, Code: 1}
	err := out.UnmarshalADC([]byte(v))
	ref, plain, ok := int64(0), true, false
	digits := len(v) > 0
	for i := 0; i < len(v); i++ {
		digits = sym.And(digits, sym.Or(sym.And(v[i] >= '0', v[i] <= '9'), i == 0 && (v[i] == '-' || v[i] == '+')))
	}
	if digits {
		ref, plain, ok = refDecimal(v)
	}
	if err != nil {
		sym.Assert(!ok || !plain || ref < 0, "status code refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok && plain, "status code that is not a number accepted")
	sym.Assert(int64(out.Sev)*100+int64(out.Code) == ref, "severity or code altered")
	sym.Assert(sym.Implies(ref >= 0, sym.And(out.Code >= 0, out.Code <= 99)), "code")
	sym.Assert(out.Msg == "", "text kept from before")
	sym.Reach("accepted")
}

type smallInts struct {
	A int16  `adc:"AA"`
	B int32  `adc:"BB"`
	C int64  `adc:"CC"`
	D int    `adc:"DD"`
	E *int32 `adc:"EE"`
}

func (smallInts) Cmd() adc.MsgType { return adc.MsgType{'T', 'S', 'T'} }

func AdcSmallInts() {
	k := sym.Choose("field", 5)
	heads := []string{"", "327", "655", "21474836", "42949672", "92233720368547758"}
	head := sym.Choose("head", len(heads))
	text := []string{"", "-"}[sym.Choose("sign", 2)] + heads[head] + sym.StringIn("tail", 2, '0', '9')
	var m smallInts
	err := adc.Unmarshal([]byte(string(rune('A'+k))+string(rune('A'+k))+text), &m)
	v, _, ok := refDecimal(text)
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	var got int64
	switch k {
	case 0:
		got, lo, hi = int64(m.A), math.MinInt16, math.MaxInt16
	case 1:
		got, lo, hi = int64(m.B), math.MinInt32, math.MaxInt32
	case 2:
		got = m.C
	case 3:
		got = int64(m.D)
	case 4:
		lo, hi = math.MinInt32, math.MaxInt32
		if err == nil {
			sym.Assert(m.E != nil, "field lost")
			got = int64(*m.E)
		}
	}
	fits := ok
	if ok {
		fits = sym.And(v >= lo, v <= hi)
	}
	if err != nil {
		sym.Assert(sym.Not(fits), "a number that fits is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(fits, "number out of range accepted")
	sym.Assert(got == v, "number altered")
	sym.Reach("accepted")
	if head > 2 {
		return
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, m) == nil, "number refused by the encoder")
	var again smallInts
	sym.Assert(adc.Unmarshal(buf.Bytes(), &again) == nil, "encoded number refused")
	sym.Assert(again.A == m.A && again.B == m.B && again.C == m.C && again.D == m.D, "number altered by the encoder")
}
