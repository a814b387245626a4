package props

import (
	"bytes"
	"strings"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C23", sym.Both, AdcDecodeAny, "every registered command and an unknown one, directly and as a packet of every kind, with 0..3 (thorough 4; one less for the commands with many fields and for packets) arbitrary payload bytes: an error or a message that encodes again; never a crash")
	sym.Register("C23", sym.Both, AdcDamaged, "a complete payload of every command with one byte (thorough: two adjacent ones) at any position replaced by arbitrary ones, or inserted")
	sym.Register("C23", sym.Both, AdcTruncated, "a complete line of every command and packet kind cut at any length, with and without the final newline, followed by up to 2 arbitrary bytes")
	sym.Register("C23", sym.Both, AdcNumberField, "every numeric field of the user information, search, result, chat and connection commands with 1..2 (thorough 3) arbitrary bytes as its value")
	sym.Register("C23", sym.Both, AdcPacketAny, "packets of every kind decoded from 0..12 (thorough 16) arbitrary bytes through the exported interface, any name")
}

var sampleCID = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567ABCDEFG"

// adcSamples are complete payloads.
var adcSamples = []struct{ name, payload string }{
	{"SUP", "ADBASE RMTIGR"},
	{"STA", "120 bad\\snick"},
	{"ZON", ""},
	{"ZOF", "x"},
	{"MSG", "hi\\sall PMABCD ME1 TS123"},
	{"RCM", "ADC/1.0 tok"},
	{"CTM", "ADC/1.0 3000 tok"},
	{"GFI", "file TTH/ABC"},
	{"GET", "file TTH/ABC 0 -1 ZL1"},
	{"SND", "file TTH/ABC 12 345"},
	{"SID", "ABCD"},
	{"CMD", "a/b\\sc CT3 TTx RM1 CO1 SP1"},
	{"GPA", "ABCDEFGH"},
	{"PAS", sampleCID},
	{"QUI", "ABCD MSbye IDEFGH TL-1 RDadc://x"},
	{"SCH", "ANa ANb NOc EXd LE5 GE1 EQ3 TY1 TR" + sampleCID + " GR3 RXe TOt"},
	{"RES", "TOt FN/a\\sb SI12 SL3 TR" + sampleCID},
	{"INF", "ID" + sampleCID + " NIn SS1 SF2 VEv SL1 FS1 HN1 HR0 HO0 SUTCP4,SEGA CT1 I41.2.3.4 U4412"},
	{"XYZ", "any thing"},
}

func msgType(s string) adc.MsgType { return adc.MsgType{s[0], s[1], s[2]} }

// encodable encodes a decoded message in every way.
func encodable(m adc.Message) {
	buf := bytes.NewBuffer(nil)
	_ = adc.Marshal(buf, m)
	p := &adc.InfoPacket{Msg: m}
	_ = p.MarshalPacketADC(buf)
	sym.Reach("decoded")
}

// exactly is data in memory of its own with nothing behind it.
func exactly(data []byte) []byte {
	p := make([]byte, len(data))
	copy(p, data)
	return p[:len(p):len(p)]
}

func tryDecode(name adc.MsgType, payload []byte) {
	payload = exactly(payload)
	m, err := adc.UnmarshalMessage(name, payload)
	sym.Observe("accepted", err == nil)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(m != nil, "neither a message nor an error")
	encodable(m)
	if name == (adc.MsgType{'I', 'N', 'F'}) {
		var mod adc.UserInfoMod
		if adc.Unmarshal(payload, &mod) == nil {
			encodable(mod)
		}
		var hub adc.HubInfo
		if adc.Unmarshal(payload, &hub) == nil {
			encodable(hub)
		}
		if u, ok := m.(adc.UserInfo); ok {
			u.Normalize()
		}
	}
	if st, ok := m.(adc.Status); ok {
		if err := st.Err(); err != nil {
			_ = err.Error()
		}
	}
}

func AdcDecodeAny() {
	s := adcSamples[sym.Choose("command", len(adcSamples))]
	pre := ""
	n := sym.Bound(3, 4)
	direct := sym.Choose("packet", 2) == 0
	if !direct {
		n--
	}
	if strings.Contains(s.payload, "SL") || strings.Contains(s.payload, "TS") {
		n-- // many fields
	}
	payload := append([]byte(pre), sym.Str("payload", n)...)
	sym.None(string(payload), "\n\x00")
	if direct {
		tryDecode(msgType(s.name), payload)
		return
	}
	kind := kinds[sym.Choose("kind", len(kinds))]
	addr := ""
	switch kind {
	case 'B':
		addr = " ABCD"
	case 'D', 'E':
		addr = " ABCD EFGH"
	case 'F':
		addr = " ABCD +SEGA"
	case 'U':
		addr = " " + sampleCID
	}
	line := append([]byte{kind}, s.name+addr...)
	if sym.Choose("sep", 2) == 0 {
		line = append(line, ' ')
	}
	line = append(append(line, payload...), '\n')
	p, err := adc.DecodePacket(line)
	if err != nil {
		sym.Reach("refused packet")
		return
	}
	buf := bytes.NewBuffer(nil)
	_ = p.MarshalPacketADC(buf)
	sym.Reach("packet")
}

func AdcDamaged() {
	s := adcSamples[sym.Choose("command", len(adcSamples))]
	p := []byte(s.payload)
	at := sym.Choose("at", len(p)+1)
	n := sym.Bound(1, 2)
	if sym.Choose("insert", 2) == 1 {
		var q []byte
		q = append(q, p[:at]...)
		q = append(q, sym.Byte("byte"))
		q = append(q, p[at:]...)
		p = q
	} else {
		for i := at; i < at+n && i < len(p); i++ {
			p[i] = sym.Byte("byte")
		}
	}
	sym.None(string(p), "\n\x00")
	tryDecode(msgType(s.name), p)
}

func AdcTruncated() {
	s := adcSamples[sym.Choose("command", len(adcSamples))]
	kind := kinds[sym.Choose("kind", len(kinds))]
	addr := ""
	switch kind {
	case 'B':
		addr = " ABCD"
	case 'D', 'E':
		addr = " ABCD EFGH"
	case 'F':
		addr = " ABCD +SEGA -NAT0"
	case 'U':
		addr = " " + sampleCID
	}
	line := append([]byte{kind}, s.name+addr+" "+s.payload...)
	if len(s.payload) > 60 && kind != 'I' && kind != 'F' {
		line = line[:60]
	}
	line = line[:sym.Choose("cut", len(line)+1)]
	if sym.Choose("extra", 2) == 1 {
		line = append(line, sym.Str("extra", sym.Bound(1, 2))...)
	}
	if sym.Choose("newline", 2) == 1 {
		line = append(line, '\n')
	}
	p, err := adc.DecodePacket(line)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(p.Message() != nil, "neither a message nor an error")
	buf := bytes.NewBuffer(nil)
	_ = p.MarshalPacketADC(buf)
	sym.Reach("packet")
}

var numberFields = []struct{ name, pre, post string }{
	{"INF", "NIx SS", ""}, {"INF", "SF", " NIx"}, {"INF", "SL", ""}, {"INF", "FS", ""}, {"INF", "U4", ""},
	{"INF", "HN", " HO1"}, {"INF", "CT", ""}, {"INF", "AW", ""},
	{"SCH", "LE", ""}, {"SCH", "TY", " ANx"}, {"SCH", "GR", ""},
	{"RES", "SI", " FNx"}, {"RES", "SL", ""},
	{"MSG", "x TS", ""}, {"MSG", "x ME", ""},
	{"CTM", "ADC/1.0 ", " tok"},
	{"QUI", "ABCD TL", ""},
	{"CMD", "x CT", ""}, {"CMD", "x RM", ""},
	{"GET", "file x ", " 5"}, {"SND", "file x 5 ", ""},
	{"STA", "", " x"}, {"STA", "1", ""},
}

func AdcNumberField() {
	f := numberFields[sym.Choose("field", len(numberFields))]
	v := sym.StrN("value", 1, sym.Bound(2, 3))
	sym.None(v, "\n\x00")
	p := append([]byte(f.pre), v...)
	tryDecode(msgType(f.name), append(p, f.post...))
}

func AdcPacketAny() {
	kind := kinds[sym.Choose("kind", len(kinds))]
	n := sym.Bound(12, 16)
	data := []byte(sym.Str("data", n))
	if kind == 'U' && sym.Choose("long", 2) == 1 {
		data = append([]byte(sampleCID), data...)
	}
	p := newPacket(kind, adc.SID{}, adc.SID{}, adc.CID{}, nil, nil)
	err := p.UnmarshalPacketADC(adc.MsgType{sym.Byte("n"), 'N', 'F'}, data)
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(p.Message() != nil, "no message")
	buf := bytes.NewBuffer(nil)
	_ = p.MarshalPacketADC(buf)
	sym.Reach("packet")
}
