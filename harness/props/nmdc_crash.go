package props

import (
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C14", sym.Both, DecodeAny, "every registered command (and one unknown) with every payload of 0..3 (thorough 4) bytes; an accepted message is encoded again")
	sym.Register("C14", sym.Both, DecodeDamaged, "valid payloads of every structured command with a window of 1 (thorough 2) arbitrary bytes at every position, optionally one byte removed after it")
	sym.Register("C14", sym.Both, DecodeTruncated, "valid payloads of every structured command cut at every position, with one arbitrary byte appended or put in front")
}

func decodeAny(typ string, payload []byte) {
	m := nmdc.NewMessage(typ)
	sym.Assert(m.Type() == typ, "another command's message")
	if err := m.UnmarshalNMDC(nil, exactly(payload)); err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	data, err := nmdc.Marshal(nil, m)
	if err == nil {
		sym.Assert(len(data) > 0, "nothing encoded")
	}
	if l, ok := m.(*nmdc.Lock); ok {
		l.Key()
	}
}

func DecodeAny() {
	types := nmdc.RegisteredTypes()
	sym.Assert(len(types) >= 40, "commands missing")
	i := sym.Choose("command", len(types)+1)
	typ := "Unknown"
	if i < len(types) {
		typ = types[i]
	}
	decodeAny(typ, []byte(sym.Str("payload", sym.Bound(3, 4))))
}

type samplePayload struct{ typ, data string }

var nmdcSamples = []samplePayload{
	{"", "<nick one> hello there"},
	{"", "<a>b> c"},
	{"To:", "user 1 From: room 1 $<user 2> text"},
	{"MCTo", "target $sender text"},
	{"UserCommand", "1 3 # a\\b c $<%[mynick]> +c"},
	{"UserCommand", "255 1"},
	{"MyINFO", "$ALL joe RU<Ap++ V:0.4.0,M:P,H:27/1/3,S:92,L:512>$ $LAN(T3)K$e@e.c$1234$"},
	{"MyINFO", "$ALL joe P verg$ $0.005A$$$"},
	{"MyINFO", "$ALL joe <++ V:0.8,M:A,H:34,S:3>$A$0.005.$$272$"},
	{"Search", "192.168.1.5:412 T?T?500000?1?Gen$2005"},
	{"Search", "Hub:Some F?T?0?9?TTH:TO32WPD6AQE7VA7654HEAM5GKFQGIL7F2BEKFNA"},
	{"SR", "User6 d\\p 2\\pics 0/4\x05Hub (1.1.1.1)"},
	{"SR", "User1 dir\\f 1.txt\x05437 3/4\x05Hub (1.1.1.1:411)\x05User2"},
	{"SR", "U d\\k.iso\x0518 3/3\x05TTH:BNQGWMXKUIAFAU3TV32I5U6SKNYMQBBNH4FELNQ (1.1.1.1:411)\x05V"},
	{"SA", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ 1.2.3.4:412"},
	{"SP", "LWPNACQDBZRYXW3VHJVCJ64QBZNGHOHHHZWCLNQ user"},
	{"ADCGET", "file TTH/AB 123523 65 ZL1 DB15"},
	{"ADCSND", "tthl TTH/AB 6342 7323 ZL1"},
	{"Direction", "Download 12343"},
	{"ConnectToMe", "john 192.168.1.2:412NS peter"},
	{"ConnectToMe", "john 1.2.3.4:412RS"},
	{"RevConnectToMe", "john peter"},
	{"Lock", "EXTENDEDPROTOCOLABC Pk=DCPP0.777Ref=dchub://e.org"},
	{"Supports", "NoHello TTHS ZPipe0 "},
	{"HubINFO", "hub$dc.e.c:80$desc$3000$322122547$3$40$Yn 1.0364$own$d 2$CP1251"},
	{"OpList", "op$$op 2$$"},
	{"BotList", "bot$$bot2$$"},
	{"UserIP", "a b 1.2.3.4$$c 1.1.1.1$$"},
	{"FailOver", "example.com,example.org:5555"},
	{"Failed", "message"},
}

func DecodeDamaged() {
	s := nmdcSamples[sym.Choose("sample", len(nmdcSamples))]
	i := sym.Choose("at", len(s.data))
	b := []byte(s.data[:i])
	rest := s.data[i+1:]
	b = append(b, sym.Byte("x"))
	if sym.Thorough() && len(rest) > 0 && sym.Choose("two", 2) == 1 {
		b = append(b, sym.Byte("x"))
		rest = rest[1:]
	}
	if len(rest) > 0 && sym.Choose("drop", 2) == 1 {
		rest = rest[1:]
	}
	decodeAny(s.typ, append(b, rest...))
}

func DecodeTruncated() {
	s := nmdcSamples[sym.Choose("sample", len(nmdcSamples))]
	data := s.data[:sym.Choose("cut", len(s.data)+1)]
	switch sym.Choose("extra", 4) {
	case 1:
		data += sym.String("x", 1)
	case 2:
		data = sym.String("x", 1) + data
	case 3:
		data = s.data[sym.Choose("from", len(s.data)):]
	}
	decodeAny(s.typ, []byte(data))
}
