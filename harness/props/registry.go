package props

import (
	"bytes"
	"errors"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"

	"verif/harness/sym"
)

func init() {
	sym.Register("C39", sym.Both, RegistryNMDC, "names of 0..4 arbitrary bytes, and every name of the protocol with an arbitrary byte at any position: the name is registered exactly when it is one of the protocol's, both lookups agree with each other and with the list, the new message has that name, a raw one otherwise, and is independent of another new one")
	sym.Register("C39", sym.Both, RegistryADC, "names of three arbitrary bytes with an arbitrary payload of 0..2 bytes, and every command of the protocol with its sample payload: the protocol's commands decode to their type, all others to a raw message with that name and payload; raw messages decode later to the same")
	sym.Register("C39", sym.Both, RegistryCustom, "a type registered by the user (with and without pointer receiver) is what the readers of both protocols deliver from then on, with an arbitrary byte in its payload; registering a name twice is refused and changes nothing")
}

// customMsg is a command of a protocol extension.
type customMsg struct{ Data string }

func (*customMsg) Type() string { return "VerifExt" }
func (m *customMsg) MarshalNMDC(_ *nmdc.TextEncoder, buf *bytes.Buffer) error {
	buf.WriteString(m.Data)
	return nil
}
func (m *customMsg) UnmarshalNMDC(_ *nmdc.TextDecoder, data []byte) error {
	if len(data) > 0 && data[0] == '!' {
		return errors.New("refused")
	}
	m.Data = string(data)
	return nil
}

type customMsg2 struct{ customMsg }

// customAdc is a command of a protocol extension.
type customAdc struct {
	A string `adc:"#"`
	B int    `adc:"BB"`
}

func (customAdc) Cmd() adc.MsgType { return adc.MsgType{'V', 'X', 'T'} }

type customAdc2 struct {
	A string `adc:"AA"`
}

func (customAdc2) Cmd() adc.MsgType { return adc.MsgType{'V', 'X', 'T'} }

// protoNames are the names of all NMDC commands ("" is chat).
var protoNames = strings.Fields("Supports To: MCTo UserCommand ConnectToMe RevConnectToMe Failed Error ADCGET ADCSND Direction MaxedOut Hello ZOn Version HubName HubIsFull HubTopic FailOver Lock Key ForceMove Kick Close GetTopic SetTopic MyPass BadPass GetPass BotINFO SetIcon SetLogo HubINFO Search SR SA SP ValidateNick ValidateDenide MyNick Quit LogedIn MyINFO GetNickList OpList BotList UserIP")

func RegistryNMDC() {
	var b []byte
	if sym.Choose("mode", 2) == 0 {
		b = []byte(sym.Str("name", 4))
	} else {
		b = []byte(protoNames[sym.Choose("known", len(protoNames))])
		b[sym.Choose("at", len(b))] = sym.Byte("x")
	}
	name := string(b)
	want := name == "" || name == "VerifExt"
	for _, p := range protoNames {
		if name == p {
			want = true
			break
		}
	}
	sym.Assume(name != "VerifExt")
	sym.Assert(nmdc.IsRegistered(name) == want, "registered names are not those of the protocol")
	sym.Assert(nmdc.IsRegisteredBytes(b) == want, "lookups by bytes and by text differ")
	m, m2 := nmdc.NewMessage(name), nmdc.NewMessage(name)
	sym.Assert(sym.Eq(m.Type(), name), "message of another type")
	_, raw := m.(*nmdc.RawMessage)
	sym.Assert(raw != want, "raw message for a command of the protocol, or the reverse")
	if !raw {
		ref, ok := nmdcName(m)
		sym.Assert(ok && ref == name, "type of another command")
		sym.Reach("known")
		return
	}
	data := []byte{sym.Byte("d")}
	sym.Assert(m.UnmarshalNMDC(nil, data) == nil, "raw message refused")
	r2 := m2.(*nmdc.RawMessage)
	sym.Assert(len(r2.Data) == 0, "messages share their contents")
	sym.Reach("raw")
}

func sortedFields(b []byte) string {
	f := strings.Split(string(b), " ")
	sort.Strings(f)
	return strings.Join(f, " ")
}

func RegistryADC() {
	if sym.Choose("mode", 2) == 0 {
		sm := adcSamples[sym.Choose("sample", len(adcSamples))]
		m, err := adc.UnmarshalMessage(msgType(sm.name), []byte(sm.payload))
		sym.Assert(err == nil, "sample refused")
		cmd := m.Cmd()
		sym.Assert(string(cmd[:]) == sm.name, "message of another type")
		_, raw := m.(*adc.RawMessage)
		sym.Assert(raw == (sm.name == "XYZ"), "raw message for a command of the protocol, or the reverse")
		if ref, ok := adcName(m); !raw {
			sym.Assert(ok && ref == sm.name, "type of another command")
		}
		rm := &adc.RawMessage{Type: msgType(sm.name), Data: []byte(sm.payload)}
		later, err := rm.Decode()
		sym.Assert(err == nil, "raw message cannot be decoded later")
		a, b := bytes.NewBuffer(nil), bytes.NewBuffer(nil)
		sym.Assert(adc.Marshal(a, m) == nil && adc.Marshal(b, later) == nil, "decoded message refused")
		// feature sets are written in any order
		sym.Assert(sortedFields(a.Bytes()) == sortedFields(b.Bytes()), "decoding later differs")
		sym.Assert(sortedFields(adc.MustMarshal(m)) == sortedFields(a.Bytes()), "encoders differ")
		sym.Reach("known")
		return
	}
	var name adc.MsgType
	for i := range name {
		name[i] = sym.Byte("name")
	}
	known := false
	for _, sm := range adcSamples {
		if sm.name != "XYZ" {
			known = sym.Or(known, sym.Eq(string(name[:]), sm.name))
		}
	}
	known = sym.Or(known, sym.Eq(string(name[:]), "VXT"))
	sym.Assume(sym.Not(known))
	data := []byte(sym.Str("data", 2))
	m, err := adc.UnmarshalMessage(name, append([]byte(nil), data...))
	sym.Assert(err == nil, "unknown command refused")
	rm, raw := m.(*adc.RawMessage)
	sym.Assert(raw, "unknown command decoded to a type")
	got := rm.Cmd()
	sym.Assert(sym.EqB(got[:], name[:]), "name altered")
	sym.Assert(sym.EqB(rm.Data, data), "payload altered")
	sym.Reach("raw")
}

// mayPanic reports whether f panics.
func mayPanic(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func RegistryCustom() {
	c := sym.Byte("c")
	sym.Assume(sym.Not(sym.OneOf(c, "|\n \\\x00!")))
	if sym.Choose("protocol", 2) == 0 {
		if !nmdc.IsRegistered("VerifExt") { // natively it stays from an earlier run
			nmdc.RegisterMessage(&customMsg{})
		}
		if sym.Choose("again", 2) == 1 {
			sym.Assert(mayPanic(func() { nmdc.RegisterMessage(&customMsg2{}) }), "name registered twice")
		}
		sym.Assert(nmdc.IsRegistered("VerifExt") && nmdc.IsRegisteredBytes([]byte("VerifExt")), "not registered")
		n := 0
		types := nmdc.RegisteredTypes()
		for i, t := range types {
			if t == "VerifExt" {
				n++
			}
			sym.Assert(i == 0 || types[i-1] < t, "list is not in order")
			sym.Assert(nmdc.IsRegistered(t), "listed but not registered")
		}
		sym.Assert(n == 1, "not in the list of types")
		// the list is the caller's
		types[n], types[len(types)-1] = "", "zz"
		again := nmdc.RegisteredTypes()
		sym.Assert(len(again) == len(types), "number of types")
		for i, t := range again {
			sym.Assert(i == 0 || again[i-1] < t, "list is not in order")
			sym.Assert(nmdc.IsRegistered(t), "listed but not registered")
		}
		sym.Assert(len(types) == len(protoNames)+2, "number of types")
		data := []byte{'$', 'V', 'e', 'r', 'i', 'f', 'E', 'x', 't', ' ', c, 'x', '|', '$', 'V', 'e', 'r', 'i', 'f', 'E', 'x', 't', ' ', '!', '|'}
		r := nmdc.NewReader(bytes.NewReader(data))
		m, err := r.ReadMsg()
		sym.Assert(err == nil, "custom command refused")
		x, ok := m.(*customMsg)
		sym.Assert(ok, "custom type not used")
		sym.Assert(sym.Eq(x.Data, string([]byte{c, 'x'})), "payload altered")
		w, err := nmdc.Marshal(nil, m)
		sym.Assert(err == nil && sym.EqB(w, data[:13]), "custom command encoded differently")
		_, err = r.ReadMsg()
		sym.Assert(err != nil, "refusal of the custom type ignored")
		sym.Reach("nmdc")
		return
	}
	name := adc.MsgType{'V', 'X', 'T'}
	if m, err := adc.UnmarshalMessage(name, []byte("a")); err == nil {
		if _, ok := m.(*adc.RawMessage); ok {
			adc.RegisterMessage(customAdc{})
		}
	}
	if sym.Choose("again", 2) == 1 {
		sym.Assert(mayPanic(func() { adc.RegisterMessage(customAdc2{}) }), "name registered twice")
	}
	line := []byte{'I', 'V', 'X', 'T', ' ', c, ' ', 'B', 'B', '7', '\n'}
	p, err := adc.NewReader(bytes.NewReader(line)).ReadPacket()
	sym.Assert(err == nil, "custom command refused")
	x, ok := p.Message().(customAdc)
	sym.Assert(ok, "custom type not used")
	sym.Assert(sym.Eq(x.A, string([]byte{c})) && x.B == 7, "payload altered")
	buf := bytes.NewBuffer(nil)
	sym.Assert(p.MarshalPacketADC(buf) == nil && sym.EqB(buf.Bytes(), line), "custom command encoded differently")
	sym.Reach("adc")
}
