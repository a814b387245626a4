package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/adc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C21", sym.Both, AdcUpdate, "user and hub information, search requests and results, chat, user commands, disconnects and connection requests decoded over a message with every field set: one (thorough: or two adjacent) of the fields present with an arbitrary value, the positional ones too; the present fields take their new value and the absent ones keep the old")
	sym.Register("C21", sym.Both, AdcReplace, "transfer requests and responses, status messages, raw user information fields, salts, identifiers, feature lists and opaque messages decoded over an earlier one: nothing of it is left")
}

// update decodes new values of some fields of a message over one that has all
// of them set.
func update(out interface{}, fs, old []field) {
	for i, f := range old {
		f.sample(i)
	}
	focus := func(pick int) {
		for i := range fs {
			if i == pick {
				fs[i].fill(sym.Bound(2, 3))
			} else {
				fs[i].sample(i + 50)
			}
		}
	}
	k := sym.Choose("focus", len(fs))
	focus(k)
	present := func(i int) bool { return i == k || fs[i].tag == "#" }
	if sym.Thorough() && k+1 < len(fs) && sym.Choose("pair", 2) == 1 {
		was := present
		present = func(i int) bool { return was(i) || i == k+1 }
	}
	decode := func(fs []field, present func(i int) bool) []bool {
		var w [][]byte
		has := make([]bool, len(fs))
		for i, f := range fs {
			if present(i) {
				f.req = true
				l := f.wire()
				w = append(w, l...)
				has[i] = len(l) != 0
			}
		}
		data := bytes.Join(w, []byte(" "))
		oneLine(data)
		var err error
		if sym.Choose("packet", 2) == 1 {
			p := &adc.HubPacket{Msg: &adc.RawMessage{Type: out.(adc.Message).Cmd(), Data: data}}
			err = p.DecodeMessageTo(out.(adc.Message))
		} else {
			err = adc.Unmarshal(data, out)
		}
		sym.Assert(err == nil, "legal message refused by the decoder")
		return has
	}
	decode(old, func(int) bool { return true })
	for _, f := range old {
		sym.Assert(f.same(), "field of the first message: "+f.tag)
	}
	has := decode(fs, present)
	for i := range fs {
		if has[i] {
			sym.Assert(fs[i].same(), "present field: "+fs[i].tag)
		} else {
			sym.Assert(old[i].same(), "absent field: "+fs[i].tag)
		}
	}
	sym.Reach("updated")
}

func AdcUpdate() {
	switch sym.Choose("message", 8) {
	case 0:
		var in, out, old adc.UserInfo
		update(&out, userInfoFields(&in, &out), userInfoFields(&old, &out))
	case 1:
		var in, out, old adc.HubInfo
		update(&out, hubInfoFields(&in, &out), hubInfoFields(&old, &out))
	case 2:
		var in, out, old adc.SearchRequest
		update(&out, searchFields(&in, &out), searchFields(&old, &out))
	case 3:
		var in, out, old adc.SearchResult
		update(&out, resultFields(&in, &out), resultFields(&old, &out))
	case 4:
		var in, out, old adc.ChatMessage
		update(&out, chatFields(&in, &out), chatFields(&old, &out))
	case 5:
		var in, out, old adc.UserCommand
		update(&out, commandFields(&in, &out), commandFields(&old, &out))
	case 6:
		var in, out, old adc.Disconnect
		update(&out, disconnectFields(&in, &out), disconnectFields(&old, &out))
	case 7:
		var in, out, old adc.ConnectRequest
		update(&out, connectFields(&in, &out), connectFields(&old, &out))
	}
}

func AdcReplace() {
	n := sym.Bound(2, 3)
	dec := func(s string, o interface{}) {
		sym.Assert(adc.Unmarshal([]byte(s), o) == nil, "legal message refused by the decoder")
	}
	trip := func(m adc.Message) string {
		buf := bytes.NewBuffer(nil)
		sym.Assert(adc.Marshal(buf, m) == nil, "legal message refused by the encoder")
		return buf.String()
	}
	switch sym.Choose("message", 8) {
	case 0, 1:
		in := adc.GetRequest{Type: sym.StrN("type", 0, n), Path: sym.StrN("path", 0, n), Start: int64(sym.IntRange("start", 0, 99)), Bytes: int64(sym.IntRange("bytes", -1, 99)), Compressed: sym.Choose("zl", 2) == 1}
		if sym.Choose("response", 2) == 1 {
			out := adc.GetResponse{Type: "list", Path: "a/b", Start: 5, Bytes: 6, Compressed: sym.Choose("old", 2) == 1}
			dec(trip(adc.GetResponse(in)), &out)
			sym.Assert(sym.And(sym.Eq(in.Type, out.Type), sym.Eq(in.Path, out.Path)), "texts")
			sym.Assert(sym.And(in.Start == out.Start, in.Bytes == out.Bytes), "numbers")
			sym.Assert(in.Compressed == out.Compressed, "compression")
			break
		}
		out := adc.GetRequest{Type: "list", Path: "a/b", Start: 5, Bytes: 6, Compressed: sym.Choose("old", 2) == 1}
		dec(trip(in), &out)
		sym.Assert(sym.And(sym.Eq(in.Type, out.Type), sym.Eq(in.Path, out.Path)), "texts")
		sym.Assert(sym.And(in.Start == out.Start, in.Bytes == out.Bytes), "numbers")
		sym.Assert(in.Compressed == out.Compressed, "compression")
	case 2:
		in := adc.Status{Sev: adc.Severity(sym.IntRange("severity", 0, 2)), Code: sym.IntRange("code", 0, 99), Msg: sym.Str("text", n)}
		out := adc.Status{Sev: adc.Fatal, Code: 42, Msg: "earlier text"}
		dec(trip(in), &out)
		sym.Assert(sym.And(out.Sev == in.Sev, out.Code == in.Code), "severity or code")
		sym.Assert(sym.Eq(out.Msg, in.Msg), "text")
	case 3:
		in := adc.UserInfoMod{{Tag: [2]byte{'D', 'E'}, Value: sym.StrN("value", 0, n)}}
		out := adc.UserInfoMod{{Tag: [2]byte{'N', 'I'}, Value: "old"}, {Tag: [2]byte{'D', 'E'}, Value: "x"}, {Tag: [2]byte{'H', 'N'}, Value: "3"}}
		dec(trip(in), &out)
		sym.Assert(len(out) == 1 && out[0].Tag == in[0].Tag, "fields")
		sym.Assert(sym.Eq(out[0].Value, in[0].Value), "value")
	case 4:
		in := adc.GetPassword{Salt: sym.Bytes("salt", 1+sym.Choose("size", 4))}
		out := adc.GetPassword{Salt: []byte("an earlier salt that is longer")}
		if sym.Choose("short", 2) == 1 {
			out.Salt = []byte("s")
		}
		dec(trip(in), &out)
		sym.Assert(sym.EqB(out.Salt, in.Salt), "salt")
	case 5:
		in := adc.SIDAssign{SID: someSID("sid")}
		out := adc.SIDAssign{SID: types.SIDFromInt(77)}
		dec(trip(in), &out)
		sym.Assert(sym.EqB(out.SID[:], in.SID[:]), "identifier")
	case 6:
		k := sym.Choose("features", 4)
		var in adc.ExtFeatures
		for i := 0; i < k; i++ {
			x := someSID("feature")
			for _, c := range x {
				sym.Assume(c != ',')
			}
			in = append(in, adc.Feature(x))
		}
		out := adc.ExtFeatures{adc.FeaTCP4, adc.FeaSEGA}
		buf := bytes.NewBuffer(nil)
		sym.Assert(in.MarshalADC(buf) == nil, "features refused by the encoder")
		sym.Assert(out.UnmarshalADC(buf.Bytes()) == nil, "encoded features refused")
		sym.Assert(sameFeatures(in, out), "features")
	case 7:
		data := sym.Str("data", n)
		sym.None(data, "\n")
		out := &adc.RawMessage{Type: msgType("XYZ"), Data: []byte("an earlier message")}
		dec(data, out)
		sym.Assert(sym.EqB(out.Data, []byte(data)), "data")
		sym.Assert(out.Type == msgType("XYZ"), "name")
	}
	sym.Reach("replaced")
}
