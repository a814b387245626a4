package props

import (
	"bytes"

	"github.com/direct-connect/go-dc/adc"

	"verif/harness/sym"
)

func init() {
	doc := ": every field (thorough: also together with its neighbour) arbitrary - texts of 0..2 (thorough 3; with the neighbour 1) arbitrary bytes, numbers -1000..1000 and around the 32 and 64-bit limits, identifiers - with the other fields absent or set; the wire has exactly the fields the protocol names, and they decode to the same values"
	sym.Register("C21", sym.Both, AdcUserInfo, "user information"+doc)
	sym.Register("C21", sym.Both, AdcHubInfo, "hub information"+doc)
	sym.Register("C21", sym.Both, AdcSearch, "search request and result"+doc)
	sym.Register("C21", sym.Both, AdcSimple, "chat, connection requests, disconnect, user command, password and information requests"+doc)
	sym.Register("C21", sym.Both, AdcTransfer, "transfer request and response with arbitrary text, numbers over the 64-bit range and compression flag")
	sym.Register("C21", sym.Both, AdcOther, "status, feature negotiation, identifier assignment, password salts of 0..6 bytes, raw user information fields, compression switches")
}

func userInfoFields(in, out *adc.UserInfo) []field {
	return []field{
		{"ID", false, &in.Id, &out.Id},
		{"PD", false, &in.Pid, &out.Pid},
		{"NI", true, &in.Name, &out.Name},
		{"I4", false, &in.Ip4, &out.Ip4},
		{"I6", false, &in.Ip6, &out.Ip6},
		{"U4", false, &in.Udp4, &out.Udp4},
		{"U6", false, &in.Udp6, &out.Udp6},
		{"SS", true, &in.ShareSize, &out.ShareSize},
		{"SF", true, &in.ShareFiles, &out.ShareFiles},
		{"VE", true, &in.Version, &out.Version},
		{"AP", false, &in.Application, &out.Application},
		{"US", false, &in.MaxUpload, &out.MaxUpload},
		{"DS", false, &in.MaxDownload, &out.MaxDownload},
		{"SL", true, &in.Slots, &out.Slots},
		{"FS", true, &in.SlotsFree, &out.SlotsFree},
		{"AS", false, &in.AutoSlotLimit, &out.AutoSlotLimit},
		{"EM", false, &in.Email, &out.Email},
		{"DE", false, &in.Desc, &out.Desc},
		{"HN", true, &in.HubsNormal, &out.HubsNormal},
		{"HR", true, &in.HubsRegistered, &out.HubsRegistered},
		{"HO", true, &in.HubsOperator, &out.HubsOperator},
		{"TO", false, &in.Token, &out.Token},
		{"CT", false, &in.Type, &out.Type},
		{"AW", false, &in.Away, &out.Away},
		{"RF", false, &in.Ref, &out.Ref},
		{"SU", true, &in.Features, &out.Features},
		{"KP", false, &in.KP, &out.KP},
		{"EA", false, &in.Address, &out.Address},
	}
}

func hubInfoFields(in, out *adc.HubInfo) []field {
	return []field{
		{"NI", true, &in.Name, &out.Name},
		{"VE", true, &in.Version, &out.Version},
		{"AP", false, &in.Application, &out.Application},
		{"DE", false, &in.Desc, &out.Desc},
		{"CT", false, &in.Type, &out.Type},
		{"HH", false, &in.Address, &out.Address},
		{"WS", false, &in.Website, &out.Website},
		{"NE", false, &in.Network, &out.Network},
		{"OW", false, &in.Owner, &out.Owner},
		{"UC", false, &in.Users, &out.Users},
		{"SS", false, &in.Share, &out.Share},
		{"SF", false, &in.Files, &out.Files},
		{"MS", false, &in.MinShare, &out.MinShare},
		{"XS", false, &in.MaxShare, &out.MaxShare},
		{"ML", false, &in.MinSlots, &out.MinSlots},
		{"XL", false, &in.MaxSlots, &out.MaxSlots},
		{"MC", false, &in.UsersLimit, &out.UsersLimit},
		{"UP", false, &in.Uptime, &out.Uptime},
		{"XU", false, &in.MaxHubsUser, &out.MaxHubsUser},
		{"XR", false, &in.MaxHubsReg, &out.MaxHubsReg},
		{"XO", false, &in.MaxHubsOp, &out.MaxHubsOp},
	}
}

func searchFields(in, out *adc.SearchRequest) []field {
	return []field{
		{"TO", false, &in.Token, &out.Token},
		{"AN", false, &in.And, &out.And},
		{"NO", false, &in.Not, &out.Not},
		{"EX", false, &in.Ext, &out.Ext},
		{"LE", false, &in.Le, &out.Le},
		{"GE", false, &in.Ge, &out.Ge},
		{"EQ", false, &in.Eq, &out.Eq},
		{"TY", false, &in.Type, &out.Type},
		{"TR", false, &in.TTH, &out.TTH},
		{"GR", false, &in.Group, &out.Group},
		{"RX", false, &in.NoExt, &out.NoExt},
	}
}

func resultFields(in, out *adc.SearchResult) []field {
	return []field{
		{"TO", false, &in.Token, &out.Token},
		{"FN", false, &in.Path, &out.Path},
		{"SI", false, &in.Size, &out.Size},
		{"SL", false, &in.Slots, &out.Slots},
		{"TR", false, &in.TTH, &out.TTH},
	}
}

func chatFields(in, out *adc.ChatMessage) []field {
	return []field{
		{"#", false, &in.Text, &out.Text},
		{"PM", false, &in.PM, &out.PM},
		{"ME", false, &in.Me, &out.Me},
		{"TS", false, &in.TS, &out.TS},
	}
}

func commandFields(in, out *adc.UserCommand) []field {
	return []field{
		{"#", false, &in.Path, &out.Path},
		{"TT", false, &in.Command, &out.Command},
		{"CT", false, &in.Category, &out.Category},
		{"RM", false, &in.Remove, &out.Remove},
		{"CO", false, &in.Constrained, &out.Constrained},
		{"SP", false, &in.Separator, &out.Separator},
	}
}

func disconnectFields(in, out *adc.Disconnect) []field {
	return []field{
		{"#", false, &in.ID, &out.ID},
		{"MS", false, &in.Message, &out.Message},
		{"ID", false, &in.By, &out.By},
		{"TL", false, &in.Duration, &out.Duration},
		{"RD", false, &in.Redirect, &out.Redirect},
	}
}

func connectFields(in, out *adc.ConnectRequest) []field {
	return []field{
		{"#", false, &in.Proto, &out.Proto},
		{"#", false, &in.Port, &out.Port},
		{"#", false, &in.Token, &out.Token},
	}
}

func AdcUserInfo() {
	var in, out adc.UserInfo
	fs := userInfoFields(&in, &out)
	fillMessage(fs, sym.Thorough())
	w := aPayload(in, fs)
	var ok bool
	out, ok = aDecode(in, w).(adc.UserInfo)
	sym.Assert(ok, "message type")
	checkFields(fs)
}

func AdcHubInfo() {
	var in, out adc.HubInfo
	fs := hubInfoFields(&in, &out)
	fillMessage(fs, sym.Thorough())
	w := aPayload(in, fs)
	sym.Assert(in.Cmd() == adc.MsgType{'I', 'N', 'F'}, "not the command name the protocol defines")
	p := &adc.InfoPacket{Msg: &adc.RawMessage{Type: in.Cmd(), Data: w}}
	sym.Assert(p.DecodeMessageTo(&out) == nil, "encoded message refused by the decoder")
	checkFields(fs)
}

func AdcSearch() {
	if sym.Choose("result", 2) == 1 {
		var in, out adc.SearchResult
		fs := resultFields(&in, &out)
		fillMessage(fs, true)
		w := aPayload(in, fs)
		var ok bool
		out, ok = aDecode(in, w).(adc.SearchResult)
		sym.Assert(ok, "message type")
		checkFields(fs)
		return
	}
	var in, out adc.SearchRequest
	fs := searchFields(&in, &out)
	fillMessage(fs, sym.Thorough())
	w := aPayload(in, fs)
	var ok bool
	out, ok = aDecode(in, w).(adc.SearchRequest)
	sym.Assert(ok, "message type")
	checkFields(fs)
}

func AdcSimple() {
	both := sym.Thorough()
	ok := false
	switch sym.Choose("message", 7) {
	case 0:
		var in, out adc.ChatMessage
		fs := chatFields(&in, &out)
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.ChatMessage)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 1:
		var in, out adc.RevConnectRequest
		fs := []field{
			{"#", false, &in.Proto, &out.Proto},
			{"#", false, &in.Token, &out.Token},
		}
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.RevConnectRequest)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 2:
		var in, out adc.ConnectRequest
		fs := connectFields(&in, &out)
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.ConnectRequest)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 3:
		var in, out adc.GetInfoRequest
		fs := []field{
			{"#", false, &in.Type, &out.Type},
			{"#", false, &in.Path, &out.Path},
		}
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.GetInfoRequest)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 4:
		var in, out adc.UserCommand
		fs := commandFields(&in, &out)
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.UserCommand)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 5:
		var in, out adc.Disconnect
		fs := disconnectFields(&in, &out)
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.Disconnect)
		sym.Assert(ok, "message type")
		checkFields(fs)
	case 6:
		var in, out adc.Password
		fs := []field{{"#", false, &in.Hash, &out.Hash}}
		fillMessage(fs, both)
		out, ok = aDecode(in, aPayload(in, fs)).(adc.Password)
		sym.Assert(ok, "message type")
		checkFields(fs)
	}
}

func someInt64(name string) int64 {
	if sym.Choose(name+".min", 2) == 1 {
		return int64(sym.URange(name, 1<<63, 1<<63+9))
	}
	return int64(someInt(name))
}

func AdcTransfer() {
	in := adc.GetRequest{Type: "file", Path: "TTH/ABC", Start: 7, Bytes: -1}
	in.Compressed = sym.Choose("zl", 2) == 1
	switch sym.Choose("focus", 4) {
	case 0:
		in.Type = sym.Str("type", sym.Bound(2, 3))
	case 1:
		in.Path = sym.Str("path", sym.Bound(2, 3))
	case 2:
		in.Start = someInt64("start")
	case 3:
		in.Bytes = someInt64("bytes")
	}
	var m, out adc.Message = in, nil
	resp := sym.Choose("response", 2) == 1
	if resp {
		m = adc.GetResponse(in)
	}
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, m) == nil, "legal message refused by the encoder")
	sym.Observe("wire", buf.Bytes())
	oneLine(buf.Bytes())
	out = aDecode(m, buf.Bytes())
	var got adc.GetRequest
	if resp {
		r, ok := out.(adc.GetResponse)
		sym.Assert(ok, "message type")
		got = adc.GetRequest(r)
	} else {
		var ok bool
		got, ok = out.(adc.GetRequest)
		sym.Assert(ok, "message type")
	}
	sym.Assert(sym.Eq(got.Type, in.Type), "type")
	sym.Assert(sym.Eq(got.Path, in.Path), "path")
	sym.Assert(got.Start == in.Start, "start")
	sym.Assert(got.Bytes == in.Bytes, "length")
	sym.Assert(got.Compressed == in.Compressed, "compression")
	sym.Reach("decoded")
}

// featureByte is an uppercase letter or a digit.
func featureByte(name string) byte {
	b := sym.Byte(name)
	sym.Assume(sym.Or(sym.And(b >= 'A', b <= 'Z'), sym.And(b >= '0', b <= '9')))
	return b
}

func aTrip(m adc.Message) adc.Message {
	buf := bytes.NewBuffer(nil)
	sym.Assert(adc.Marshal(buf, m) == nil, "legal message refused by the encoder")
	oneLine(buf.Bytes())
	return aDecode(m, buf.Bytes())
}

func AdcOther() {
	switch sym.Choose("message", 6) {
	case 0:
		in := adc.Status{
			Sev:  adc.Severity(sym.IntRange("severity", 0, 2)),
			Code: sym.IntRange("code", 0, 99),
			Msg:  sym.Str("text", 2),
		}
		out, ok := aTrip(in).(adc.Status)
		sym.Assert(ok, "message type")
		sym.Assert(out.Sev == in.Sev, "severity")
		sym.Assert(out.Code == in.Code, "code")
		sym.Assert(sym.Eq(out.Msg, in.Msg), "text")
		sym.Reach("status")
	case 1:
		in := adc.Supported{Features: adc.ModFeatures{}}
		n := sym.Choose("count", 4)
		var fs []adc.Feature
		var on []bool
		for i := 0; i < n; i++ {
			f := adc.Feature{'A' + byte(i)}
			for j := 1; j < 4; j++ {
				f[j] = featureByte("feature")
			}
			fs, on = append(fs, f), append(on, sym.Choose("on", 2) == 1)
			in.Features[f] = on[i]
		}
		out, ok := aTrip(in).(adc.Supported)
		sym.Assert(ok, "message type")
		sym.Assert(len(out.Features) == n, "number of features")
		for i, f := range fs {
			v, ok := out.Features[f]
			sym.Assert(ok, "feature lost")
			sym.Assert(v == on[i], "feature flipped")
		}
		sym.Reach("supported")
	case 2:
		in := adc.SIDAssign{SID: someSID("sid")}
		out, ok := aTrip(in).(adc.SIDAssign)
		sym.Assert(ok, "message type")
		sym.Assert(sym.EqB(out.SID[:], in.SID[:]), "identifier")
		sym.Reach("sid")
	case 3:
		in := adc.GetPassword{Salt: []byte(sym.Str("salt", sym.Bound(4, 6)))}
		if sym.Choose("long", 2) == 1 {
			h := sampleHash(9)
			in.Salt = append(h[:], in.Salt...)
		}
		out, ok := aTrip(in).(adc.GetPassword)
		sym.Assert(ok, "message type")
		sym.Assert(sym.EqB(out.Salt, in.Salt), "salt")
		sym.Reach("salt")
	case 4:
		var in adc.UserInfoMod
		n := sym.Choose("count", 4)
		for i := 0; i < n; i++ {
			in = append(in, adc.Field{Tag: [2]byte{wordByte("tag"), wordByte("tag")}, Value: sym.Str("value", 2-i)})
			if i == 1 {
				break
			}
		}
		buf := bytes.NewBuffer(nil)
		sym.Assert(adc.Marshal(buf, in) == nil, "legal message refused by the encoder")
		oneLine(buf.Bytes())
		out := adc.UserInfoMod{{Value: "old"}, {Value: "old"}, {Value: "old"}}
		sym.Assert(adc.Unmarshal(buf.Bytes(), &out) == nil, "encoded message refused by the decoder")
		sym.Assert(len(out) == len(in), "number of fields")
		for i := range in {
			sym.Assert(sym.EqB(in[i].Tag[:], out[i].Tag[:]), "tag")
			sym.Assert(sym.Eq(in[i].Value, out[i].Value), "value")
		}
		sym.Reach("mod")
	case 5:
		if sym.Choose("off", 2) == 1 {
			_, ok := aTrip(adc.ZOff{}).(adc.ZOff)
			sym.Assert(ok, "message type")
		} else {
			_, ok := aTrip(adc.ZOn{}).(adc.ZOn)
			sym.Assert(ok, "message type")
		}
		sym.Reach("zlib")
	}
}
