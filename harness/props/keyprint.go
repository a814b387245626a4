package props

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"io"
	"net/url"

	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/keyprint/tlskp"

	"verif/harness/sym"
)

func init() {
	sym.Register("C31", sym.Both, PrintText, "certificates of 0..3 (thorough 5) arbitrary bytes: the print is SHA256/ and the 52 base32 digits of the SHA-256 hash; FromCertificate gives one print per certificate of the chain, in order")
	sym.Register("C31", sym.Both, PrintFile, "PEM files of 0..2 (thorough 3) blocks, certificates (the last one of 1..2 arbitrary bytes), keys, requests, with headers, with text or a broken delimiter around them, read in pieces or failing at the end: one print per certificate, in order; an error without certificates or when the reader fails")
	sym.Register("C31", sym.Both, PrintURL, "addresses whose parameters are any combination of a print, another parameter and near misses of the name kp, the value being any 0..3 bytes or a print with an arbitrary byte: the print is read back, or the empty text when it is missing")
	sym.Register("C31", sym.Both, PrintVerify, "connections presenting 0..2 certificates of 1 (thorough 1..2) arbitrary bytes (different certificates assumed to have different prints), against: the print of one of them or of another one, as it is, in lower case, without or with another kind, cut short, extended, empty: accepted exactly when it is the text of the print of a presented certificate; the prints are returned in order; the error names both")
	sym.Register("C31", sym.Both, PrintForged, "connections presenting 0..3 certificates, against all texts of 59 bytes and prints with any one byte (thorough: any two) replaced: accepted exactly when equal to the print of a presented certificate")
}

// refPrint is the print by its definition.
func refPrint(cert []byte) string {
	return printIn(cert, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567")
}

func printIn(cert []byte, digits string) string {
	h := sha256.Sum256(cert)
	out := []byte("SHA256/")
	for i := 0; i < 52; i++ {
		out = append(out, digits[bits5(h[:], i)])
	}
	return string(out)
}

func PrintText() {
	if sym.Choose("api", 2) == 0 {
		cert := sym.Bytes("cert", sym.Choose("length", sym.Bound(4, 6)))
		kp := keyprint.FromBytes(cert)
		h := sha256.Sum256(cert)
		sym.Assert(len(kp) == 59 && kp[:7] == "SHA256/", "form of the print")
		for i := 0; i < 52; i++ {
			sym.Assert(isDigit32(kp[7+i], bits5(h[:], i)), "digit of the print")
		}
		sym.Observe("print", kp)
		return
	}
	var c tls.Certificate
	n := sym.Choose("certificates", 4)
	for i := 0; i < n; i++ {
		c.Certificate = append(c.Certificate, sym.Bytes("cert", 1+i))
	}
	kps := keyprint.FromCertificate(c)
	sym.Assert(len(kps) == n, "number of prints")
	for i := range kps {
		sym.Assert(sym.Eq(kps[i], refPrint(c.Certificate[i])), "print of the chain")
	}
}

type pieces struct {
	data []byte
	size int
	fail error
}

func (r *pieces) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	n := r.size
	if n > len(r.data) {
		n = len(r.data)
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

func PrintFile() {
	var file bytes.Buffer
	var want []string
	n := sym.Choose("blocks", sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		switch sym.Choose("before", 3) {
		case 1:
			file.WriteString("subject=/CN=hub\n")
		case 2:
			file.WriteString("-----BEGIN nothing\n\n")
		}
		raw := []byte{byte(i)}
		if i == n-1 {
			raw = sym.Bytes("cert", 1+sym.Choose("length", sym.Bound(1, 2)))
		}
		b := &pem.Block{Type: "CERTIFICATE", Bytes: raw}
		switch sym.Choose("block", 4) {
		case 0:
			want = append(want, refPrint(raw))
		case 1:
			want = append(want, refPrint(raw))
			b.Headers = map[string]string{"Name": "hub"}
		case 2:
			b.Type = "PRIVATE KEY"
		case 3:
			b.Type = "CERTIFICATE REQUEST"
		}
		file.Write(pem.EncodeToMemory(b))
	}
	r := &pieces{data: file.Bytes(), size: 1 << 10}
	switch sym.Choose("reads", 3) {
	case 1:
		r.size = 7
	case 2:
		r.fail = errors.New("broken")
		r.size = 33
	}
	broken := r.fail
	got, err := keyprint.FromFile(r)
	sym.Observe("accepted", err == nil)
	if broken != nil {
		sym.Assert(err == broken && len(got) == 0, "failure of the reader not reported")
		return
	}
	sym.Assert((err == nil) == (len(want) != 0), "file without certificates")
	if err != nil {
		sym.Reach("refused")
		sym.Assert(len(got) == 0, "prints and an error")
		return
	}
	sym.Assert(len(got) == len(want), "number of prints")
	for i := range got {
		sym.Assert(sym.Eq(got[i], want[i]), "print in the file")
		sym.Observe("print", got[i])
	}
}

func PrintURL() {
	kp := ""
	switch sym.Choose("value", 2) {
	case 0:
		kp = sym.Str("value", sym.Bound(2, 3))
	case 1:
		b := []byte(refPrint([]byte("x")))
		b[[...]int{0, 6, 7, 30, 58}[sym.Choose("position", 5)]] = sym.Byte("value")
		kp = string(b)
	}
	addr := "adcs://hub.example:1511/?"
	want := ""
	switch sym.Choose("parameters", 6) {
	case 0:
		addr += "kp=" + url.QueryEscape(kp)
		want = kp
	case 1:
		addr += "x=y&kp=" + url.QueryEscape(kp)
		want = kp
	case 2:
		addr += "kp=" + url.QueryEscape(kp) + "&x=y"
		want = kp
	case 3:
		addr += "xkp=" + url.QueryEscape(kp)
	case 4:
		addr += "kpx=" + url.QueryEscape(kp)
	case 5:
		addr = addr[:len(addr)-2]
	}
	u, err := url.Parse(addr)
	sym.Assert(err == nil, "address refused")
	got := keyprint.FromURL(u)
	sym.Observe("print", got)
	sym.Assert(sym.Eq(got, want), "print of the address")
}

func connWith(certs [][]byte) *tls.Conn {
	c := tls.Client(nil, &tls.Config{InsecureSkipVerify: true})
	var list []*x509.Certificate
	for _, raw := range certs {
		list = append(list, &x509.Certificate{Raw: raw})
	}
	if len(list) != 0 {
		sym.SetField(c, "peerCertificates", list)
	}
	return c
}

func checkVerify(certs [][]byte, kp string) {
	want := false
	var prints []string
	for _, c := range certs {
		p := refPrint(c)
		prints = append(prints, p)
		want = sym.Or(want, sym.Eq(p, kp))
	}
	conn := connWith(certs)
	for i, kps := 0, tlskp.GetKeyPrints(conn); i < len(prints); i++ {
		sym.Assert(len(kps) == len(prints) && sym.Eq(kps[i], prints[i]), "prints of the connection")
	}
	kps, err := tlskp.VerifyKeyPrint(conn, kp)
	sym.Observe("accepted", err == nil)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(want, "print accepted without its certificate")
	} else {
		sym.Reach("refused")
		sym.Assert(sym.Not(want), "print of a presented certificate refused")
		e, ok := err.(*tlskp.ErrInvalidKeyPrint)
		sym.Assert(ok && sym.Eq(e.Expected, kp), "expected print in the error")
		sym.Assert(len(e.Actual) == len(prints), "prints in the error")
		for i := range prints {
			sym.Assert(sym.Eq(e.Actual[i], prints[i]), "prints in the error")
		}
	}
	sym.Assert(len(kps) == len(prints), "number of prints")
	for i := range prints {
		sym.Assert(sym.Eq(kps[i], prints[i]), "prints of the connection")
	}
}

func PrintVerify() {
	var certs [][]byte
	n := sym.Choose("certificates", 3)
	for i := 0; i < n; i++ {
		certs = append(certs, sym.Bytes("cert", 1+sym.Choose("length", sym.Bound(1, 2))))
	}
	var from []byte
	if w := sym.Choose("which", n+1); w == n {
		from = sym.Bytes("other", 2)
	} else {
		from = certs[w]
	}
	kp := keyprint.FromBytes(from)
	presented := false
	for _, c := range certs {
		same := sym.EqB(c, from)
		sym.Assume(sym.Or(same, sym.Not(sym.Eq(refPrint(c), refPrint(from))))) // no collision
		presented = sym.Or(presented, same)
	}
	switch sym.Choose("form", 9) {
	case 0:
		_, err := tlskp.VerifyKeyPrint(connWith(certs), kp)
		if err == nil {
			sym.Assert(presented, "accepted although the certificate was not presented")
		} else {
			sym.Assert(sym.Not(presented), "refused although the certificate was presented")
		}
	case 1:
		kp = ""
	case 2:
		kp = kp[7:]
	case 3:
		kp = "SHA1/" + kp[7:]
	case 4:
		kp = "sha256/" + kp[7:]
	case 5:
		kp = kp[:58]
	case 6:
		kp += "A"
	case 7:
		kp = kp[:7]
	case 8:
		kp = printIn(from, "abcdefghijklmnopqrstuvwxyz234567")
	}
	checkVerify(certs, kp)
}

func PrintForged() {
	var certs [][]byte
	n := sym.Choose("certificates", 4)
	for i := 0; i < n; i++ {
		certs = append(certs, []byte{0x30, byte(i)})
	}
	kp := sym.Bytes("print", 59)
	if sym.Choose("forged", 2) == 1 {
		k := sym.Bound(1, 2)
		at := sym.Choose("position", 59-k+1)
		b := []byte(refPrint([]byte{0x30, 0}))
		copy(b[at:at+k], kp)
		kp = b
	}
	checkVerify(certs, string(kp))
}
