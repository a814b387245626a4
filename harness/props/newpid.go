package props

import (
	"crypto/rand"
	"errors"

	"github.com/direct-connect/go-dc/adc/types"

	"verif/harness/sym"
)

func init() {
	sym.Register("C24", sym.Both, NewPID, "new private identifiers from a random source with arbitrary bytes or one that fails: the bytes of the source, all of them, or its error")
}

type pidSource struct {
	data []byte
	err  error
}

func (s *pidSource) Read(p []byte) (int, error) {
	if s.err != nil {
		return 0, s.err
	}
	n := copy(p, s.data)
	s.data = s.data[n:]
	return n, nil
}

func NewPID() {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	src := &pidSource{data: sym.Bytes("random", 48)}
	data := src.data
	if sym.Choose("fails", 2) == 1 {
		src.err = errors.New("no randomness")
	}
	rand.Reader = src
	a, err := types.NewPID()
	if src.err != nil {
		sym.Assert(err != nil, "identifier without randomness")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "no identifier")
	sym.Assert(sym.EqB(a[:], data[:24]), "not the bytes of the random source")
	b, err := types.NewPID()
	sym.Assert(err == nil, "no identifier")
	sym.Assert(sym.EqB(b[:], data[24:]), "not the bytes of the random source")
	sym.Assert(sym.EqB(a[:], data[:24]), "identifiers share memory")
	sym.Reach("made")
}
