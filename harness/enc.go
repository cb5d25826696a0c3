// Package harness holds the schema language, the independent reference codec
// and the generators that the property checks (the *_test.go files) share.
// It uses only the exported API of github.com/gagliardetto/binary.
package harness

import (
	"bytes"
	"io"

	bin "github.com/gagliardetto/binary"
)

// Enc is one of the three wire encodings.
type Enc int

const (
	Bin Enc = iota
	Compact
	Borsh
)

var AllEncs = []Enc{Bin, Compact, Borsh}

func (e Enc) String() string { return [...]string{"bin", "compact-u16", "borsh"}[e] }

func (e Enc) Lib() bin.Encoding {
	return [...]bin.Encoding{bin.EncodingBin, bin.EncodingCompactU16, bin.EncodingBorsh}[e]
}

func (e Enc) Marshal(v interface{}) ([]byte, error) {
	switch e {
	case Bin:
		return bin.MarshalBin(v)
	case Compact:
		return bin.MarshalCompactU16(v)
	}
	return bin.MarshalBorsh(v)
}

func (e Enc) Unmarshal(v interface{}, b []byte) error {
	switch e {
	case Bin:
		return bin.UnmarshalBin(v, b)
	case Compact:
		return bin.UnmarshalCompactU16(v, b)
	}
	return bin.UnmarshalBorsh(v, b)
}

func (e Enc) ByteCount(v interface{}) (uint64, error) {
	switch e {
	case Bin:
		return bin.BinByteCount(v)
	case Compact:
		return bin.CompactU16ByteCount(v)
	}
	return bin.BorshByteCount(v)
}

func (e Enc) MustByteCount(v interface{}) uint64 {
	switch e {
	case Bin:
		return bin.MustBinByteCount(v)
	case Compact:
		return bin.MustCompactU16ByteCount(v)
	}
	return bin.MustBorshByteCount(v)
}

func (e Enc) NewEncoder(w io.Writer) *bin.Encoder {
	switch e {
	case Bin:
		return bin.NewBinEncoder(w)
	case Compact:
		return bin.NewCompactU16Encoder(w)
	}
	return bin.NewBorshEncoder(w)
}

func (e Enc) NewDecoder(b []byte) *bin.Decoder {
	switch e {
	case Bin:
		return bin.NewBinDecoder(b)
	case Compact:
		return bin.NewCompactU16Decoder(b)
	}
	return bin.NewBorshDecoder(b)
}

// EncodeVia encodes with a plain encoder into a buffer.
func (e Enc) EncodeVia(v interface{}) ([]byte, int, error) {
	var buf bytes.Buffer
	enc := e.NewEncoder(&buf)
	err := enc.Encode(v)
	return buf.Bytes(), enc.Written(), err
}
