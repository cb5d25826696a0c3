package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// refCompact decodes a compact-u16 from b: value, size, ok.
func refCompact(b []byte) (int, int, bool) {
	r := &R{D: b}
	v := r.CompactU16()
	return v, r.P, r.Err == nil
}

type byteRd struct {
	b   []byte
	n   int
	err error
}

func (r *byteRd) ReadByte() (byte, error) {
	if r.n >= len(r.b) {
		return 0, r.err
	}
	r.n++
	return r.b[r.n-1], nil
}

func checkCompactDecode(b []byte) string {
	wv, wn, ok := refCompact(b)
	gv, gn, err := bin.DecodeCompactU16(b)
	if ok != (err == nil) || ok && (gv != wv || gn != wn) {
		return fmt.Sprintf("DecodeCompactU16(%x) = %d, %d, %v; want %d, %d, ok=%v", b, gv, gn, err, wv, wn, ok)
	}
	rd := &byteRd{b: b, err: io.EOF}
	gv, err = bin.DecodeCompactU16LengthFromByteReader(rd)
	if ok != (err == nil) || ok && (gv != wv || rd.n != wn) {
		return fmt.Sprintf("DecodeCompactU16LengthFromByteReader(%x) = %d, %v after %d bytes; want %d, ok=%v after %d", b, gv, err, rd.n, wv, ok, wn)
	}
	// the decoder's own entry points, behind one byte that is not part of it
	pre := append(compactScratch[:1], b...)
	if compactDec == nil {
		compactDec = bin.NewCompactU16Decoder(nil)
	}
	for i, name := range []string{"ReadCompactU16", "ReadCompactU16Length", "ReadLength"} {
		compactDec.Reset(pre)
		if err := compactDec.Discard(1); err != nil {
			return fmt.Sprintf("Discard(1) of %x: %v", pre, err)
		}
		switch i {
		case 0:
			gv, err = compactDec.ReadCompactU16()
		case 1:
			gv, err = compactDec.ReadCompactU16Length()
		default:
			gv, err = compactDec.ReadLength()
		}
		pos := int(compactDec.Position()) - 1
		if ok != (err == nil) || ok && (gv != wv || pos != wn) || !ok && pos != 0 {
			return fmt.Sprintf("%s of %x = %d, %v, moving the position by %d; want %d, ok=%v, %d", name, b, gv, err, pos, wv, ok, wn)
		}
	}
	return ""
}

var (
	compactPre     = bytes.Repeat([]byte{0xAA, 0xBB, 0, 0x80, 0xFF}, 60)
	compactScratch = make([]byte, 1, 64)
	compactDec     *bin.Decoder
	compactFill    = make([]byte, 3+65535)
)

// checkCompactPrefix: the same verdict for b as the length prefix of a byte
// slice and of a string.
func checkCompactPrefix(b []byte) string {
	wv, wn, ok := refCompact(b)
	data := compactFill[:wn+wv]
	if !ok {
		data = compactFill[:min(len(b), 3)+65535]
	}
	copy(data, b)
	var x []byte
	dec := bin.NewCompactU16Decoder(data)
	err := dec.Decode(&x)
	if ok != (err == nil) || ok && (len(x) != wv || int(dec.Position()) != wn+wv) {
		return fmt.Sprintf("compact-u16: a byte slice with the length prefix %x: %d bytes, %v, position %d; want length %d, ok=%v", b, len(x), err, dec.Position(), wv, ok)
	}
	if wv < 3000 {
		var y string
		if err := bin.UnmarshalCompactU16(&y, data); ok != (err == nil) || len(y) != wv {
			return fmt.Sprintf("compact-u16: a string with the length prefix %x: %d bytes, %v; want length %d, ok=%v", b, len(y), err, wv, ok)
		}
	}
	return ""
}

// TestC14: the compact-u16 codec, exhaustively.
func TestC14(t *testing.T) {
	t.Run("values", func(t *testing.T) {
		n := int64(0)
		for v := shard; v <= 0xffff; v += shards {
			w := &W{E: Compact}
			w.CompactU16(v)
			pre := compactPre[:v%len(compactPre)]
			if v%3 == 0 {
				pre = pre[:v%7]
			}
			buf := append(make([]byte, 0, len(pre)+v%5), pre...)
			if err := bin.EncodeCompactU16Length(&buf, v); err != nil {
				t.Fatalf("EncodeCompactU16Length(%d): %v", v, err)
			}
			if want := append(append([]byte(nil), pre...), w.B...); !bytes.Equal(buf, want) {
				t.Fatalf("EncodeCompactU16Length(%d) appended to %x gives %x, want %x", v, pre, buf, want)
			}
			if msg := checkCompactDecode(w.B); msg != "" {
				t.Fatal(msg)
			}
			if msg := checkCompactDecode(append(append([]byte(nil), w.B...), 0x80, 0x01)); msg != "" {
				t.Fatal(msg)
			}
			for k := 0; k < len(w.B); k++ {
				if msg := checkCompactDecode(w.B[:k]); msg != "" {
					t.Fatal(msg)
				}
			}
			// through the encoder and decoder, in every encoding
			e := AllEncs[v%3]
			var out bytes.Buffer
			enc := e.NewEncoder(&out)
			if err := enc.WriteCompactU16(v); err != nil {
				t.Fatalf("WriteCompactU16(%d): %v", v, err)
			}
			if err := enc.WriteCompactU16Length(v); err != nil {
				t.Fatalf("WriteCompactU16Length(%d): %v", v, err)
			}
			if want := append(append([]byte(nil), w.B...), w.B...); !bytes.Equal(out.Bytes(), want) || enc.Written() != len(want) {
				t.Fatalf("WriteCompactU16(%d) twice gives %x (Written %d), want %x", v, out.Bytes(), enc.Written(), want)
			}
			dec := e.NewDecoder(out.Bytes())
			a, err1 := dec.ReadCompactU16()
			p := int(dec.Position())
			b, err2 := dec.ReadCompactU16Length()
			if err1 != nil || err2 != nil || a != v || b != v || p != len(w.B) || dec.HasRemaining() {
				t.Fatalf("reading %x back: %d %v at %d, %d %v, %d left; want %d twice", out.Bytes(), a, err1, p, b, err2, dec.Remaining(), v)
			}
			// as the length of a byte slice in the compact-u16 encoding
			if v%16 == 0 || v < 1024 || v > 65500 || v >= 16380 && v <= 16390 {
				x := make([]byte, v)
				mb, err := bin.MarshalCompactU16(x)
				if err != nil || len(mb) != len(w.B)+v || !bytes.HasPrefix(mb, w.B) {
					t.Fatalf("MarshalCompactU16 of %d bytes: %d bytes starting %s, %v", v, len(mb), hexs(mb[:min(len(mb), 4)]), err)
				}
				var y []byte
				if err := bin.UnmarshalCompactU16(&y, mb); err != nil || len(y) != v {
					t.Fatalf("UnmarshalCompactU16 of %d bytes: %d, %v", v, len(y), err)
				}
			}
			n++
		}
		S.Exhaust("values 0..65535", n)
	})
	t.Run("bytes", func(t *testing.T) {
		// every input of up to three bytes
		n := int64(0)
		b := make([]byte, 3)
		if shard == 0 {
			if msg := checkCompactDecode(nil); msg != "" {
				t.Fatal(msg)
			}
			n++
		}
		for a := shard; a < 256; a += shards {
			b[0] = byte(a)
			if msg := checkCompactDecode(b[:1]); msg != "" {
				t.Fatal(msg)
			}
			n++
			for c := 0; c < 256; c++ {
				b[1] = byte(c)
				if msg := checkCompactDecode(b[:2]); msg != "" {
					t.Fatal(msg)
				}
				for _, d := range []byte{0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0x81, 0x83, 0x84, 0xff} {
					b[2] = d
					if msg := checkCompactPrefix(b[:3]); msg != "" {
						t.Fatal(msg)
					}
				}
				n++
				for d := 0; d < 256; d++ {
					b[2] = byte(d)
					if msg := checkCompactDecode(b[:3]); msg != "" {
						t.Fatal(msg)
					}
					n++
				}
			}
		}
		S.Exhaust("inputs of 0 to 3 bytes", n)
	})
	t.Run("random", func(t *testing.T) {
		check(t, 100, func(t *rapid.T) {
			s := RS{t}
			// longer inputs, and values that do not fit
			b := genBuf(s)
			S.Case(len(b) > 3, func() string { return fmt.Sprintf("decode %x", b) })
			if msg := checkCompactDecode(b); msg != "" {
				t.Fatalf("%s", msg)
			}
			v := int(GenInt(s, 64))
			if s.N(2) == 0 {
				v = 65536 + s.N(1<<20)
			}
			if v >= 0 && v <= 0xffff {
				return
			}
			S.Class("value out of range")
			S.Case(true, func() string { return fmt.Sprintf("encode %d", v) })
			buf := []byte{1, 2, 3}
			if err := bin.EncodeCompactU16Length(&buf, v); err == nil {
				t.Fatalf("EncodeCompactU16Length(%d) succeeded with %x", v, buf)
			}
			if !bytes.Equal(buf, []byte{1, 2, 3}) {
				t.Fatalf("EncodeCompactU16Length(%d) failed and left %x", v, buf)
			}
			var out bytes.Buffer
			enc := AllEncs[s.N(3)].NewEncoder(&out)
			if err := enc.WriteCompactU16(v); err == nil {
				t.Fatalf("WriteCompactU16(%d) succeeded with %x", v, out.Bytes())
			}
			if err := enc.WriteCompactU16Length(v); err == nil {
				t.Fatalf("WriteCompactU16Length(%d) succeeded with %x", v, out.Bytes())
			}
			if out.Len() != 0 || enc.Written() != 0 {
				t.Fatalf("WriteCompactU16(%d) failed after writing %x", v, out.Bytes())
			}
			ce := bin.NewCompactU16Encoder(&out)
			if err := ce.WriteLength(v); err == nil {
				t.Fatalf("compact-u16 WriteLength(%d) succeeded with %x", v, out.Bytes())
			}
			// a reader's error is passed on
			boom := errors.New("boom")
			rd := &byteRd{b: []byte{0x80, 0x80}[:s.N(3)], err: boom}
			if _, err := bin.DecodeCompactU16LengthFromByteReader(rd); err == nil {
				t.Fatalf("a failing reader was ignored")
			}
		})
	})
}

// TestC15: varints.
// refused: the bytes of a varint that is out of range decode as neither of the
// two destinations, the second of which is a struct.
func refused(e Enc, in []byte, one, many interface{}) string {
	if err := e.NewDecoder(in).Decode(one); err == nil {
		return fmt.Sprintf("%s: %T accepts the varint %x, which is out of range", e, one, in)
	}
	if err := e.NewDecoder(in).Decode(many); err == nil {
		return fmt.Sprintf("%s: %T accepts the varint in %x, which is out of range", e, many, in)
	}
	return ""
}

func TestC15(t *testing.T) {
	oneU := func(v uint64) string {
		w := &W{}
		w.Uvarint(v)
		if v <= math.MaxInt64 {
			var out bytes.Buffer
			enc := AllEncs[v%3].NewEncoder(&out)
			if err := enc.WriteUVarInt(int(v)); err != nil {
				return fmt.Sprintf("WriteUVarInt(%d): %v", v, err)
			}
			if !bytes.Equal(out.Bytes(), w.B) || enc.Written() != len(w.B) {
				return fmt.Sprintf("WriteUVarInt(%d) = %x (Written %d), want %x", v, out.Bytes(), enc.Written(), w.B)
			}
		}
		in := append(append([]byte(nil), w.B...), 0xff)
		d := AllEncs[v%3].NewDecoder(in)
		got, err := d.ReadUvarint64()
		if err != nil || got != v || int(d.Position()) != len(w.B) {
			return fmt.Sprintf("ReadUvarint64(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
		}
		if v <= math.MaxUint32 {
			d.Reset(in)
			got, err := d.ReadUvarint32()
			if err != nil || uint64(got) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("ReadUvarint32(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
			}
			var x bin.Varuint32
			d.Reset(in)
			if err := d.Decode(&x); err != nil || uint64(x) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("Varuint32 from %x = %d, %v, position %d; want %d", in, x, err, d.Position(), v)
			}
			if b, _, err := AllEncs[v%3].EncodeVia(x); err != nil || !bytes.Equal(b, w.B) {
				return fmt.Sprintf("Varuint32(%d) encodes as %x, %v; want %x", v, b, err, w.B)
			}
		} else {
			var x bin.Varuint32
			var y struct{ F *bin.Varuint32 }
			if msg := refused(AllEncs[v%3], in, &x, &y); msg != "" {
				return msg
			}
		}
		if v > math.MaxUint16 {
			var x bin.Varuint16
			var y struct{ F *bin.Varuint16 }
			if msg := refused(AllEncs[v%3], in, &x, &y); msg != "" {
				return msg
			}
		}
		if v <= math.MaxUint16 {
			d.Reset(in)
			got, err := d.ReadUvarint16()
			if err != nil || uint64(got) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("ReadUvarint16(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
			}
			var x bin.Varuint16
			d.Reset(in)
			if err := d.Decode(&x); err != nil || uint64(x) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("Varuint16 from %x = %d, %v, position %d; want %d", in, x, err, d.Position(), v)
			}
			if b, _, err := AllEncs[v%3].EncodeVia(x); err != nil || !bytes.Equal(b, w.B) {
				return fmt.Sprintf("Varuint16(%d) encodes as %x, %v; want %x", v, b, err, w.B)
			}
		}
		for k := 0; k < len(w.B); k++ {
			d.Reset(w.B[:k])
			if got, err := d.ReadUvarint64(); err == nil || d.Position() != 0 {
				return fmt.Sprintf("ReadUvarint64(%x) = %d, %v, position %d; want an error at 0", w.B[:k], got, err, d.Position())
			}
		}
		return ""
	}
	oneS := func(v int64) string {
		w := &W{}
		w.Varint(v)
		e := AllEncs[uint64(v)%3]
		var out bytes.Buffer
		enc := e.NewEncoder(&out)
		if err := enc.WriteVarInt(int(v)); err != nil {
			return fmt.Sprintf("WriteVarInt(%d): %v", v, err)
		}
		if !bytes.Equal(out.Bytes(), w.B) || enc.Written() != len(w.B) {
			return fmt.Sprintf("WriteVarInt(%d) = %x (Written %d), want %x", v, out.Bytes(), enc.Written(), w.B)
		}
		in := append(append([]byte(nil), w.B...), 0xff)
		d := e.NewDecoder(in)
		got, err := d.ReadVarint64()
		if err != nil || got != v || int(d.Position()) != len(w.B) {
			return fmt.Sprintf("ReadVarint64(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
		}
		if v == int64(int32(v)) {
			d.Reset(in)
			got, err := d.ReadVarint32()
			if err != nil || int64(got) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("ReadVarint32(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
			}
			var x bin.Varint32
			d.Reset(in)
			if err := d.Decode(&x); err != nil || int64(x) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("Varint32 from %x = %d, %v, position %d; want %d", in, x, err, d.Position(), v)
			}
			if b, _, err := e.EncodeVia(x); err != nil || !bytes.Equal(b, w.B) {
				return fmt.Sprintf("Varint32(%d) encodes as %x, %v; want %x", v, b, err, w.B)
			}
		} else {
			var x bin.Varint32
			var y struct{ F *bin.Varint32 }
			if msg := refused(e, in, &x, &y); msg != "" {
				return msg
			}
		}
		if v != int64(int16(v)) {
			var x bin.Varint16
			var y struct{ F *bin.Varint16 }
			if msg := refused(e, in, &x, &y); msg != "" {
				return msg
			}
		}
		if v == int64(int16(v)) {
			d.Reset(in)
			got, err := d.ReadVarint16()
			if err != nil || int64(got) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("ReadVarint16(%x) = %d, %v, position %d; want %d", in, got, err, d.Position(), v)
			}
			var x bin.Varint16
			d.Reset(in)
			if err := d.Decode(&x); err != nil || int64(x) != v || int(d.Position()) != len(w.B) {
				return fmt.Sprintf("Varint16 from %x = %d, %v, position %d; want %d", in, x, err, d.Position(), v)
			}
			if b, _, err := e.EncodeVia(x); err != nil || !bytes.Equal(b, w.B) {
				return fmt.Sprintf("Varint16(%d) encodes as %x, %v; want %x", v, b, err, w.B)
			}
		}
		for k := 0; k < len(w.B); k++ {
			d.Reset(w.B[:k])
			if got, err := d.ReadVarint64(); err == nil || d.Position() != 0 {
				return fmt.Sprintf("ReadVarint64(%x) = %d, %v, position %d; want an error at 0", w.B[:k], got, err, d.Position())
			}
		}
		return ""
	}
	safely := func(fn func() string) (msg string) {
		if p := catch(func() { msg = fn() }); p != "" {
			return p
		}
		return msg
	}
	t.Run("small", func(t *testing.T) {
		n := int64(0)
		for v := shard; v <= 0xffff; v += shards {
			if msg := safely(func() string { return oneU(uint64(v)) }); msg != "" {
				t.Fatalf("%d: %s", v, msg)
			}
			if msg := safely(func() string { return oneS(int64(int16(v))) }); msg != "" {
				t.Fatalf("%d: %s", int16(v), msg)
			}
			n += 2
		}
		S.Exhaust("all 16-bit values, signed and unsigned", n)
	})
	t.Run("boundaries", func(t *testing.T) {
		for k := 0; k < 64; k++ {
			for d := -2; d <= 2; d++ {
				u := uint64(1)<<uint(k) + uint64(d)
				S.Case(true, func() string { return fmt.Sprintf("boundary %d", u) })
				if msg := safely(func() string { return oneU(u) }); msg != "" {
					t.Fatalf("%d: %s", u, msg)
				}
				for _, x := range []int64{int64(u), -int64(u)} {
					if msg := safely(func() string { return oneS(x) }); msg != "" {
						t.Fatalf("%d: %s", x, msg)
					}
				}
			}
		}
	})
	t.Run("random", func(t *testing.T) {
		check(t, 60, func(t *rapid.T) {
			s := RS{t}
			u := GenUint(s, 1+s.N(64))
			S.Case(u > 127, func() string { return fmt.Sprintf("value %d", u) })
			if msg := safely(func() string { return oneU(u) }); msg != "" {
				t.Fatalf("%s", msg)
			}
			if msg := safely(func() string { return oneS(int64(u)) }); msg != "" {
				t.Fatalf("%s", msg)
			}
		})
	})
	t.Run("bytes", func(t *testing.T) {
		check(t, 60, func(t *rapid.T) {
			s := RS{t}
			var b []byte
			n := s.N(13)
			for i := 0; i < n; i++ {
				x := byte(GenUint(s, 8))
				if s.N(4) > 0 {
					x |= 0x80
				}
				b = append(b, x)
			}
			if s.N(2) == 0 {
				b = append(b, byte(s.N(128)))
			}
			S.Case(len(b) > 1, func() string { return fmt.Sprintf("bytes %x", b) })
			for _, name := range []string{"ReadUvarint64", "ReadVarint64", "ReadUvarint32", "ReadVarint32", "ReadUvarint16", "ReadVarint16"} {
				for _, op := range allReadOps {
					if op.name != name {
						continue
					}
					r := &R{E: Bin, D: b}
					want := op.ref(r)
					d := bin.NewBinDecoder(b)
					got, err := op.lib(d)
					if r.DontCare {
						continue
					}
					S.ClassIf(r.Err != nil, "bytes that are no varint")
					if (err != nil) != (r.Err != nil) || err == nil && (got != want || int(d.Position()) != r.P) || err != nil && d.Position() != 0 {
						t.Fatalf("%s(%x) = %s, %v, position %d; want %s, %v, position %d", name, b, got, err, d.Position(), want, r.Err, r.P)
					}
				}
			}
		})
	})
}
