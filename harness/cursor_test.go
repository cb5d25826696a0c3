package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

func orderOf(big bool) binary.ByteOrder {
	if big {
		return bin.BE
	}
	return bin.LE
}

// rdRes is the outcome of a read: a printable value, or an error.
type rdRes struct {
	val string
	err error
}

// rdOp is one read operation: lib runs it on the decoder, ref on the model.
// strict: a failing read leaves the position where it was.
type rdOp struct {
	name   string
	strict bool
	lib    func(d *bin.Decoder) (string, error)
	ref    func(r *R) string
}

func sv(v interface{}) string { return fmt.Sprintf("%v", v) }

// readOps are the reads without further arguments.
func readOps() []rdOp {
	var ops []rdOp
	add := func(name string, strict bool, lib func(d *bin.Decoder) (string, error), ref func(r *R) string) {
		ops = append(ops, rdOp{name, strict, lib, ref})
	}
	add("ReadByte", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadByte(); return sv(v), err }, func(r *R) string { return sv(r.U8()) })
	add("ReadUint8", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadUint8(); return sv(v), err }, func(r *R) string { return sv(r.U8()) })
	add("ReadInt8", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadInt8(); return sv(v), err }, func(r *R) string { return sv(int8(r.U8())) })
	add("ReadBool", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadBool(); return sv(v), err }, func(r *R) string { return sv(r.Bool()) })
	add("ReadOption", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadOption(); return sv(v), err }, func(r *R) string { return sv(r.Bool()) })
	add("ReadCOption", false, func(d *bin.Decoder) (string, error) { v, err := d.ReadCOption(); return sv(v), err }, func(r *R) string {
		x := r.U32(false)
		if x > 1 {
			r.fail("coption flag")
		}
		return sv(x == 1)
	})
	for _, big := range []bool{false, true} {
		big := big
		o := orderOf(big)
		n := map[bool]string{false: "LE", true: "BE"}[big]
		add("ReadUint16"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadUint16(o); return sv(v), err }, func(r *R) string { return sv(r.U16(big)) })
		add("ReadInt16"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadInt16(o); return sv(v), err }, func(r *R) string { return sv(int16(r.U16(big))) })
		add("ReadUint32"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadUint32(o); return sv(v), err }, func(r *R) string { return sv(r.U32(big)) })
		add("ReadInt32"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadInt32(o); return sv(v), err }, func(r *R) string { return sv(int32(r.U32(big))) })
		add("ReadUint64"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadUint64(o); return sv(v), err }, func(r *R) string { return sv(r.U64(big)) })
		add("ReadInt64"+n, true, func(d *bin.Decoder) (string, error) { v, err := d.ReadInt64(o); return sv(v), err }, func(r *R) string { return sv(int64(r.U64(big))) })
		u128 := func(r *R) string {
			if r.Rem() < 16 {
				r.Err = errEOF
				return ""
			}
			hi, lo := r.U128(big)
			return fmt.Sprintf("%d:%d", hi, lo)
		}
		add("ReadUint128"+n, true, func(d *bin.Decoder) (string, error) {
			v, err := d.ReadUint128(o)
			return fmt.Sprintf("%d:%d", v.Hi, v.Lo), err
		}, u128)
		add("ReadInt128"+n, true, func(d *bin.Decoder) (string, error) {
			v, err := d.ReadInt128(o)
			return fmt.Sprintf("%d:%d", v.Hi, v.Lo), err
		}, u128)
		add("ReadFloat128"+n, true, func(d *bin.Decoder) (string, error) {
			v, err := d.ReadFloat128(o)
			return fmt.Sprintf("%d:%d", v.Hi, v.Lo), err
		}, u128)
		add("ReadFloat32"+n, false, func(d *bin.Decoder) (string, error) {
			v, err := d.ReadFloat32(o)
			return f32s(v), err
		}, func(r *R) string {
			f := math.Float32frombits(r.U32(big))
			if r.E == Borsh && f != f {
				r.fail("NaN")
			}
			return f32s(f)
		})
		add("ReadFloat64"+n, false, func(d *bin.Decoder) (string, error) {
			v, err := d.ReadFloat64(o)
			return f64s(v), err
		}, func(r *R) string {
			f := math.Float64frombits(r.U64(big))
			if r.E == Borsh && f != f {
				r.fail("NaN")
			}
			return f64s(f)
		})
	}
	add("ReadUvarint64", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadUvarint64(); return sv(v), err }, func(r *R) string { return sv(r.Uvarint()) })
	add("ReadVarint64", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadVarint64(); return sv(v), err }, func(r *R) string { return sv(r.Varint()) })
	un := func(name string, max uint64, lib func(d *bin.Decoder) (string, error)) {
		add(name, true, lib, func(r *R) string {
			v := r.Uvarint()
			if v > max && r.Err == nil {
				r.fail("varint too large")
			}
			return sv(v)
		})
	}
	un("ReadUvarint32", math.MaxUint32, func(d *bin.Decoder) (string, error) { v, err := d.ReadUvarint32(); return sv(v), err })
	un("ReadUvarint16", math.MaxUint16, func(d *bin.Decoder) (string, error) { v, err := d.ReadUvarint16(); return sv(v), err })
	sn := func(name string, max int64, lib func(d *bin.Decoder) (string, error)) {
		add(name, true, lib, func(r *R) string {
			v := r.Varint()
			if (v > max || v < -max-1) && r.Err == nil {
				r.fail("varint too large")
			}
			return sv(v)
		})
	}
	sn("ReadVarint32", math.MaxInt32, func(d *bin.Decoder) (string, error) { v, err := d.ReadVarint32(); return sv(v), err })
	sn("ReadVarint16", math.MaxInt16, func(d *bin.Decoder) (string, error) { v, err := d.ReadVarint16(); return sv(v), err })
	add("ReadCompactU16", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadCompactU16(); return sv(v), err }, func(r *R) string { return sv(r.CompactU16()) })
	add("ReadCompactU16Length", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadCompactU16Length(); return sv(v), err }, func(r *R) string { return sv(r.CompactU16()) })
	add("ReadLength", false, func(d *bin.Decoder) (string, error) { v, err := d.ReadLength(); return sv(v), err }, func(r *R) string {
		n := r.Length()
		if r.Err == nil && n > maxLen {
			r.fail("length too large")
		}
		return sv(n)
	})
	add("ReadByteSlice", false, func(d *bin.Decoder) (string, error) { v, err := d.ReadByteSlice(); return string(v), err }, func(r *R) string { return string(r.LenBytes()) })
	add("ReadString", false, func(d *bin.Decoder) (string, error) { return d.ReadString() }, func(r *R) string { return string(r.LenBytes()) })
	add("SafeReadUTF8String", false, func(d *bin.Decoder) (string, error) { return d.SafeReadUTF8String() }, func(r *R) string { return SafeUTF8(r.LenBytes()) })
	add("ReadRustString", false, func(d *bin.Decoder) (string, error) { return d.ReadRustString() }, func(r *R) string {
		n := r.U64(false)
		if n > maxLen {
			r.fail("string length")
			return ""
		}
		return string(r.Take(int(n)))
	})
	tid := func(r *R) string { var id [8]byte; copy(id[:], r.Take(8)); return sv(id) }
	add("ReadTypeID", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadTypeID(); return sv([8]byte(v)), err }, tid)
	add("ReadDiscriminator", true, func(d *bin.Decoder) (string, error) { v, err := d.ReadDiscriminator(); return sv([8]byte(v)), err }, tid)
	add("PeekDiscriminator", true, func(d *bin.Decoder) (string, error) { v, err := d.PeekDiscriminator(); return sv([8]byte(v)), err }, func(r *R) string {
		p := r.P
		s := tid(r)
		r.P = p
		return s
	})
	return ops
}

func f32s(f float32) string {
	if f != f {
		return "NaN"
	}
	return fmt.Sprintf("f32:%08x", math.Float32bits(f))
}
func f64s(f float64) string {
	if f != f {
		return "NaN"
	}
	return fmt.Sprintf("f64:%016x", math.Float64bits(f))
}

var allReadOps = readOps()

// genN draws a byte count, including absurd ones.
func genN(s Src, rem int) int {
	switch s.N(8) {
	case 0:
		return 0
	case 1:
		return rem
	case 2:
		return rem + 1
	case 3:
		return []int{-1, math.MinInt64, math.MaxInt64, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64 - 1, -rem, math.MinInt32}[s.N(8)]
	default:
		return s.N(rem + 3)
	}
}

// genBuf draws a buffer for primitive reads.
func genBuf(s Src) []byte {
	n := s.N(50)
	switch s.N(12) {
	case 0:
		n = 0
	case 1:
		n = 300
	case 2:
		var src Src
		if n, src = logLen(s, 70000); n > 40 {
			s = src
		}
	}
	b := make([]byte, 0, n+8)
	for len(b) < n {
		switch s.N(5) {
		case 0:
			b = append(b, byte(s.N(4)))
		case 1:
			b = append(b, []byte{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0xc3, 0xa9}[s.N(8)])
		case 2: // a plausible length-prefixed string
			w := &W{E: AllEncs[s.N(3)]}
			k := s.N(6)
			if n > 300 {
				k = s.N(n)
			}
			w.LenBytes([]byte(GenString(s, k)))
			b = append(b, w.B...)
		case 3:
			w := &W{}
			w.Uvarint(GenUint(s, 64))
			b = append(b, w.B...)
		default:
			b = append(b, byte(GenUint(s, 8)))
		}
	}
	return b
}

func TestC10(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		data := genBuf(s)
		dec := e.NewDecoder(data)
		r := &R{E: e, D: data}
		ops := 1 + s.N(25)
		var log []string
		fails, oks := 0, 0
		defer func() {
			S.Case(oks > 0 && fails > 0 || oks > 3, func() string {
				return fmt.Sprintf("%s | %x | %s", e, data, strings.Join(log, " "))
			})
			S.ClassIf(fails > 0 && oks > 0, "history with successes and failures")
		}()
		for i := 0; i < ops; i++ {
			before := r.P
			var name, lv, rv string
			var lerr error
			strict := true
			fill := false
			msg := ""
			do := func(fn func()) { msg = catch(fn) }
			switch k := s.N(20); {
			case k < 11:
				op := allReadOps[s.N(len(allReadOps))]
				name, strict = op.name, op.strict
				do(func() { lv, lerr = op.lib(dec) })
				rv = op.ref(r)
			case k == 11:
				n := genN(s, r.Rem())
				which := s.N(3)
				name = fmt.Sprintf("%s(%d)", []string{"ReadNBytes", "ReadBytes", "Peek"}[which], n)
				do(func() {
					var b []byte
					switch which {
					case 0:
						b, lerr = dec.ReadNBytes(n)
					case 1:
						b, lerr = dec.ReadBytes(n)
					default:
						b, lerr = dec.Peek(n)
					}
					lv = string(b)
				})
				rv = string(r.Take(n))
				if which == 2 {
					r.P = before
				}
			case k == 12:
				n := genN(s, r.Rem())
				if n < 0 || n > 1000 {
					n = r.Rem()
				}
				name = fmt.Sprintf("Read(%d)", n)
				buf := make([]byte, n)
				do(func() {
					var m int
					m, lerr = dec.Read(buf)
					if lerr == nil && m != n {
						lv = fmt.Sprintf("short read of %d", m)
					} else {
						lv = string(buf)
					}
				})
				rv = string(r.Take(n))
			case k == 13:
				n := genN(s, r.Rem())
				name = fmt.Sprintf("Discard(%d)", n)
				do(func() { lerr = dec.Discard(n) })
				r.Take(n)
			case k == 14:
				n := uint(genN(s, r.Rem()))
				name = fmt.Sprintf("SkipBytes(%d)", n)
				do(func() { lerr = dec.SkipBytes(n) })
				if n > uint(r.Rem()) {
					r.Err = errEOF
				} else {
					r.P += int(n)
				}
			case k == 15:
				n := uint(genN(s, len(r.D)))
				if n == uint(len(r.D)) {
					continue // left open
				}
				name = fmt.Sprintf("SetPosition(%d)", n)
				do(func() { lerr = dec.SetPosition(n) })
				if n > uint(len(r.D)) {
					r.Err = errEOF
				} else {
					r.P = int(n)
				}
			case k == 16:
				data2 := genBuf(s)
				name = fmt.Sprintf("Reset(%x)", data2)
				do(func() { dec.Reset(data2) })
				r.D, r.P = data2, 0
				data = data2
			case k == 17:
				e2 := AllEncs[s.N(3)]
				name = "SetEncoding(" + e2.String() + ")"
				do(func() { dec.SetEncoding(e2.Lib()) })
				r.E = e2
			default:
				ty := []*Ty{Prim(KU16), Prim(KStr), SliceTy(Prim(KU8)), SliceTy(Prim(KU16)), Prim(KBool), StaticByName["MyPoint"], MapTy(Prim(KU8), Prim(KU8))}[s.N(7)]
				name, strict, fill = "Decode("+ty.String()+")", false, true
				p := reflect.New(ty.RT())
				do(func() { lerr = dec.Decode(p.Interface()) })
				q := reflect.New(ty.RT()).Elem()
				r.Val(ty, q, noFO)
				if lerr == nil && r.Err == nil {
					lv = Diff(r.E, ty, q, p.Elem())
				}
			}
			_ = fill
			log = append(log, name)
			t.Logf("%s: %q %v; position %d", name, lv, lerr, dec.Position())
			if msg != "" {
				t.Fatalf("%s panicked: %s\nhistory %v on %x", name, msg, log, data)
			}
			if r.DontCare { // out-of-range value for the width
				r.DontCare, r.Err = false, nil
				r.P = int(dec.Position())
			} else if r.Err != nil {
				fails++
				S.Class("failing op")
				if lerr == nil {
					t.Fatalf("%s at %d of %x succeeded with %q, want an error (%v)\nhistory %v", name, before, data, lv, r.Err, log)
				}
				r.Err = nil
				p := int(dec.Position())
				if strict && p != before {
					t.Fatalf("%s failed at %d of %x and moved the cursor to %d\nhistory %v", name, before, data, p, log)
				}
				if p < before || p > len(data) {
					t.Fatalf("%s failed at %d of %x and left the cursor at %d\nhistory %v", name, before, data, p, log)
				}
				r.P = p
			} else {
				oks++
				if lerr != nil {
					t.Fatalf("%s at %d of %x failed: %v\nhistory %v", name, before, data, lerr, log)
				}
				if lv != rv {
					t.Fatalf("%s at %d of %x returned %q, want %q\nhistory %v", name, before, data, lv, rv, log)
				}
			}
			if int(dec.Position()) != r.P || dec.Remaining() != len(data)-r.P || dec.Len() != len(data) || dec.HasRemaining() != (r.P < len(data)) {
				t.Fatalf("after %s at %d of %x: position %d, remaining %d, length %d, has remaining %v; want position %d of %d\nhistory %v", name, before, data, dec.Position(), dec.Remaining(), dec.Len(), dec.HasRemaining(), r.P, len(data), log)
			}
			if dec.IsBin() != (r.E == Bin) || dec.IsBorsh() != (r.E == Borsh) || dec.IsCompactU16() != (r.E == Compact) {
				t.Fatalf("after %s the decoder reports the wrong encoding (want %s)", name, r.E)
			}
		}
	})
}

// wrOp is a drawn write: run on the encoder, on the model, and read back.
type wrOp struct {
	name string
	lib  func(e *bin.Encoder) error
	ref  func(w *W)
	back func(d *bin.Decoder) (string, error)
	want string
}

// wrappedOrder is a byte order that is neither of the two of encoding/binary.
type wrappedOrder struct{ binary.ByteOrder }

func genWrite(s Src, e Enc) wrOp {
	big := s.N(2) == 1
	o := orderOf(big)
	os := map[bool]string{false: "LE", true: "BE"}[big]
	if chance(s, 1, 12) { // a byte order of the caller's own
		o = wrappedOrder{o}
		os += "(wrapped)"
	}
	switch s.N(27) {
	case 0:
		v := byte(GenUint(s, 8))
		return wrOp{fmt.Sprintf("WriteByte(%d)", v), func(e *bin.Encoder) error { return e.WriteByte(v) }, func(w *W) { w.U8(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadByte(); return sv(x), err }, sv(v)}
	case 1:
		v := uint8(GenUint(s, 8))
		return wrOp{fmt.Sprintf("WriteUint8(%d)", v), func(e *bin.Encoder) error { return e.WriteUint8(v) }, func(w *W) { w.U8(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadUint8(); return sv(x), err }, sv(v)}
	case 2:
		v := int8(GenInt(s, 8))
		return wrOp{fmt.Sprintf("WriteInt8(%d)", v), func(e *bin.Encoder) error { return e.WriteInt8(v) }, func(w *W) { w.U8(uint8(v)) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadInt8(); return sv(x), err }, sv(v)}
	case 3:
		v := uint16(GenUint(s, 16))
		return wrOp{fmt.Sprintf("WriteUint16%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteUint16(v, o) }, func(w *W) { w.U16(v, big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadUint16(o); return sv(x), err }, sv(v)}
	case 4:
		v := int16(GenInt(s, 16))
		return wrOp{fmt.Sprintf("WriteInt16%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteInt16(v, o) }, func(w *W) { w.U16(uint16(v), big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadInt16(o); return sv(x), err }, sv(v)}
	case 5:
		v := uint32(GenUint(s, 32))
		return wrOp{fmt.Sprintf("WriteUint32%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteUint32(v, o) }, func(w *W) { w.U32(v, big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadUint32(o); return sv(x), err }, sv(v)}
	case 6:
		v := int32(GenInt(s, 32))
		return wrOp{fmt.Sprintf("WriteInt32%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteInt32(v, o) }, func(w *W) { w.U32(uint32(v), big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadInt32(o); return sv(x), err }, sv(v)}
	case 7:
		v := GenUint(s, 64)
		return wrOp{fmt.Sprintf("WriteUint64%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteUint64(v, o) }, func(w *W) { w.U64(v, big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadUint64(o); return sv(x), err }, sv(v)}
	case 8:
		v := GenInt(s, 64)
		return wrOp{fmt.Sprintf("WriteInt64%s(%d)", os, v), func(e *bin.Encoder) error { return e.WriteInt64(v, o) }, func(w *W) { w.U64(uint64(v), big) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadInt64(o); return sv(x), err }, sv(v)}
	case 9:
		hi, lo := GenUint(s, 64), GenUint(s, 64)
		own := []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}[s.N(3)] // not used by the writer: o is
		return wrOp{fmt.Sprintf("WriteUint128%s(%d:%d, own order %v)", os, hi, lo, own), func(e *bin.Encoder) error { return e.WriteUint128(bin.Uint128{Lo: lo, Hi: hi, Endianness: own}, o) }, func(w *W) { w.U128(hi, lo, big) }, func(d *bin.Decoder) (string, error) {
			x, err := d.ReadUint128(orderOf(big))
			return fmt.Sprintf("%d:%d", x.Hi, x.Lo), err
		}, fmt.Sprintf("%d:%d", hi, lo)}
	case 10:
		hi, lo := GenUint(s, 64), GenUint(s, 64)
		own := []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}[s.N(3)] // not used by the writer: o is
		return wrOp{fmt.Sprintf("WriteInt128%s(%d:%d, own order %v)", os, hi, lo, own), func(e *bin.Encoder) error { return e.WriteInt128(bin.Int128{Lo: lo, Hi: hi, Endianness: own}, o) }, func(w *W) { w.U128(hi, lo, big) }, func(d *bin.Decoder) (string, error) {
			x, err := d.ReadInt128(orderOf(big))
			return fmt.Sprintf("%d:%d", x.Hi, x.Lo), err
		}, fmt.Sprintf("%d:%d", hi, lo)}
	case 11:
		v := GenF32(s, true)
		return wrOp{fmt.Sprintf("WriteFloat32%s(%v)", os, v), func(e *bin.Encoder) error { return e.WriteFloat32(v, o) }, func(w *W) {
			if w.E == Borsh && v != v {
				w.fail("NaN")
				return
			}
			w.U32(math.Float32bits(v), big)
		}, func(d *bin.Decoder) (string, error) { x, err := d.ReadFloat32(o); return f32s(x), err }, f32s(v)}
	case 12:
		v := GenF64(s, true)
		return wrOp{fmt.Sprintf("WriteFloat64%s(%v)", os, v), func(e *bin.Encoder) error { return e.WriteFloat64(v, o) }, func(w *W) {
			if w.E == Borsh && v != v {
				w.fail("NaN")
				return
			}
			w.U64(math.Float64bits(v), big)
		}, func(d *bin.Decoder) (string, error) { x, err := d.ReadFloat64(o); return f64s(x), err }, f64s(v)}
	case 13, 14:
		v := s.N(2) == 1
		ref := func(w *W) {
			if v {
				w.U8(1)
			} else {
				w.U8(0)
			}
		}
		if big {
			return wrOp{fmt.Sprintf("WriteBool(%v)", v), func(e *bin.Encoder) error { return e.WriteBool(v) }, ref, func(d *bin.Decoder) (string, error) { x, err := d.ReadBool(); return sv(x), err }, sv(v)}
		}
		return wrOp{fmt.Sprintf("WriteOption(%v)", v), func(e *bin.Encoder) error { return e.WriteOption(v) }, ref, func(d *bin.Decoder) (string, error) { x, err := d.ReadOption(); return sv(x), err }, sv(v)}
	case 15:
		v := s.N(2) == 1
		return wrOp{fmt.Sprintf("WriteCOption(%v)", v), func(e *bin.Encoder) error { return e.WriteCOption(v) }, func(w *W) {
			if v {
				w.U32(1, false)
			} else {
				w.U32(0, false)
			}
		}, func(d *bin.Decoder) (string, error) { x, err := d.ReadCOption(); return sv(x), err }, sv(v)}
	case 16:
		v := int(GenUint(s, 63))
		return wrOp{fmt.Sprintf("WriteUVarInt(%d)", v), func(e *bin.Encoder) error { return e.WriteUVarInt(v) }, func(w *W) { w.Uvarint(uint64(v)) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadUvarint64(); return sv(x), err }, sv(v)}
	case 17:
		v := int(GenInt(s, 64))
		return wrOp{fmt.Sprintf("WriteVarInt(%d)", v), func(e *bin.Encoder) error { return e.WriteVarInt(v) }, func(w *W) { w.Varint(int64(v)) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadVarint64(); return sv(x), err }, sv(v)}
	case 18, 19:
		v := int(GenUint(s, 16))
		if chance(s, 1, 5) {
			v = []int{-1, 65536, 65537, 1 << 21, 1 << 40, math.MinInt64, math.MaxInt64, -65535}[s.N(8)]
		}
		if big {
			return wrOp{fmt.Sprintf("WriteCompactU16Length(%d)", v), func(e *bin.Encoder) error { return e.WriteCompactU16Length(v) }, func(w *W) { w.CompactU16(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadCompactU16Length(); return sv(x), err }, sv(v)}
		}
		return wrOp{fmt.Sprintf("WriteCompactU16(%d)", v), func(e *bin.Encoder) error { return e.WriteCompactU16(v) }, func(w *W) { w.CompactU16(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadCompactU16(); return sv(x), err }, sv(v)}
	case 20:
		v := int(GenUint(s, 31))
		if e == Compact {
			v = int(GenUint(s, 17))
		}
		return wrOp{fmt.Sprintf("WriteLength(%d)", v), func(e *bin.Encoder) error { return e.WriteLength(v) }, func(w *W) { w.Length(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadLength(); return sv(x), err }, sv(v)}
	case 21:
		v := genText(s, 70000)
		return wrOp{fmt.Sprintf("WriteString(%q)", v), func(e *bin.Encoder) error { return e.WriteString(v) }, func(w *W) { w.LenBytes([]byte(v)) }, func(d *bin.Decoder) (string, error) { return d.ReadString() }, v}
	case 22:
		v := genText(s, 70000)
		return wrOp{fmt.Sprintf("WriteRustString(%q)", v), func(e *bin.Encoder) error { return e.WriteRustString(v) }, func(w *W) { w.U64(uint64(len(v)), false); w.Raw([]byte(v)) }, func(d *bin.Decoder) (string, error) { return d.ReadRustString() }, v}
	case 23:
		v := []byte(genText(s, 70000))
		if len(v) == 0 && s.N(2) == 0 {
			v = nil
		}
		return wrOp{fmt.Sprintf("WriteBytes(%x, true)", v), func(e *bin.Encoder) error { return e.WriteBytes(v, true) }, func(w *W) { w.LenBytes(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadByteSlice(); return string(x), err }, string(v)}
	case 24:
		v := []byte(genText(s, 70000))
		if len(v) == 0 && s.N(2) == 0 {
			v = nil
		}
		if big {
			return wrOp{fmt.Sprintf("Write(%x)", v), func(e *bin.Encoder) error {
				n, err := e.Write(v)
				if err == nil && n != len(v) {
					return fmt.Errorf("Write returned %d", n)
				}
				return err
			}, func(w *W) { w.Raw(v) }, func(d *bin.Decoder) (string, error) {
				b := make([]byte, len(v))
				_, err := d.Read(b)
				return string(b), err
			}, string(v)}
		}
		return wrOp{fmt.Sprintf("WriteBytes(%x, false)", v), func(e *bin.Encoder) error { return e.WriteBytes(v, false) }, func(w *W) { w.Raw(v) }, func(d *bin.Decoder) (string, error) { x, err := d.ReadNBytes(len(v)); return string(x), err }, string(v)}
	default:
		ty := GenTy(s, TyCfg{E: e, Depth: 2, MaxFields: 3, NoNilQuirk: true, NoMap: e != Borsh})
		v := GenVal(&VCtx{E: e, S: s}, ty)
		in := v.Interface()
		if needsAddr(ty) {
			in = v.Addr().Interface()
		}
		return wrOp{"Encode(" + ty.String() + ")", func(e *bin.Encoder) error { return e.Encode(in) }, func(w *W) { w.Val(ty, v, noFO) }, func(d *bin.Decoder) (string, error) {
			p := reflect.New(ty.RT())
			if err := d.Decode(p.Interface()); err != nil {
				return "", err
			}
			return Diff(e, ty, v, p.Elem()), nil
		}, ""}
	}
}

func TestC11(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		var buf bytes.Buffer
		enc := e.NewEncoder(&buf)
		w := &W{E: e}
		n := 1 + s.N(20)
		var done []wrOp
		var log []string
		for i := 0; i < n; i++ {
			op := genWrite(s, e)
			log = append(log, op.name)
			t.Logf("%s", op.name)
			before := len(w.B)
			op.ref(w)
			var err error
			if msg := catch(func() { err = op.lib(enc) }); msg != "" {
				t.Fatalf("%s: %s panicked: %s", e, op.name, msg)
			}
			if w.Err != nil {
				S.Class("refused write")
				w.Err = nil
				w.B = w.B[:before]
				if err == nil {
					t.Fatalf("%s: %s succeeded, want an error\nhistory %v", e, op.name, log)
				}
			} else if err != nil && strings.Contains(op.name, "128") && strings.Contains(op.name, "wrapped") {
				S.Class("refused byte order")
				w.B = w.B[:before]
			} else {
				if err != nil {
					t.Fatalf("%s: %s failed: %v\nhistory %v", e, op.name, err, log)
				}
				done = append(done, op)
			}
			if !bytes.Equal(buf.Bytes(), w.B) {
				t.Fatalf("%s: after %s the output is\n%x\nwant\n%x\nhistory %v", e, op.name, buf.Bytes(), w.B, log)
			}
			if enc.Written() != len(w.B) {
				t.Fatalf("%s: after %s Written() is %d, want %d\nhistory %v", e, op.name, enc.Written(), len(w.B), log)
			}
		}
		S.Case(len(done) > 1, func() string { return fmt.Sprintf("%s | %s", e, strings.Join(log, " ")) })
		S.Class(e.String())
		dec := e.NewDecoder(buf.Bytes())
		for _, op := range done {
			at := dec.Position()
			got, err := op.back(dec)
			if err != nil {
				t.Fatalf("%s: reading back %s at %d of %x failed: %v", e, op.name, at, buf.Bytes(), err)
			}
			if got != op.want {
				t.Fatalf("%s: reading back %s at %d of %x gave %q", e, op.name, at, buf.Bytes(), got)
			}
		}
		if dec.HasRemaining() {
			t.Fatalf("%s: %d bytes left after reading everything back; history %v", e, dec.Remaining(), log)
		}
	})
}

// TestC31: one encoder or decoder used for a sequence of values behaves like a
// fresh one for each.
var directNames = []string{"bin.Int64", "bin.Uint64", "bin.JSONFloat64", "bin.Uint128", "bin.Int128", "bin.Float128", "bin.Bool", "bin.Varint32"}

func TestC31(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		n := 2 + s.N(5)
		type item struct {
			ty *Ty
			v  reflect.Value
			b  []byte

			direct bool
		}
		var items []item
		var buf bytes.Buffer
		enc := e.NewEncoder(&buf)
		var cat []byte
		failed := false
		for i := 0; i < n; i++ {
			ty := GenTy(s, TyCfg{E: e, Depth: 3, NoMap: e != Borsh, OrderedBig: true})
			direct := s.N(4) == 0
			if direct { // its own methods are called directly
				ty = CustomTy(CustomByName[directNames[s.N(len(directNames))]])
			}
			v := GenVal(NewVCtx(s, e), ty)
			in := arg(s, ty, v)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			b, err := e.Marshal(in)
			if err != nil {
				t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
			}
			if s.N(4) == 0 { // a failing value in between must not disturb the rest
				before := buf.Len()
				badTy, badV := failingStruct(s)
				_ = badTy
				if err := enc.Encode(badV); err == nil {
					t.Fatalf("%s: an unsupported field was encoded", e)
				}
				buf.Truncate(before)
				failed = true
			}
			if direct {
				S.Class("methods called directly")
				err = v.Addr().Interface().(bin.BinaryMarshaler).MarshalWithEncoder(enc)
			} else {
				err = enc.Encode(in)
			}
			if err != nil {
				t.Fatalf("%s: encoding a %s on a used encoder failed: %v", e, ty, err)
			}
			cat = append(cat, b...)
			if !bytes.Equal(buf.Bytes(), cat) {
				t.Fatalf("%s: value %d, a %s, encodes differently on a used encoder:\n%s\nwant\n%s", e, i, ty, hexs(buf.Bytes()), hexs(cat))
			}
			items = append(items, item{ty, v, b, direct})
		}
		S.Case(true, func() string {
			k := e.String()
			for _, it := range items {
				k += " | " + it.ty.String()
			}
			return k + " | " + hexs(cat)
		})
		S.ClassIf(failed, "a failed encode in between")
		dec := e.NewDecoder(cat)
		pos := 0
		for i, it := range items {
			dst := reflect.New(it.ty.RT())
			var err error
			if it.direct {
				err = dst.Interface().(bin.BinaryUnmarshaler).UnmarshalWithDecoder(dec)
			} else {
				err = dec.Decode(dst.Interface())
			}
			if err != nil {
				t.Fatalf("%s: value %d of a stream, a %s, failed: %v\nbytes %s", e, i, it.ty, err, hexs(it.b))
			}
			pos += len(it.b)
			if int(dec.Position()) != pos {
				t.Fatalf("%s: value %d of a stream, a %s, ended at %d, want %d", e, i, it.ty, dec.Position(), pos)
			}
			if d := Diff(e, it.ty, it.v, dst.Elem()); d != "" {
				t.Fatalf("%s: value %d of a stream: %s", e, i, d)
			}
		}
		// in any order, with failures in between
		if s.N(2) == 0 {
			dec.Reset(append(cat[:len(cat):len(cat)], 0x5a)) // there is no positioning at the very end
			starts := []int{0}
			for _, it := range items {
				starts = append(starts, starts[len(starts)-1]+len(it.b))
			}
			for k := 0; k < n; k++ {
				i := s.N(n)
				it := items[i]
				if s.N(3) == 0 {
					x := items[s.N(n)]
					if dec.SetPosition(uint(s.N(len(cat)+1))) == nil {
						catch(func() { dec.Decode(reflect.New(x.ty.RT()).Interface()) })
						S.Class("decoding at a random position in between")
					}
				}
				if err := dec.SetPosition(uint(starts[i])); err != nil {
					t.Fatalf("%s: SetPosition(%d) of %d: %v", e, starts[i], dec.Len(), err)
				}
				dst := reflect.New(it.ty.RT())
				var err error
				if it.direct {
					err = dst.Interface().(bin.BinaryUnmarshaler).UnmarshalWithDecoder(dec)
				} else {
					err = dec.Decode(dst.Interface())
				}
				if err != nil || int(dec.Position()) != starts[i+1] {
					t.Fatalf("%s: value %d, a %s, after SetPosition(%d): %v, ended at %d, want %d", e, i, it.ty, starts[i], err, dec.Position(), starts[i+1])
				}
				if d := Diff(e, it.ty, it.v, dst.Elem()); d != "" {
					t.Fatalf("%s: value %d after SetPosition: %s", e, i, d)
				}
			}
		}
		// values of several encodings in one stream
		if s.N(3) == 0 {
			var ts []*Ty
			var vs []reflect.Value
			var es []Enc
			var all []byte
			ends := []int{0}
			for k := 2 + s.N(4); k > 0; k-- {
				e := AllEncs[s.N(3)]
				ty := GenTy(s, TyCfg{E: e, Depth: 2})
				v := GenVal(NewVCtx(s, e), ty)
				b, err := e.Marshal(arg(s, ty, v))
				if err != nil {
					t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
				}
				all = append(all, b...)
				es, ts, vs, ends = append(es, e), append(ts, ty), append(vs, v), append(ends, len(all))
			}
			d := AllEncs[s.N(3)].NewDecoder(all)
			for k, ty := range ts {
				d.SetEncoding(es[k].Lib())
				dst := reflect.New(ty.RT())
				if err := d.Decode(dst.Interface()); err != nil || int(d.Position()) != ends[k+1] {
					t.Fatalf("value %d (%s) of a mixed stream, a %s: %v, ended at %d, want %d\nbytes %s", k, es[k], ty, err, d.Position(), ends[k+1], hexs(all))
				}
				if x := Diff(es[k], ty, vs[k], dst.Elem()); x != "" {
					t.Fatalf("value %d (%s) of a mixed stream: %s", k, es[k], x)
				}
			}
			S.Class("switches of encoding")
		}
		// Reset: in any order, after failures, like a fresh decoder
		for k := 0; k < n; k++ {
			it := items[s.N(len(items))]
			cut := len(it.b)
			if s.N(3) == 0 && cut > 0 {
				cut = s.N(cut)
			}
			in := it.b[:cut]
			fresh, used := reflect.New(it.ty.RT()), reflect.New(it.ty.RT())
			d2 := e.NewDecoder(in)
			err1 := d2.Decode(fresh.Interface())
			dec.Reset(in)
			err2 := dec.Decode(used.Interface())
			S.ClassIf(err1 != nil, "reset: failing decode")
			if (err1 == nil) != (err2 == nil) {
				t.Fatalf("%s: %s: a fresh decoder says %v, a reset one %v\nbytes %s", e, it.ty, err1, err2, hexs(in))
			}
			if err1 == nil {
				if d := Diff(e, it.ty, it.v, used.Elem()); d != "" {
					t.Fatalf("%s: after Reset: %s", e, d)
				}
				if dec.Position() != d2.Position() {
					t.Fatalf("%s: %s: a reset decoder ends at %d, a fresh one at %d", e, it.ty, dec.Position(), d2.Position())
				}
			}
		}
	})
}

// failingStruct is a struct whose encoding fails after some fields, with tags
// whose effect must not outlive it.
func failingStruct(s Src) (reflect.Type, interface{}) {
	switch s.N(3) {
	case 0:
		v := struct {
			A uint16 `bin:"big"`
			B int    `bin:"big"`
		}{1, 2}
		return reflect.TypeOf(v), v
	case 1:
		x := 5
		v := struct {
			A uint16
			B *int `bin:"optional big"`
		}{1, &x}
		return reflect.TypeOf(v), v
	default:
		v := struct {
			N uint8 `bin:"sizeof=L"`
			L []int
		}{1, []int{3}}
		return reflect.TypeOf(v), v
	}
}
