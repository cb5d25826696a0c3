package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// C22: variants and type ids.

var idEncs = []bin.TypeIDEncoding{bin.Uvarint32TypeIDEncoding, bin.Uint32TypeIDEncoding, bin.Uint8TypeIDEncoding, bin.AnchorTypeIDEncoding, bin.NoTypeIDEncoding}
var idEncNames = []string{"uvarint32", "uint32", "uint8", "anchor", "none"}

// refID is the 8-byte id of the i-th type, and its wire form.
func refID(enc bin.TypeIDEncoding, i int, name string) (id [8]byte, wire []byte) {
	w := &W{}
	switch enc {
	case bin.Uvarint32TypeIDEncoding:
		w.Uvarint(uint64(i))
	case bin.Uint32TypeIDEncoding:
		w.U32(uint32(i), false)
	case bin.Uint8TypeIDEncoding:
		w.U8(uint8(i))
	case bin.AnchorTypeIDEncoding:
		h := sha256.Sum256([]byte("global:" + name))
		w.Raw(h[:8])
	}
	copy(id[:], w.B)
	return id, w.B
}

func TestC22(t *testing.T) {
	t.Run("variants", func(t *testing.T) {
		check(t, 80, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			ie := s.N(len(idEncs))
			enc := idEncs[ie]
			g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, Depth: 2, MaxFields: 4})
			n := 1 + s.N(6)
			if enc == bin.NoTypeIDEncoding {
				n = 1
			}
			filler := 0
			if s.N(8) == 0 && enc != bin.NoTypeIDEncoding {
				filler = []int{126, 127, 128, 200, 250}[s.N(5)]
				if enc != bin.Uint8TypeIDEncoding && s.N(2) == 0 {
					filler = []int{255, 256, 300, 1000}[s.N(4)]
				}
			}
			type vt struct {
				name string
				ty   *Ty
				ptr  bool
			}
			var vts []vt
			var defs []bin.VariantType
			at := 0
			if filler > 0 {
				at = s.N(n + 1)
			}
			names := map[string]bool{}
			add := func(x vt) {
				vts = append(vts, x)
				rt := x.ty.RT()
				var v interface{}
				if x.ptr {
					v = reflect.New(rt).Interface()
					if s.N(2) == 0 {
						v = reflect.Zero(reflect.PointerTo(rt)).Interface()
					}
				} else {
					v = reflect.Zero(rt).Interface()
				}
				defs = append(defs, bin.VariantType{Name: x.name, Type: v})
			}
			u8 := Prim(KU8)
			for i := 0; i <= n; i++ {
				if i == at {
					for k := 0; k < filler; k++ {
						add(vt{name: fmt.Sprintf("filler_%d", k), ty: u8})
					}
				}
				if i == n {
					break
				}
				ty := g.pointee(2, false)
				name := ""
				for name == "" || names[name] {
					name = []string{"transfer", "create_account", "Transfer", "initializeMint", "ß", "a b", "x", "Y1"}[s.N(8)]
					if s.N(2) == 0 {
						name += strconv.Itoa(s.N(1000))
					}
				}
				names[name] = true
				add(vt{name: name, ty: ty, ptr: needsAddr(ty) || s.N(2) == 0})
			}
			def := bin.NewVariantDefinition(enc, defs)
			for i, x := range vts {
				want, _ := refID(enc, i, x.name)
				if got := def.TypeID(x.name); got != want {
					t.Fatalf("%s ids: TypeID(%q) = %x, want %x (type %d)", idEncNames[ie], x.name, got, want, i)
				}
			}
			if catch(func() { def.TypeID("no such name") }) == "" {
				t.Fatalf("TypeID of an unknown name did not panic")
			}
			// a history of variants through one decoder and one variant value
			var stream []byte
			type item struct {
				i int
				v reflect.Value
				n int
			}
			var items []item
			for k := 1 + s.N(4); k > 0; k-- {
				i := s.N(len(vts))
				if len(items) > 0 && s.N(3) == 0 {
					i = items[s.N(len(items))].i // the same type again
				}
				v := GenVal(&VCtx{E: e, S: s}, vts[i].ty)
				b, err := RefEncode(e, vts[i].ty, v)
				if err != nil {
					t.Fatalf("harness: %v", err)
				}
				_, idb := refID(enc, i, vts[i].name)
				stream = append(append(stream, idb...), b...)
				items = append(items, item{i, v, len(stream)})
			}
			t.Logf("%s ids, %s: %d types, stream %s", idEncNames[ie], e, len(vts), hexs(stream))
			S.Case(len(stream) > 1, func() string {
				return fmt.Sprintf("%s | %s ids | %d types | %s", e, idEncNames[ie], len(vts), hexs(stream))
			})
			S.Class("ids: " + idEncNames[ie])
			S.ClassIf(len(items) > 1, "several variants in one stream")
			S.ClassIf(len(vts) > 127, "more than 127 types")
			dec := e.NewDecoder(stream)
			var bv bin.BaseVariant
			start := 0
			var impls []interface{}
			for _, it := range items {
				x := vts[it.i]
				var err error
				if msg := catch(func() { err = bv.UnmarshalBinaryVariant(dec, def) }); msg != "" {
					t.Fatalf("%s ids: decoding a %s panicked: %s", idEncNames[ie], x.ty, msg)
				}
				if err != nil {
					t.Fatalf("%s ids: decoding type %d (%s %s) failed: %v\nbytes %s", idEncNames[ie], it.i, x.name, x.ty, err, hexs(stream[start:]))
				}
				if int(dec.Position()) != it.n {
					t.Fatalf("%s ids: %s %s: at %d, want %d", idEncNames[ie], x.name, x.ty, dec.Position(), it.n)
				}
				want, _ := refID(enc, it.i, x.name)
				id, name, impl := bv.Obtain(def)
				if id != want || bv.TypeID != want || name != x.name {
					t.Fatalf("%s ids: obtained %x %q, want %x %q", idEncNames[ie], id, name, want, x.name)
				}
				impls = append(impls, impl)
				iv := reflect.ValueOf(impl)
				if iv.Type() != reflect.TypeOf(defs[it.i].Type) {
					t.Fatalf("%s ids: implementation is a %s, want %T", idEncNames[ie], iv.Type(), defs[it.i].Type)
				}
				if x.ptr {
					iv = iv.Elem()
				} else {
					iv = addr(iv)
				}
				if d := Diff(e, x.ty, it.v, iv); d != "" {
					t.Fatalf("%s ids: %s decodes to something else: %s\nbytes %s", idEncNames[ie], x.ty, d, hexs(stream[start:it.n]))
				}
				// a cut-off stream fails
				for _, k := range []int{start, it.n - 1, (start + it.n) / 2} {
					if k < start || k >= it.n {
						continue
					}
					var cut bin.BaseVariant
					cd := e.NewDecoder(stream[start:k])
					if msg := catch(func() { err = cut.UnmarshalBinaryVariant(cd, def) }); msg != "" || err == nil {
						t.Fatalf("%s ids: %d of %d bytes of a %s: %v %s", idEncNames[ie], k-start, it.n-start, x.ty, err, msg)
					}
				}
				start = it.n
			}
			// every one is a value of its own
			for k, it := range items {
				x := vts[it.i]
				iv := reflect.ValueOf(impls[k])
				if x.ptr {
					iv = iv.Elem()
				} else {
					iv = addr(iv)
				}
				if d := Diff(e, x.ty, it.v, iv); d != "" {
					t.Fatalf("%s ids: variant %d of the stream (%s) changed when later ones were decoded: %s", idEncNames[ie], k, x.ty, d)
				}
			}
			for k, x := range vts {
				if v := reflect.ValueOf(defs[k].Type); x.ptr && !v.IsNil() && !v.Elem().IsZero() {
					t.Fatalf("%s ids: decoding changed the registered value of %s to %s", idEncNames[ie], x.ty, short(v.Elem()))
				}
			}
			// Assign and Obtain
			{
				k := s.N(len(vts))
				id, _ := refID(enc, k, vts[k].name)
				bv.Assign(id, k)
				if gi, gn, gv := bv.Obtain(def); gi != id || gn != vts[k].name || gv != interface{}(k) {
					t.Fatalf("%s ids: assigned %x %d, obtained %x %q %v (want name %q)", idEncNames[ie], id, k, gi, gn, gv, vts[k].name)
				}
			}
			// an id that is not registered has no name
			{
				var id bin.TypeID
				k := s.N(len(vts))
				id, _ = refID(enc, k, vts[k].name)
				id[s.N(8)] ^= byte(1 + s.N(255))
				known := false
				for j := range vts {
					o, _ := refID(enc, j, vts[j].name)
					known = known || o == id
				}
				if !known {
					bv.Assign(id, k)
					if gi, gn, _ := bv.Obtain(def); gi != id || gn != "" {
						t.Fatalf("%s ids: the id %x, which is not registered, is obtained as %x with the name %q", idEncNames[ie], id, gi, gn)
					}
				}
			}
			// ids that differ from a known one
			if enc != bin.NoTypeIDEncoding {
				k := s.N(len(vts))
				_, idb := refID(enc, k, vts[k].name)
				in := append(append([]byte(nil), idb...), make([]byte, 64)...)
				switch enc {
				case bin.Uint32TypeIDEncoding:
					in[1+s.N(3)] ^= byte(1 + s.N(255))
				case bin.AnchorTypeIDEncoding:
					in[s.N(8)] ^= byte(1 + s.N(255))
				case bin.Uvarint32TypeIDEncoding:
					w := &W{}
					w.Uvarint(uint64(k) + []uint64{1 << 8, 1 << 14, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 40, 1 << 63}[s.N(8)])
					in = append(append([]byte(nil), w.B...), make([]byte, 64)...)
				default:
					in[0] = byte(max(len(vts), 255-s.N(20)))
				}
				known := false
				for j, x := range vts {
					_, b := refID(enc, j, x.name)
					known = known || bytes.HasPrefix(in, b)
				}
				if !known && len(vts) < 256 {
					S.Class("id close to a known one")
					var u bin.BaseVariant
					var err error
					if msg := catch(func() { err = u.UnmarshalBinaryVariant(e.NewDecoder(in), def) }); msg != "" || err == nil {
						t.Fatalf("%s ids: unknown id %x of %d types: %v %s", idEncNames[ie], in[:8], len(vts), err, msg)
					}
				}
			}
			// ids that name no type
			for k := 0; k < 3 && enc != bin.NoTypeIDEncoding; k++ {
				idx := len(vts) + s.N(300)
				if k == 1 {
					idx = len(vts)
				}
				if enc == bin.Uint8TypeIDEncoding && idx > 255 {
					continue
				}
				_, idb := refID(enc, idx, fmt.Sprintf("unknown %d", idx))
				in := append(append([]byte(nil), idb...), make([]byte, 64)...)
				var u bin.BaseVariant
				var err error
				if msg := catch(func() { err = u.UnmarshalBinaryVariant(e.NewDecoder(in), def) }); msg != "" || err == nil {
					t.Fatalf("%s ids: unknown id %x of %d types: %v %s", idEncNames[ie], idb, len(vts), err, msg)
				}
				S.Class("unknown id")
			}
		})
	})
	t.Run("ids", func(t *testing.T) {
		check(t, 20, func(t *rapid.T) {
			s := RS{t}
			v := uint32(GenUint(s, 32))
			S.Case(v > 255, func() string { return fmt.Sprintf("type id of %d", v) })
			w := &W{}
			w.Uvarint(uint64(v))
			id := bin.TypeIDFromUvarint32(v)
			if want := pad8(w.B); id != want || id.Uvarint32() != v || bin.Uvarint32FromTypeID(id) != v {
				t.Fatalf("TypeIDFromUvarint32(%d) = %x, want %x; back: %d", v, id, want, id.Uvarint32())
			}
			for _, isBig := range []bool{false, true} {
				w := &W{}
				w.U32(v, isBig)
				id := bin.TypeIDFromUint32(v, orderOf(isBig))
				if want := pad8(w.B); id != want || bin.Uint32FromTypeID(id, orderOf(isBig)) != v {
					t.Fatalf("TypeIDFromUint32(%d, big=%v) = %x, want %x", v, isBig, id, want)
				}
				if !isBig && id.Uint32() != v {
					t.Fatalf("TypeIDFromUint32(%d).Uint32() = %d", v, id.Uint32())
				}
			}
			id = bin.TypeIDFromUint8(uint8(v))
			if id != pad8([]byte{byte(v)}) || id.Uint8() != uint8(v) || bin.Uint8FromTypeID(id) != uint8(v) {
				t.Fatalf("TypeIDFromUint8(%d) = %x", uint8(v), id)
			}
			b := make([]byte, s.N(9))
			for i := range b {
				b[i] = byte(GenUint(s, 8))
			}
			id = bin.TypeIDFromBytes(b)
			p := pad8(b)
			if id != p || !bytes.Equal(id.Bytes(), p[:]) || !id.Equal(p[:]) || id.Equal(p[:7]) || bin.TypeIDFromSighash(b) != id {
				t.Fatalf("TypeIDFromBytes(%x) = %x", b, id)
			}
			q := append([]byte(nil), p[:]...)
			q[s.N(8)] ^= byte(1 + s.N(255))
			if id.Equal(q) {
				t.Fatalf("type id %x equals %x", id, q)
			}
			// through a decoder
			d := bin.NewBinDecoder(append([]byte{9}, p[:]...))
			d.ReadByte()
			pk, err1 := d.PeekDiscriminator()
			rd, err2 := d.ReadTypeID()
			if err1 != nil || err2 != nil || pk != id || rd != id || d.HasRemaining() {
				t.Fatalf("type id %x reads as %x, peeks as %x (%v, %v)", id, rd, pk, err1, err2)
			}
		})
	})
}

func pad8(b []byte) (id [8]byte) {
	copy(id[:], b)
	return
}

// ---------------------------------------------------------------------------
// C23: 128-bit integers.

func TestC23(t *testing.T) {
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	two127 := new(big.Int).Lsh(big.NewInt(1), 127)
	two128 := new(big.Int).Lsh(big.NewInt(1), 128)
	orders := []binary.ByteOrder{nil, binary.LittleEndian, binary.BigEndian}
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		hi, lo := GenUint(s, 64), GenUint(s, 64)
		if s.N(4) == 0 {
			hi = 0
		}
		if s.N(4) == 0 { // close to a power of two or ten
			n := new(big.Int).Lsh(big.NewInt(1), uint(s.N(129)))
			if s.N(2) == 0 {
				n.Exp(big.NewInt(10), big.NewInt(int64(s.N(39))), nil)
			}
			n.Add(n, big.NewInt(int64(s.N(5)-2)))
			if n.Sign() >= 0 && n.BitLen() <= 128 {
				lo = new(big.Int).And(n, new(big.Int).Sub(two64, big.NewInt(1))).Uint64()
				hi = new(big.Int).Rsh(n, 64).Uint64()
			}
		}
		order := orders[s.N(3)]
		u := bin.Uint128{Hi: hi, Lo: lo, Endianness: order}
		i := bin.Int128{Hi: hi, Lo: lo, Endianness: order}
		f := bin.Float128{Hi: hi, Lo: lo, Endianness: order}
		val := new(big.Int).Mul(new(big.Int).SetUint64(hi), two64)
		val.Add(val, new(big.Int).SetUint64(lo))
		sval := new(big.Int).Set(val)
		if sval.Cmp(two127) >= 0 {
			sval.Sub(sval, two128)
		}
		t.Logf("hi=%#x lo=%#x order=%v", hi, lo, order)
		S.Case(hi != 0, func() string { return fmt.Sprintf("hi=%#x lo=%#x order=%v", hi, lo, order) })
		S.ClassIf(sval.Sign() < 0, "negative as Int128")
		S.ClassIf(order != nil && order.String() == "BigEndian", "big-endian")
		if g := u.BigInt(); g.Cmp(val) != 0 {
			t.Fatalf("Uint128 %s: BigInt %s", val, g)
		}
		if g := i.BigInt(); g.Cmp(sval) != 0 {
			t.Fatalf("Int128 %s: BigInt %s", sval, g)
		}
		if u.String() != val.String() || u.DecimalString() != val.String() {
			t.Fatalf("Uint128 %s: String %s, DecimalString %s", val, u.String(), u.DecimalString())
		}
		if i.String() != sval.String() || i.DecimalString() != sval.String() {
			t.Fatalf("Int128 %s: String %s, DecimalString %s", sval, i.String(), i.DecimalString())
		}
		msb := val.FillBytes(make([]byte, 16))
		if g := u.Bytes(); !bytes.Equal(g, msb) {
			t.Fatalf("Uint128 %s: Bytes %x, want %x", val, g, msb)
		}
		if g := u.HexString(); g != "0x"+hex.EncodeToString(msb) {
			t.Fatalf("Uint128 %s: HexString %s", val, g)
		}
		// JSON
		type all struct {
			U bin.Uint128
			I bin.Int128
			F bin.Float128
			L []bin.Int128
			P *bin.Uint128
		}
		js, err := json.Marshal(all{u, i, f, []bin.Int128{i}, &u})
		if want := fmt.Sprintf(`{"U":"%s","I":"%s","F":"%s","L":["%s"],"P":"%s"}`, val, sval, val, sval, val); err != nil || string(js) != want {
			t.Fatalf("JSON %s (%v), want %s", js, err, want)
		}
		chk := func(what string, h, l uint64) {
			if h != hi || l != lo {
				t.Fatalf("%s: %s parses as hi=%#x lo=%#x, want hi=%#x lo=%#x", what, val, h, l, hi, lo)
			}
		}
		dst := bin.Uint128{Hi: GenUint(s, 64), Lo: 3, Endianness: orders[s.N(3)]}
		back := all{U: dst, I: bin.Int128(dst), F: bin.Float128(dst)}
		if err := json.Unmarshal(js, &back); err != nil || len(back.L) != 1 || back.P == nil {
			t.Fatalf("JSON %s does not parse: %v", js, err)
		}
		chk("Uint128", back.U.Hi, back.U.Lo)
		chk("Int128", back.I.Hi, back.I.Lo)
		chk("Float128", back.F.Hi, back.F.Lo)
		chk("[]Int128", back.L[0].Hi, back.L[0].Lo)
		chk("*Uint128", back.P.Hi, back.P.Lo)
		if back.U.BigInt().Cmp(val) != 0 || back.I.BigInt().Cmp(sval) != 0 {
			t.Fatalf("JSON %s parses as %s and %s", js, back.U, back.I)
		}
		// the number's own byte order is no part of the text
		own := func(what string, o binary.ByteOrder) {
			if (o == binary.BigEndian) != (dst.Endianness == binary.BigEndian) {
				t.Fatalf("a %s with order %v has order %v after parsing %s", what, dst.Endianness, o, val)
			}
		}
		own("Uint128", back.U.Endianness)
		own("Int128", back.I.Endianness)
		// hexadecimal input, of any destination order
		for _, h := range []string{"0x" + hex.EncodeToString(msb), "0X" + strings.ToUpper(hex.EncodeToString(msb))} {
			d := dst
			if err := json.Unmarshal([]byte(`"`+h+`"`), &d); err != nil {
				t.Fatalf("hex %s does not parse: %v", h, err)
			}
			chk("hex", d.Hi, d.Lo)
			own("Uint128", d.Endianness)
			di := bin.Int128(dst)
			if err := json.Unmarshal([]byte(`"`+h+`"`), &di); err != nil {
				t.Fatalf("hex %s does not parse: %v", h, err)
			}
			chk("hex Int128", di.Hi, di.Lo)
			own("Int128", di.Endianness)
		}
		// what does not fit is refused
		over := new(big.Int).Add(two128, val)
		under := new(big.Int).Sub(new(big.Int).Neg(two127), big.NewInt(1))
		under.Sub(under, val)
		bad := []string{over.String(), over.Text(10) + "0", "", "x", val.String() + "z", "1.5", "0x" + hex.EncodeToString(msb[:15]), "0x" + hex.EncodeToString(msb) + "00", "0xg" + hex.EncodeToString(msb)[1:]}
		for _, sp := range []string{" ", `\t`, `\n`, `\r\n`, "\u00a0", "  ", "+", ",", `\u0000`, "e0", "--"} {
			bad = append(bad, val.String()+sp)
			if sp != "+" && sp != "--" {
				bad = append(bad, sp+val.String(), sp+val.String()+sp)
			}
			if sp != "+" { // a signed number with a base prefix is left open
				bad = append(bad, sp+"0x"+hex.EncodeToString(msb))
			}
			bad = append(bad, "0x"+hex.EncodeToString(msb)+sp, "0x"+sp+hex.EncodeToString(msb))
			if ds := val.String(); len(ds) > 1 {
				k := 1 + s.N(len(ds)-1)
				bad = append(bad, ds[:k]+sp+ds[k:])
			}
		}
		var d bin.Uint128
		for _, x := range bad {
			if err := json.Unmarshal([]byte(`"`+x+`"`), &d); err == nil {
				t.Fatalf("Uint128 %q was accepted as %s", x, d)
			}
		}
		if val.Sign() > 0 {
			if err := json.Unmarshal([]byte(`"-`+val.String()+`"`), &d); err == nil {
				t.Fatalf("Uint128 -%s was accepted as %s", val, d)
			}
		}
		var di bin.Int128
		for _, x := range append(bad, under.String()) {
			if err := json.Unmarshal([]byte(`"`+x+`"`), &di); err == nil {
				t.Fatalf("Int128 %q was accepted as %s", x, di)
			}
		}
		// the methods called directly follow the value's own order
		{
			w := &W{}
			w.U128(hi, lo, order == binary.BigEndian)
			for k, m := range []bin.BinaryMarshaler{u, i, f, &u, &i, &f} {
				var buf bytes.Buffer
				if err := m.MarshalWithEncoder(AllEncs[s.N(3)].NewEncoder(&buf)); err != nil || !bytes.Equal(buf.Bytes(), w.B) {
					t.Fatalf("%T (%d) with order %v writes itself as %x (%v), want %x", m, k, order, buf.Bytes(), err, w.B)
				}
			}
			du, di, df := bin.Uint128{Endianness: order}, bin.Int128{Endianness: order}, bin.Float128{Endianness: order}
			if s.N(2) == 0 && order != nil {
				du = *bin.NewUint128LittleEndian()
				if order == binary.BigEndian {
					du = *bin.NewUint128BigEndian()
				}
			}
			for _, m := range []bin.BinaryUnmarshaler{&du, &di, &df} {
				dec := AllEncs[s.N(3)].NewDecoder(append(append([]byte(nil), w.B...), 7))
				if err := m.UnmarshalWithDecoder(dec); err != nil || dec.Position() != 16 {
					t.Fatalf("%T with order %v reads itself: %v, position %d", m, order, err, dec.Position())
				}
			}
			chk("Uint128 by itself", du.Hi, du.Lo)
			chk("Int128 by itself", di.Hi, di.Lo)
			chk("Float128 by itself", df.Hi, df.Lo)
			if du.BigInt().Cmp(val) != 0 || di.BigInt().Cmp(sval) != 0 || du.HexString() != u.HexString() {
				t.Fatalf("128-bit %s read by itself shows as %s and %s", val, du, di)
			}
		}
		// as fields
		{
			type fields struct {
				U  bin.Uint128
				I  bin.Int128
				F  bin.Float128
				UB bin.Uint128  `bin:"big"`
				IB bin.Int128   `bin:"big"`
				FB bin.Float128 `bin:"big"`
				UO *bin.Uint128 `bin:"big optional"`
				IO *bin.Int128  `bin:"optional"`
				L  []bin.Uint128
			}
			e := AllEncs[s.N(2)] // Borsh knows no order
			b, err := e.Marshal(fields{u, i, f, u, i, f, &u, &i, []bin.Uint128{u, u}})
			if err != nil {
				t.Fatalf("%s: 128-bit fields: %v", e, err)
			}
			var d fields
			if err := e.Unmarshal(&d, b); err != nil || d.UO == nil || d.IO == nil || len(d.L) != 2 {
				t.Fatalf("%s: 128-bit fields: %v", e, err)
			}
			for k, x := range []bin.Uint128{d.U, bin.Uint128(d.I), bin.Uint128(d.F), d.UB, bin.Uint128(d.IB), bin.Uint128(d.FB), *d.UO, bin.Uint128(*d.IO), d.L[0], d.L[1]} {
				chk(fmt.Sprintf("field %d", k), x.Hi, x.Lo)
				if x.BigInt().Cmp(val) != 0 || bin.Int128(x).String() != sval.String() || x.HexString() != u.HexString() {
					t.Fatalf("%s: 128-bit %s in field %d shows as %s", e, val, k, x)
				}
			}
		}
		// wire form in both orders, for every type
		for _, bo := range []binary.ByteOrder{bin.LE, bin.BE} {
			w := &W{}
			w.U128(hi, lo, bo == bin.BE)
			var buf bytes.Buffer
			enc := AllEncs[s.N(3)].NewEncoder(&buf)
			if err := enc.WriteUint128(u, bo); err != nil {
				t.Fatalf("WriteUint128: %v", err)
			}
			if err := enc.WriteInt128(i, bo); err != nil {
				t.Fatalf("WriteInt128: %v", err)
			}
			if !bytes.Equal(buf.Bytes(), append(w.B, w.B...)) {
				t.Fatalf("128-bit %s in %v: %x, want %x twice", val, bo, buf.Bytes(), w.B)
			}
			dec := AllEncs[s.N(3)].NewDecoder(append(append(append([]byte(nil), w.B...), w.B...), w.B...))
			ru, e1 := dec.ReadUint128(bo)
			ri, e2 := dec.ReadInt128(bo)
			rf, e3 := dec.ReadFloat128(bo)
			if e1 != nil || e2 != nil || e3 != nil {
				t.Fatalf("128-bit read: %v %v %v", e1, e2, e3)
			}
			chk("ReadUint128", ru.Hi, ru.Lo)
			chk("ReadInt128", ri.Hi, ri.Lo)
			chk("ReadFloat128", rf.Hi, rf.Lo)
			if ru.BigInt().Cmp(val) != 0 || ri.BigInt().Cmp(sval) != 0 || ru.String() != val.String() || ri.String() != sval.String() {
				t.Fatalf("128-bit %s read in %v shows as %s and %s", val, bo, ru, ri)
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C24: JSON forms.

type jsonAll struct {
	I bin.Int64
	U bin.Uint64
	F bin.JSONFloat64
	B bin.Bool
	H bin.HexBytes
	L []bin.Int64
	M map[string]bin.Uint64
	P *bin.Uint64
}

func TestC24(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		i := GenInt(s, 64)
		u := GenUint(s, 64)
		switch s.N(6) {
		case 0: // around the limit where numbers are quoted
			i = int64(0xffffffff) + int64(s.N(5)) - 2
		case 1:
			i = -int64(0xffffffff) + int64(s.N(5)) - 2
		case 2:
			u = uint64(0xffffffff) + uint64(s.N(5)) - 2
		}
		f := GenF64(s, false)
		for math.IsInf(f, 0) {
			f = GenF64(s, false)
		}
		h := []byte(genText(s, 5000))
		b := s.N(2) == 1
		qi, qu := strconv.FormatInt(i, 10), strconv.FormatUint(u, 10)
		wi, wu := qi, qu
		if i > 0xffffffff || i < -0xffffffff {
			wi = `"` + qi + `"`
		}
		if u > 0xffffffff {
			wu = `"` + qu + `"`
		}
		t.Logf("i=%d u=%d f=%v h=%x", i, u, f, h)
		S.Case(true, func() string { return fmt.Sprintf("int %d, uint %d, float %v, hex %x, bool %v", i, u, f, h, b) })
		S.ClassIf(wi != qi, "quoted Int64")
		S.ClassIf(wu != qu, "quoted Uint64")
		v := jsonAll{I: bin.Int64(i), U: bin.Uint64(u), F: bin.JSONFloat64(f), B: bin.Bool(b), H: h,
			L: []bin.Int64{bin.Int64(i), 1}, M: map[string]bin.Uint64{"k": bin.Uint64(u)}, P: (*bin.Uint64)(&u)}
		js, err := json.Marshal(v)
		if err != nil {
			t.Fatalf("JSON of %+v: %v", v, err)
		}
		fs, _ := json.Marshal(f)
		want := fmt.Sprintf(`{"I":%s,"U":%s,"F":%s,"B":%v,"H":"%x","L":[%s,1],"M":{"k":%s},"P":%s}`, wi, wu, fs, b, h, wi, wu, wu)
		if string(js) != want {
			t.Fatalf("JSON form:\n%s\nwant\n%s", js, want)
		}
		if bin.HexBytes(h).String() != hex.EncodeToString(h) {
			t.Fatalf("HexBytes %x shows as %s", h, bin.HexBytes(h).String())
		}
		var back jsonAll
		if err := json.Unmarshal(js, &back); err != nil {
			t.Fatalf("JSON %s does not parse: %v", js, err)
		}
		if back.I != v.I || back.U != v.U || math.Float64bits(float64(back.F)) != math.Float64bits(f) || back.B != v.B || !bytes.Equal(back.H, h) ||
			len(back.L) != 2 || back.L[0] != v.I || back.M["k"] != v.U || back.P == nil || *back.P != v.U {
			t.Fatalf("JSON %s parses as %+v, want %+v", js, back, v)
		}
		// every number is accepted bare and quoted, into a used destination
		for _, q := range []string{"%s", `"%s"`} {
			x := jsonAll{I: 77, U: 78, F: 79, B: bin.Bool(!b), H: []byte{1}}
			fm := strconv.FormatFloat(f, "eEfgG"[s.N(5)], -1, 64)
			num := []string{"0", "1", "2", "-1", "42"}[s.N(5)]
			in := fmt.Sprintf(`{"I":`+q+`,"U":`+q+`,"F":`+q+`,"B":%s,"H":"%s"}`, qi, qu, fm, num, strings.ToUpper(hex.EncodeToString(h)))
			if err := json.Unmarshal([]byte(in), &x); err != nil {
				t.Fatalf("JSON %s does not parse: %v", in, err)
			}
			if x.I != v.I || x.U != v.U || math.Float64bits(float64(x.F)) != math.Float64bits(f) || !bytes.Equal(x.H, h) || bool(x.B) != (num != "0") {
				t.Fatalf("JSON %s parses as %+v", in, x)
			}
		}
		// what is no such number is refused
		over := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(u)).String()
		bad := []string{over, `"` + over + `"`, `"-` + over + `"`, `""`, `"x"`, `"` + qi + `x"`, `{}`, `[1]`, `true`, `1.5`, `"1.5"`}
		k := bad[s.N(len(bad))]
		if err := json.Unmarshal([]byte(k), new(bin.Int64)); err == nil {
			t.Fatalf("Int64 accepts %s", k)
		}
		if err := json.Unmarshal([]byte(k), new(bin.Uint64)); err == nil {
			t.Fatalf("Uint64 accepts %s", k)
		}
		if i < 0 {
			for _, q := range []string{qi, `"` + qi + `"`} {
				if err := json.Unmarshal([]byte(q), new(bin.Uint64)); err == nil {
					t.Fatalf("Uint64 accepts %s", q)
				}
			}
		}
		// numbers written in other ways: only decimal ones count
		txt := ""
		for n := 1 + s.N(5); n > 0; n-- {
			txt += []string{"0", "00", "1", "7", "9", "12", "0x", "0X", "0b", "0o", "_", "-", "+", " ", "\t", ".", "e", "E", "a", "f", qi, qu, "1e2", "１"}[s.N(24)]
		}
		ei, erri := strconv.ParseInt(txt, 10, 64)
		eu, erru := strconv.ParseUint(txt, 10, 64)
		ef, errf := strconv.ParseFloat(txt, 64)
		jt, _ := json.Marshal(txt)
		S.ClassIf(erru != nil, "text that is no decimal number")
		var ti bin.Int64
		if err := json.Unmarshal(jt, &ti); (err == nil) != (erri == nil) || err == nil && int64(ti) != ei {
			t.Fatalf("Int64 from JSON %s: %d, %v; want %d, %v", jt, ti, err, ei, erri)
		}
		var tu bin.Uint64
		if err := json.Unmarshal(jt, &tu); (err == nil) != (erru == nil) || err == nil && uint64(tu) != eu {
			t.Fatalf("Uint64 from JSON %s: %d, %v; want %d, %v", jt, tu, err, eu, erru)
		}
		if !strings.ContainsAny(txt, "xX_abo") {
			var tf bin.JSONFloat64
			if err := json.Unmarshal(jt, &tf); (err == nil) != (errf == nil) || err == nil && float64(tf) != ef {
				t.Fatalf("JSONFloat64 from JSON %s: %v, %v; want %v, %v", jt, float64(tf), err, ef, errf)
			}
		}
		// bare
		if json.Valid([]byte(txt)) {
			var ri int64
			var ru uint64
			var rf float64
			erri, erru, errf = json.Unmarshal([]byte(txt), &ri), json.Unmarshal([]byte(txt), &ru), json.Unmarshal([]byte(txt), &rf)
			ti, tu = 0, 0
			var tf bin.JSONFloat64
			if err := json.Unmarshal([]byte(txt), &ti); (err == nil) != (erri == nil) || err == nil && int64(ti) != ri {
				t.Fatalf("Int64 from JSON %s: %d, %v; want %d, %v", txt, ti, err, ri, erri)
			}
			if err := json.Unmarshal([]byte(txt), &tu); (err == nil) != (erru == nil) || err == nil && uint64(tu) != ru {
				t.Fatalf("Uint64 from JSON %s: %d, %v; want %d, %v", txt, tu, err, ru, erru)
			}
			if err := json.Unmarshal([]byte(txt), &tf); (err == nil) != (errf == nil) || err == nil && float64(tf) != rf {
				t.Fatalf("JSONFloat64 from JSON %s: %v, %v; want %v, %v", txt, float64(tf), err, rf, errf)
			}
		}
		for _, k := range []string{`"x"`, `""`, `"1.5x"`, `{}`, `true`, `"` + qi + ` "`} {
			if err := json.Unmarshal([]byte(k), new(bin.JSONFloat64)); err == nil {
				t.Fatalf("JSONFloat64 accepts %s", k)
			}
		}
		// booleans as numbers: all but zero are true
		for _, n := range []int64{i, int64(u >> 1), 0, 1, -1, 2, 255, 256, 1 << 16, 1 << 32, 1 << 62, -256, int64(int32(i)) << 8, i &^ 0xffff} {
			x := bin.Bool(n == 0)
			if err := json.Unmarshal([]byte(strconv.FormatInt(n, 10)), &x); err != nil || bool(x) != (n != 0) {
				t.Fatalf("Bool from JSON %d: %v, %v", n, x, err)
			}
		}
		for _, k := range []string{`"true"`, `"1"`, `{}`, `1.5`, `[true]`} {
			if err := json.Unmarshal([]byte(k), new(bin.Bool)); err == nil {
				t.Fatalf("Bool accepts %s", k)
			}
		}
		for _, k := range []string{`"0"`, `"zz"`, `"0x00"`, `12`, `"` + hex.EncodeToString(h) + `a"`, `"` + hex.EncodeToString(h) + `0g"`} {
			if err := json.Unmarshal([]byte(k), new(bin.HexBytes)); err == nil {
				t.Fatalf("HexBytes accepts %s", k)
			}
		}
	})
}

// ---------------------------------------------------------------------------
// C25: Borsh refuses NaN.

// genNaN32 and genNaN64 make the bits of a NaN of any sign and payload, quiet or not.
func genNaN32(s Src) uint32 {
	p := []uint32{0x400000, 0x400001, 1, 0x3fffff, 0x7fffff, 0x200000, 0x612345}[s.N(7)]
	switch s.N(3) {
	case 0:
		p = 1 << s.N(23)
	case 1:
		p = uint32(s.U64())&0x7fffff | 1<<s.N(23)
	}
	return 0x7f800000 | p | uint32(s.N(2))<<31
}

func genNaN64(s Src) uint64 {
	const m = 1<<52 - 1
	p := []uint64{1 << 51, 1<<51 + 1, 1, 1<<51 - 1, m, 1 << 32, 1<<32 - 1, 0xfffff << 32}[s.N(8)]
	switch s.N(3) {
	case 0:
		p = 1 << s.N(52)
	case 1:
		p = s.U64()&m | 1<<s.N(52)
	}
	return 0x7ff<<52 | p | uint64(s.N(2))<<63
}

// genNotNaN64 and genNotNaN32 make float bits that are not a NaN: infinities, extremes,
// subnormals, zeros of both signs, anything.
func genNotNaN64(s Src) uint64 {
	u := []uint64{0x7ff << 52, 0x7ff<<52 - 1, 1, 1<<52 - 1, 1 << 52, 0, 0x7fe << 52, 0x3ff << 52, s.U64() >> 1}[s.N(9)] | uint64(s.N(2))<<63
	if f := math.Float64frombits(u); f != f {
		u &^= 1 << 52
	}
	return u
}

func genNotNaN32(s Src) uint32 {
	u := []uint32{0x7f800000, 0x7f7fffff, 1, 1<<23 - 1, 1 << 23, 0, 0x7f000000, 0x3f800000, uint32(s.U64() >> 33)}[s.N(9)] | uint32(s.N(2))<<31
	if f := math.Float32frombits(u); f != f {
		u &^= 1 << 23
	}
	return u
}

// floatLeaf is a value of some float type.
func floatLeaf(s Src, u32 uint32, u64 uint64) (*Ty, reflect.Value) {
	switch s.N(5) {
	case 0:
		return Prim(KF32), addr(reflect.ValueOf(math.Float32frombits(u32)))
	case 1:
		return StaticByName["MyF32"], addr(reflect.ValueOf(MyF32(math.Float32frombits(u32))))
	case 2:
		return Prim(KF64), addr(reflect.ValueOf(math.Float64frombits(u64)))
	case 3:
		return StaticByName["MyF64"], addr(reflect.ValueOf(MyF64(math.Float64frombits(u64))))
	}
	return CustomTy(CustomByName["bin.JSONFloat64"]), addr(reflect.ValueOf(bin.JSONFloat64(math.Float64frombits(u64))))
}

func TestC25(t *testing.T) {
	t.Run("nan", func(t *testing.T) { check(t, 65, checkNaN) })
	t.Run("others", func(t *testing.T) { check(t, 20, checkNotNaN) })
	t.Run("keys", func(t *testing.T) { check(t, 15, checkNaNKeys) })
}

func checkNaN(t *rapid.T) {
	s := RS{t}
	e := AllEncs[s.N(3)]
	if s.N(2) == 0 {
		e = Borsh
	}
	p32, p64 := genNaN32(s), genNaN64(s)
	if e != Borsh { // quiet ones survive any conversion
		p32, p64 = p32|1<<22, p64|1<<51
	}
	leaf, v := floatLeaf(s, p32, p64)
	w := NewWrapper(s, e)
	ty, v := w.Nest(s.N(5), leaf, v)
	t.Logf("%s: %s: %s (%x, %x)", e, ty, lazy{v}, p32, p64)
	S.Class(e.String())
	S.Class("NaN as " + leaf.String())
	for _, p := range w.Path {
		S.Class("position: " + p)
	}
	if e != Borsh {
		b := encWire(t, s, e, ty, v)
		S.Case(len(w.Path) > 0, func() string { return caseKey(e, ty, b) })
		decInto(t, e, ty, b, reflect.New(ty.RT()), v, "NaN")
		return
	}
	var b []byte
	var err error
	if msg := catch(func() { b, err = bin.MarshalBorsh(arg(s, ty, v)) }); msg != "" {
		t.Fatalf("borsh: encoding a NaN in a %s panicked: %s", ty, msg)
	}
	if err == nil {
		t.Fatalf("borsh: a NaN (%s in %s) was encoded: %s", leaf, ty, hexs(b))
	}
	if _, err := bin.BorshByteCount(v.Interface()); err == nil {
		t.Fatalf("borsh: BorshByteCount accepts a NaN in a %s", ty)
	}
	// the reference writes the NaN as bin would, bit for bit
	raw := &W{E: e, AllowNaN: true, NaN32: p32, NaN64: p64}
	raw.Val(ty, v, noFO)
	if raw.Err != nil {
		t.Fatalf("harness: %v", raw.Err)
	}
	S.Case(len(w.Path) > 0, func() string { return caseKey(e, ty, raw.B) })
	dst := reflect.New(ty.RT())
	if msg := catch(func() { err = bin.UnmarshalBorsh(dst.Interface(), raw.B) }); msg != "" {
		t.Fatalf("borsh: decoding a NaN in a %s panicked: %s", ty, msg)
	}
	if err == nil {
		t.Fatalf("borsh: a NaN (%s in %s) was decoded from %s", leaf, ty, hexs(raw.B))
	}
	// at the level of single reads and writes
	for _, isBig := range []bool{false, true} {
		o := orderOf(isBig)
		enc := bin.NewBorshEncoder(new(bytes.Buffer))
		if enc.WriteFloat64(math.Float64frombits(p64), o) == nil || enc.WriteFloat32(math.Float32frombits(p32), o) == nil {
			t.Fatalf("borsh: WriteFloat accepts a NaN")
		}
		w := &W{}
		w.U64(p64, isBig)
		if _, err := bin.NewBorshDecoder(w.B).ReadFloat64(o); err == nil {
			t.Fatalf("borsh: ReadFloat64 accepts %x", w.B)
		}
		w = &W{}
		w.U32(p32, isBig)
		if _, err := bin.NewBorshDecoder(w.B).ReadFloat32(o); err == nil {
			t.Fatalf("borsh: ReadFloat32 accepts %x", w.B)
		}
	}
}

// every other float is accepted
func checkNotNaN(t *rapid.T) {
	s := RS{t}
	e := AllEncs[s.N(3)]
	if s.N(2) == 0 {
		e = Borsh
	}
	p32, p64 := genNotNaN32(s), genNotNaN64(s)
	leaf, v := floatLeaf(s, p32, p64)
	w := NewWrapper(s, e)
	ty, v := w.Nest(s.N(5), leaf, v)
	t.Logf("%s: %s: %s (%x, %x)", e, ty, lazy{v}, p32, p64)
	b := encWire(t, s, e, ty, v)
	S.Case(len(w.Path) > 0, func() string { return caseKey(e, ty, b) })
	S.Class("not a NaN")
	decInto(t, e, ty, b, reflect.New(ty.RT()), v, "float")
	for _, isBig := range []bool{false, true} {
		o := orderOf(isBig)
		w := &W{}
		w.U64(p64, isBig)
		if f, err := bin.NewBorshDecoder(w.B).ReadFloat64(o); err != nil || math.Float64bits(f) != p64 {
			t.Fatalf("borsh: ReadFloat64 of %x: %v, %v", w.B, f, err)
		}
		w = &W{}
		w.U32(p32, isBig)
		if f, err := bin.NewBorshDecoder(w.B).ReadFloat32(o); err != nil || math.Float32bits(f) != p32 {
			t.Fatalf("borsh: ReadFloat32 of %x: %v, %v", w.B, f, err)
		}
	}
}

// NaN keys: Go maps hold any number of them
func checkNaNKeys(t *rapid.T) {
	s := RS{t}
	e := AllEncs[s.N(3)]
	nan, other := 1+s.N(3), s.N(4)
	note := func(bits uint64, isNaN bool, v uint16) string {
		if isNaN {
			return fmt.Sprintf("NaN:%d", v)
		}
		return fmt.Sprintf("%x:%d", bits, v)
	}
	m32, m64 := map[float32]uint16{}, map[float64]uint16{}
	wide := s.N(2) == 0
	p32, p64 := genNaN32(s), genNaN64(s)
	for i := 0; i < nan+other; i++ {
		v := uint16(GenUint(s, 16))
		if wide {
			if i < nan {
				m64[math.Float64frombits(p64)] = v
			} else {
				m64[math.Float64frombits(genNotNaN64(s))] = v
			}
		} else {
			if i < nan {
				m32[math.Float32frombits(p32)] = v
			} else {
				m32[math.Float32frombits(genNotNaN32(s))] = v
			}
		}
	}
	list := func() []string {
		var out []string
		for k, v := range m64 {
			out = append(out, note(math.Float64bits(k), k != k, v))
		}
		for k, v := range m32 {
			out = append(out, note(uint64(math.Float32bits(k)), k != k, v))
		}
		sort.Strings(out)
		return out
	}
	entries := list() // "key bits:value"
	n := len(entries)
	var in interface{} = m64
	if !wide {
		in = m32
	}
	t.Logf("%s: %T: %v", e, in, entries)
	S.Class("NaN as a map key")
	var b []byte
	var err error
	if msg := catch(func() { b, err = e.Marshal(in) }); msg != "" {
		t.Fatalf("%s: encoding a %T with NaN keys panicked: %s", e, in, msg)
	}
	w := &W{E: e}
	w.Length(n)
	if e == Borsh {
		if err == nil {
			t.Fatalf("borsh: a map with a NaN key was encoded: %s", hexs(b))
		}
		at := s.N(n) // where the NaN comes
		for i := 0; i < n; i++ {
			if wide {
				u := genNotNaN64(s)
				if i == at {
					u = p64
				}
				w.U64(u, false)
			} else {
				u := genNotNaN32(s)
				if i == at {
					u = p32
				}
				w.U32(u, false)
			}
			w.U16(uint16(i), false)
		}
		S.Case(true, func() string { return fmt.Sprintf("NaN key | %T | %x", in, w.B) })
		var dst interface{} = &map[float64]uint16{}
		if !wide {
			dst = &map[float32]uint16{}
		}
		if msg := catch(func() { err = e.Unmarshal(dst, w.B) }); msg != "" {
			t.Fatalf("borsh: decoding a NaN key panicked: %s", msg)
		}
		if err == nil {
			t.Fatalf("borsh: a NaN key was decoded from %s", hexs(w.B))
		}
		return
	}
	if err != nil {
		t.Fatalf("%s: encoding a %T with NaN keys failed: %v", e, in, err)
	}
	S.Case(true, func() string { return fmt.Sprintf("NaN key | %s | %T | %x", e, in, b) })
	if !bytes.HasPrefix(b, w.B) {
		t.Fatalf("%s: a map of %d entries starts with %s", e, n, hexs(b))
	}
	r := &R{E: e, D: b[len(w.B):]}
	var got []string
	for i := 0; i < n; i++ {
		var k uint64
		var isNaN bool
		if wide {
			k = r.uN(8, false)
			f := math.Float64frombits(k)
			isNaN = f != f
		} else {
			k = r.uN(4, false)
			f := math.Float32frombits(uint32(k))
			isNaN = f != f
		}
		got = append(got, note(k, isNaN, r.U16(false)))
	}
	sort.Strings(got)
	if r.Err != nil || r.Rem() != 0 || !reflect.DeepEqual(got, entries) {
		t.Fatalf("%s: the map %v is encoded as %s: %v", e, entries, hexs(b), got)
	}
	m32, m64 = map[float32]uint16{}, map[float64]uint16{}
	if wide {
		err = e.Unmarshal(&m64, b)
	} else {
		err = e.Unmarshal(&m32, b)
	}
	if err != nil || !reflect.DeepEqual(list(), entries) {
		t.Fatalf("%s: the map %v comes back as %v (%v)", e, entries, list(), err)
	}
}

// ---------------------------------------------------------------------------
// C26: names and discriminators.

// refWords splits a name as heck does.
func refWords(s string) [][]rune {
	var out [][]rune
	var chunk []rune
	flush := func() {
		type mode int
		const (
			boundary mode = iota
			lower
			upper
		)
		m, start := boundary, 0
		for i, c := range chunk {
			if i == len(chunk)-1 {
				out = append(out, chunk[start:])
				break
			}
			next := chunk[i+1]
			nm := m
			if unicode.IsLower(c) {
				nm = lower
			} else if unicode.IsUpper(c) {
				nm = upper
			}
			switch {
			case nm == lower && unicode.IsUpper(next):
				out = append(out, chunk[start:i+1])
				start, m = i+1, boundary
			case m == upper && unicode.IsUpper(c) && unicode.IsLower(next):
				out = append(out, chunk[start:i])
				start, m = i, boundary
			default:
				m = nm
			}
		}
		chunk = nil
	}
	for _, c := range s {
		if unicode.IsLetter(c) || unicode.IsDigit(c) {
			chunk = append(chunk, c)
		} else {
			flush()
		}
	}
	flush()
	return out
}

func refSnake(s string) string {
	var ws []string
	for _, w := range refWords(s) {
		x := ""
		for _, c := range w {
			x += string(unicode.ToLower(c))
		}
		ws = append(ws, x)
	}
	return strings.Join(ws, "_")
}

func refPascal(s string) string {
	x := ""
	for _, w := range refWords(s) {
		for i, c := range w {
			switch {
			case i == 0:
				x += string(unicode.ToUpper(c))
			case c == 'Σ' && i == len(w)-1:
				x += "ς"
			default:
				x += string(unicode.ToLower(c))
			}
		}
	}
	return x
}

func checkName(s string) string {
	hash := func(ns, n string) []byte {
		h := sha256.Sum256([]byte(ns + ":" + n))
		return h[:8]
	}
	if !strings.ContainsRune(s, 'Σ') {
		want := refSnake(s)
		if g := bin.ToRustSnakeCase(s); g != want {
			return fmt.Sprintf("ToRustSnakeCase(%q) = %q, want %q", s, g, want)
		}
		if g := bin.ToSnakeForSighash(s); g != want {
			return fmt.Sprintf("ToSnakeForSighash(%q) = %q, want %q", s, g, want)
		}
		if g := bin.SighashInstruction(s); !bytes.Equal(g, hash("global", want)) {
			return fmt.Sprintf("SighashInstruction(%q) = %x, want %x", s, g, hash("global", want))
		}
	}
	want := refPascal(s)
	if g := bin.ToPascalCase(s); g != want {
		return fmt.Sprintf("ToPascalCase(%q) = %q, want %q", s, g, want)
	}
	if g := bin.SighashAccount(s); !bytes.Equal(g, hash("account", want)) {
		return fmt.Sprintf("SighashAccount(%q) = %x, want %x", s, g, hash("account", want))
	}
	return ""
}

var nameAtoms = []string{"a", "b", "z", "A", "B", "Z", "0", "9", "_", "__", "-", " ", ".", "ß", "é", "É", "Я", "я", "世", "Σ", "ς", "ǅ", "ŉ", "İ", "\xff", "\u0301", "😀", "user", "Account", "XML", "HTTP", "Id", "ID", "V2", "i32", "\x00", "١", "ª"}

func TestC26(t *testing.T) {
	// every string over a small alphabet that has one of each class
	t.Run("small", func(t *testing.T) {
		alpha := []string{"a", "B", "C", "d", "1", "_", " ", "é", "Я"}
		max := 6
		n := int64(0)
		var rec func(p string, left int)
		idx := 0
		rec = func(p string, left int) {
			if msg := checkName(p); msg != "" {
				t.Fatal(msg)
			}
			n++
			if left == 0 {
				return
			}
			for _, a := range alpha {
				rec(p+a, left-1)
			}
		}
		for _, a := range alpha {
			for _, b := range alpha {
				if idx%shards == shard {
					rec(a+b, max-2)
				}
				idx++
			}
			if shard == 0 {
				if msg := checkName(a); msg != "" {
					t.Fatal(msg)
				}
				n++
			}
		}
		S.Exhaust(fmt.Sprintf("names of 1 to %d characters over %d classes", max, len(alpha)), n)
	})
	t.Run("names", func(t *testing.T) {
		check(t, 100, func(t *rapid.T) {
			s := RS{t}
			name := ""
			k := s.N(12)
			src := Src(s)
			if chance(s, 1, 40) { // a long name
				k, src = 12+s.N(300), &PR{X: s.U64()}
			}
			for s := src; k > 0; k-- {
				switch s.N(6) {
				case 0:
					r := rune(s.N(0x3000))
					if utf8.ValidRune(r) {
						name += string(r)
					}
				default:
					name += nameAtoms[s.N(len(nameAtoms))]
				}
			}
			t.Logf("%q", name)
			S.Case(len(refWords(name)) > 1, func() string { return strconv.Quote(name) })
			S.ClassIf(len(refWords(name)) > 1, "several words")
			S.ClassIf(!utf8.ValidString(name), "invalid UTF-8")
			S.ClassIf(len(name) != utf8.RuneCountInString(name), "multi-byte characters")
			if msg := checkName(name); msg != "" {
				t.Fatal(msg)
			}
			ns := []string{"global", "account", "state", "event", "", "a:b", "世"}[s.N(7)]
			h := sha256.Sum256([]byte(ns + ":" + name))
			g := bin.Sighash(ns, name)
			if len(g) != 8 || !bytes.Equal(g, h[:8]) {
				t.Fatalf("Sighash(%q, %q) = %x, want %x", ns, name, g, h[:8])
			}
			if id := bin.SighashTypeID(ns, name); !bytes.Equal(id[:], h[:8]) {
				t.Fatalf("SighashTypeID(%q, %q) = %x, want %x", ns, name, id, h[:8])
			}
			// laws: conversions are stable, and agree on the words
			if !strings.ContainsAny(name, "ΣİǅŉßªŉªΔ") && isPlain(name) {
				sn, pa := bin.ToRustSnakeCase(name), bin.ToPascalCase(name)
				if g := bin.ToRustSnakeCase(sn); g != sn {
					t.Fatalf("ToRustSnakeCase(%q) = %q, again %q", name, sn, g)
				}
				if g := bin.ToPascalCase(sn); g != pa {
					t.Fatalf("ToPascalCase(%q) = %q, of its snake form %q", name, pa, g)
				}
			}
		})
	})
}

// isPlain: only ASCII letters, digits and separators.
func isPlain(s string) bool {
	for _, c := range s {
		if c > 127 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// C27: safe strings.

func TestC27(t *testing.T) {
	st := CustomTy(CustomByName["bin.SafeString"])
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		n := smallLen(s) * (1 + s.N(3))
		if s.N(20) == 0 {
			n = []int{127, 128, 129, 300, 16384, 40000}[s.N(6)]
		}
		raw := GenString(s, n)
		if s.N(3) == 0 { // bytes that often form almost valid sequences
			b := make([]byte, s.N(12))
			for i := range b {
				b[i] = []byte{0x41, 0x80, 0xBF, 0xC2, 0xE0, 0xA0, 0xED, 0x9F, 0xF0, 0x90, 0xF4, 0x8F, 0xC0, 0xFF, 0xEF, 0xBD}[s.N(16)]
			}
			raw = string(b)
		}
		if chance(s, 1, 25) { // long text with something invalid at one place
			n := []int{40, 64, 100, 128, 255, 256, 512, 1000, 1024, 1025, 2000, 4096, 5000, 9000, 20000}[s.N(15)]
			fill := []string{"a", "é", "世", "\U0001F600", "ab\n"}[s.N(5)]
			b := []byte(strings.Repeat(fill, n/len(fill)+1))
			at := []int{0, len(b) - 1, len(b) / 2, min(n, len(b)-1), s.N(len(b)), s.N(len(b))}[s.N(6)]
			if bad := []byte{0xFF, 0x80, 0xC0, 0xED, 0}[s.N(5)]; bad != 0 {
				b[at] = bad
			}
			raw = string(b)
			S.Class("long text with at most one invalid byte")
		}
		want := SafeUTF8([]byte(raw))
		valid := utf8.ValidString(raw)
		w := NewWrapper(s, e)
		// siblings are valid, so that only raw is repaired
		v := addr(reflect.ValueOf(bin.SafeString(raw)))
		ty, v := w.Nest(s.N(3), st, v)
		t.Logf("%s: %s: %q", e, ty, raw)
		b, err := RefEncode(e, ty, v)
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		if e == Borsh || !hasMap(ty) {
			encWire(t, s, e, ty, v)
		}
		S.Case(len(raw) > 0, func() string { return fmt.Sprintf("%s | %s | %q", e, ty, clip(raw)) })
		S.ClassIf(!valid, "invalid UTF-8")
		S.ClassIf(valid, "valid UTF-8")
		ref, r := RefDecode(e, ty, b, false)
		if r.Err != nil {
			t.Fatalf("harness: %v", r.Err)
		}
		decInto(t, e, ty, b, reflect.New(ty.RT()), ref, "safe string")
		// the decoder call
		one := &W{E: e}
		one.LenBytes([]byte(raw))
		d := e.NewDecoder(append(append([]byte(nil), one.B...), 0xFF))
		got, err := d.SafeReadUTF8String()
		if err != nil || got != want || d.Remaining() != 1 {
			t.Fatalf("%s: SafeReadUTF8String of %q = %q, %v (%d left); want %q", e, raw, got, err, d.Remaining(), want)
		}
		if !utf8.ValidString(got) || (valid && got != raw) || utf8.RuneCountInString(got) != len([]rune(raw)) {
			t.Fatalf("%s: SafeReadUTF8String of %q = %q", e, raw, got)
		}
		// a plain string is never altered
		d = e.NewDecoder(one.B)
		if got, err := d.ReadString(); err != nil || got != raw {
			t.Fatalf("%s: ReadString of %q = %q, %v", e, raw, got, err)
		}
		for k := 0; k < len(one.B) && k < 40; k++ {
			if _, err := e.NewDecoder(one.B[:k]).SafeReadUTF8String(); err == nil {
				t.Fatalf("%s: SafeReadUTF8String accepts %d of %d bytes", e, k, len(one.B))
			}
		}
	})
}

func clip(s string) string {
	if len(s) > 100 {
		return s[:100]
	}
	return s
}

// ---------------------------------------------------------------------------
// C33: diagnostics.

func refFormat(b []byte) string {
	s := []byte("{")
	for i, x := range b {
		if i > 0 {
			s = append(s, ", "...)
		}
		s = strconv.AppendInt(s, int64(x), 10)
	}
	return string(append(s, '}'))
}

func TestC33(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		rs := RS{t}
		s := Src(rs)
		name := []string{"", "rec", "a b\n", "100%", "%d %s%%", "%!", "\x00\xff", ":", "- 0: {}(len=0)\n"}[s.N(9)]
		rec := bin.NewWriteByWrite(name)
		var model [][]byte
		var all []byte
		var buf []byte
		hist := ""
		count := s.N(8)
		if chance(rs, 1, 100) { // a long history
			count = []int{10, 16, 17, 33, 64, 100, 101, 257}[rs.N(8)]
			s = &PR{X: rs.U64()}
		}
		for k := count; k > 0; k-- {
			switch s.N(4) {
			case 0, 1: // raw write, from a buffer that is reused
				n, src := s.N(12), s
				if chance(s, 1, 30) {
					n, src = logLen(s, 5000)
				}
				buf = append(buf[:0], []byte(GenString(src, n))...)
				m, err := rec.Write(buf)
				if m != len(buf) || err != nil {
					t.Fatalf("Write of %d bytes: %d, %v", len(buf), m, err)
				}
				model = append(model, append([]byte(nil), buf...))
				all = append(all, buf...)
				for i := range buf {
					buf[i] ^= 0x55
				}
				hist += fmt.Sprintf("write %d;", n)
			case 2: // an encoder
				e := AllEncs[s.N(3)]
				v := GenVal(&VCtx{E: e, S: s}, StaticByName["MyMix"])
				var log writeLog
				e.NewEncoder(&log).Encode(v.Interface())
				// map order may differ between two encodings
				if v.FieldByName("M").Len() > 1 {
					continue
				}
				e.NewEncoder(rec).Encode(v.Interface())
				for _, w := range log {
					model = append(model, w)
					all = append(all, w...)
				}
				hist += "encode;"
			case 3: // looking does not change anything
				if count > 10 && s.N(10) > 0 {
					continue
				}
				// (the result is a copy)
				b := rec.Bytes()
				for i := range b {
					b[i] ^= 0xFF
				}
				_ = append(b, 1, 2, 3)
				_ = rec.String()
				hist += "look;"
			}
		}
		S.Case(len(model) > 1, func() string { return fmt.Sprintf("%q %s %s", name, clip(hist), clip(hexs(all))) })
		S.ClassIf(len(model) > 1, "several writes")
		if g := rec.Bytes(); !bytes.Equal(g, all) {
			t.Fatalf("recorded %x, want %x", g, all)
		}
		want := ""
		if name != "" {
			want = name + ":\n"
		}
		var lines strings.Builder
		for i, w := range model {
			fmt.Fprintf(&lines, "- %d: %s(len=%d)\n", i, refFormat(w), len(w))
		}
		want += lines.String()
		if g := rec.String(); g != want {
			t.Fatalf("recorder shows\n%q\nwant\n%q", g, want)
		}
		n, src := s.N(30), s
		if chance(s, 1, 30) {
			n, src = logLen(s, 20000)
		}
		b := []byte(GenString(src, n))
		orig := append([]byte(nil), b...)
		if g, w := bin.FormatByteSlice(b), refFormat(b)+fmt.Sprintf("(len=%d)", len(b)); g != w {
			t.Fatalf("FormatByteSlice(%x) = %s, want %s", b, g, w)
		}
		var disc [8]byte
		copy(disc[:], b)
		if g, w := bin.FormatDiscriminator(disc), refFormat(disc[:]); g != w {
			t.Fatalf("FormatDiscriminator(%x) = %s, want %s", disc, g, w)
		}
		rev := append([]byte(nil), b...)
		bin.ReverseBytes(rev)
		for i := range b {
			if rev[i] != b[len(b)-1-i] {
				t.Fatalf("ReverseBytes(%x) = %x", b, rev)
			}
		}
		if !bytes.Equal(b, orig) {
			t.Fatalf("formatting changed %x to %x", orig, b)
		}
		for _, x := range []struct {
			v    interface{}
			want bool
		}{{b, true}, {[]byte(nil), true}, {nil, false}, {string(b), false}, {disc, false}, {&b, false}, {[]int8{1}, false}, {[]uint16{1}, false}, {MyBytes(b), false}, {bin.HexBytes(b), false}} {
			if bin.IsByteSlice(x.v) != x.want {
				t.Fatalf("IsByteSlice(%T) = %v", x.v, !x.want)
			}
		}
	})
}

// writeLog keeps a copy of every write.
type writeLog [][]byte

func (l *writeLog) Write(b []byte) (int, error) {
	*l = append(*l, append([]byte(nil), b...))
	return len(b), nil
}
