package harness

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// encWire encodes v and compares with the reference.
func encWire(t tb, s Src, e Enc, ty *Ty, v reflect.Value) []byte {
	var b []byte
	var err error
	in := arg(s, ty, v)
	if msg := catch(func() { b, err = e.Marshal(in) }); msg != "" {
		t.Fatalf("%s: encoding a %s panicked: %s\nvalue %s", e, ty, msg, short(v))
	}
	if err != nil {
		t.Fatalf("%s: encoding a %s failed: %v\nvalue %s", e, ty, err, short(v))
	}
	checkWire(t, e, ty, v, b)
	return b
}

// decInto decodes b into dst and requires the result to mean want.
func decInto(t tb, e Enc, ty *Ty, b []byte, dst, want reflect.Value, what string) {
	dec := e.NewDecoder(b)
	var err error
	if msg := catch(func() { err = dec.Decode(dst.Interface()) }); msg != "" {
		t.Fatalf("%s: decoding a %s (%s) panicked: %s\nbytes %s", e, ty, what, msg, hexs(b))
	}
	if err != nil {
		t.Fatalf("%s: decoding a %s (%s) failed: %v\nbytes %s\nmeaning %s", e, ty, what, err, hexs(b), short(want))
	}
	if int(dec.Position()) != len(b) {
		t.Fatalf("%s: %s (%s): read %d of %d bytes %s", e, ty, what, dec.Position(), len(b), hexs(b))
	}
	if d := Diff(e, ty, want, dst.Elem()); d != "" {
		t.Fatalf("%s: a %s decodes to something else (%s): %s\nbytes %s", e, ty, what, d, hexs(b))
	}
}

// verdict compares the library's decision on b with the reference's.
func verdict(t tb, e Enc, ty *Ty, b []byte, what string) {
	want, r := RefDecode(e, ty, b, false)
	if r.DontCare {
		return
	}
	dst := reflect.New(ty.RT())
	dec := e.NewDecoder(b)
	var err error
	if msg := catch(func() { err = dec.Decode(dst.Interface()) }); msg != "" {
		t.Fatalf("%s: decoding a %s (%s) panicked: %s\nbytes %s", e, ty, what, msg, hexs(b))
	}
	if r.Err != nil {
		S.Class("must be rejected: " + what)
		if err == nil {
			t.Fatalf("%s: %s: malformed input was accepted (%s; reference: %v)\nbytes %s\ndecoded %s", e, ty, what, r.Err, hexs(b), short(dst.Elem()))
		}
		return
	}
	S.Class("must be accepted: " + what)
	if err != nil {
		t.Fatalf("%s: %s: well-formed input was rejected (%s): %v\nbytes %s\nmeaning %s", e, ty, what, err, hexs(b), short(want))
	}
	if int(dec.Position()) != r.P {
		t.Fatalf("%s: %s: consumed %d bytes, want %d (%s)\nbytes %s", e, ty, dec.Position(), r.P, what, hexs(b))
	}
	if d := Diff(e, ty, want, dst.Elem()); d != "" {
		t.Fatalf("%s: %s: decoded to a different value (%s): %s\nbytes %s", e, ty, what, d, hexs(b))
	}
}

// ---------------------------------------------------------------------------
// C16: optional fields.

func TestC16(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, NoSkip: true, MaxFields: 4, Depth: 2})
		st := &Ty{K: KStruct}
		for n := 1 + s.N(6); n > 0; n-- {
			f := &Fld{Name: g.fieldName(), Ty: g.ty(2, false)}
			if s.N(10) < 7 {
				f.Opt = true
				f.OptTag = []string{"optional", "option"}[s.N(2)]
				if s.N(3) == 0 {
					f.Opt, f.COpt = false, true
				}
				for f.Ty.K == KPtr && f.Ty.Elem.K == KPtr {
					f.Ty = f.Ty.Elem
				}
				if f.Ty.K != KPtr && s.N(2) == 0 {
					f.Ty = PtrTy(f.Ty)
				}
			}
			if s.N(5) == 0 && !(e == Borsh && orderedBase(f.Ty)) {
				f.Big = true
			}
			st.Fields = append(st.Fields, f)
		}
		if s.N(5) == 0 {
			g.sized(st, 2)
		}
		c := &VCtx{E: e, S: s}
		v := GenVal(c, st)
		ty := st
		if k := s.N(3); k > 0 {
			w := NewWrapper(s, e)
			ty, v = w.Nest(k-1, ty, v)
		}
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b := encWire(t, s, e, ty, v)
		present, absent, leak := 0, 0, false
		if ty == st {
			for i, f := range st.Fields {
				if f.Opt || (f.COpt && e == Borsh) {
					if v.Field(i).IsZero() {
						absent++
					} else {
						present++
						leak = leak || f.Ty.K == KPtr && isComposite(f.Ty.Elem) || isComposite(f.Ty)
					}
				}
			}
		}
		S.Case(len(b) > 1, func() string { return caseKey(e, ty, b) })
		S.ClassIf(present > 0 && absent > 0, "present and absent fields")
		S.ClassIf(leak, "present composite")
		decInto(t, e, ty, b, reflect.New(ty.RT()), v, "into a fresh value")
		// an absent field clears what the destination held
		dirty := GenVal(&VCtx{E: e, S: s}, ty)
		if s.N(2) == 0 {
			fillOptionals(s, e, ty, dirty)
		}
		decInto(t, e, ty, b, dirty.Addr(), v, "into a used value")
		// flags other than 0 and 1
		w := &W{E: e}
		w.Flag = func(f *Fld, p bool) uint32 {
			switch {
			case f.COpt:
				if s.N(8) == 0 {
					return uint32(2 + s.N(3)*100000)
				}
			case p && e == Bin:
				return []uint32{1, 2, 0x100, 0x10000, 0x01000000, 0x80000000, 0xffffffff, 0xff}[s.N(8)]
			case p:
				return []uint32{1, 2, 3, 0x7f, 0x80, 0xff}[s.N(6)]
			}
			if p {
				return 1
			}
			return 0
		}
		w.Val(ty, v, noFO)
		if w.Err != nil {
			t.Fatalf("harness: %v", w.Err)
		}
		if !bytes.Equal(w.B, b) {
			verdict(t, e, ty, w.B, "unusual flags")
		}
	})
}

func orderedBase(ty *Ty) bool {
	for ty.K == KPtr {
		ty = ty.Elem
	}
	return ty.K == KCustom && ty.C.Ordered
}

// fillOptionals makes every optional pointer of a struct non-nil.
func fillOptionals(s Src, e Enc, ty *Ty, v reflect.Value) {
	if ty.K != KStruct {
		return
	}
	for i, f := range ty.Fields {
		if f.OnWire() && (f.Opt || f.COpt) && f.Ty.K == KPtr && v.Field(i).IsNil() {
			v.Field(i).Set(ptrTo(GenVal(&VCtx{E: e, S: s}, f.Ty.Elem)))
		}
	}
}

// ---------------------------------------------------------------------------
// C17: Borsh enums.

// untaggedEnum is a struct that starts with an untagged BorshEnum: not an enum.
var plainDiscr = &Ty{K: KU8, rt: borshEnumRT}

func TestC17(t *testing.T) {
	t.Run("variants", func(t *testing.T) {
		check(t, 85, func(t *rapid.T) {
			s := RS{t}
			g := newTyGen(s, TyCfg{E: Borsh, NoNilQuirk: true, NoSkip: s.N(2) == 0})
			en := g.enumTy(3)
			if s.N(12) == 0 { // many variants
				n := []int{100, 127, 128, 129, 200, 254, 255, 256}[s.N(8)]
				for len(en.Fields) < n {
					en.Fields = append(en.Fields, &Fld{Name: g.fieldName(), Ty: Prim(K(s.N(int(KStr) + 1)))})
				}
			}
			n := len(en.Fields)
			ds := []int{}
			if n <= 6 {
				for d := 0; d < n; d++ {
					ds = append(ds, d)
				}
			} else {
				ds = []int{0, n - 1, s.N(n), s.N(n)}
			}
			for _, d := range ds {
				v := reflect.New(en.RT()).Elem()
				c := &VCtx{E: Borsh, S: s}
				v.Field(0).SetUint(uint64(d))
				for i, f := range en.Fields {
					if i == d || (n < 10 && s.N(2) == 0) {
						c.Val(f.Ty, v.Field(i+1))
					}
				}
				ty, vv := en, v
				w := NewWrapper(s, Borsh)
				if s.N(2) == 0 {
					ty, vv = w.Nest(1+s.N(2), ty, vv)
				}
				b := encWire(t, s, Borsh, ty, vv)
				S.Case(n > 1, func() string { return caseKey(Borsh, ty, b) })
				pt := en.Fields[d].Ty
				S.Class("payload kind " + pt.RT().Kind().String())
				for _, p := range w.Path {
					S.Class("position: " + p)
				}
				dst := reflect.New(ty.RT())
				decInto(t, Borsh, ty, b, dst, vv, "enum")
				if ty == en {
					for i := range en.Fields {
						if i != d && !dst.Elem().Field(i+1).IsZero() {
							t.Fatalf("borsh: decoding variant %d of %s set variant %d", d, en, i)
						}
					}
					for k := 0; k < len(b); k++ {
						if err := bin.UnmarshalBorsh(reflect.New(ty.RT()).Interface(), b[:k]); err == nil {
							t.Fatalf("borsh: %s: %d of %d bytes were accepted: %x", en, k, len(b), b)
						}
					}
				}
			}
			// discriminants without a variant
			var bad []int
			for d := n; d < 256; d++ {
				if d < n+3 || d > 253 || d == 128 || s.N(40) == 0 {
					bad = append(bad, d)
				}
			}
			for _, d := range bad {
				v := reflect.New(en.RT()).Elem()
				v.Field(0).SetUint(uint64(d))
				ty, vv := en, v
				if s.N(3) == 0 {
					ty, vv = NewWrapper(s, Borsh).Nest(1, ty, vv)
				}
				var err error
				var b []byte
				if msg := catch(func() { b, err = bin.MarshalBorsh(vv.Interface()) }); msg != "" {
					t.Fatalf("borsh: encoding discriminant %d of %s panicked: %s", d, en, msg)
				}
				if err == nil {
					t.Fatalf("borsh: discriminant %d of %d variants was encoded as %x: %s", d, n, b, ty)
				}
				in := append([]byte{byte(d)}, make([]byte, s.N(40))...)
				dst := reflect.New(en.RT())
				if msg := catch(func() { err = bin.UnmarshalBorsh(dst.Interface(), in) }); msg != "" {
					t.Fatalf("borsh: decoding discriminant %d of %s panicked: %s", d, en, msg)
				}
				if err == nil {
					t.Fatalf("borsh: discriminant %d of %d variants was decoded: %s", d, n, en)
				}
				S.Class("discriminant without a variant")
			}
		})
	})
	// a BorshEnum first field without the tag does not make an enum
	t.Run("untagged", func(t *testing.T) {
		check(t, 15, func(t *rapid.T) {
			s := RS{t}
			g := newTyGen(s, TyCfg{E: Borsh, NoNilQuirk: true, NoSkip: true})
			ty := g.structTy(2)
			at := 0
			d := &Fld{Name: "Kind", Ty: plainDiscr}
			if s.N(3) == 0 {
				// or not the first field
				at = s.N(len(ty.Fields) + 1)
			}
			if at > 0 && ty.Fields[at-1].SizeOf != "" {
				at = 0
			}
			ty.Fields = append(ty.Fields[:at:at], append([]*Fld{d}, ty.Fields[at:]...)...)
			v := GenVal(&VCtx{E: Borsh, S: s}, ty)
			t.Logf("%s: %s", ty, lazy{v})
			b := encWire(t, s, Borsh, ty, v)
			S.Case(len(ty.Fields) > 1, func() string { return caseKey(Borsh, ty, b) })
			S.Class("untagged discriminant")
			decInto(t, Borsh, ty, b, reflect.New(ty.RT()), v, "plain struct")
		})
	})
}

// ---------------------------------------------------------------------------
// C18: sizeof.

func TestC18(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, NoSkip: true, Depth: 2, MaxFields: 3})
		ty := &Ty{K: KStruct}
		for n := 1 + s.N(2); n > 0; n-- {
			for k := s.N(2); k > 0; k-- {
				ty.Fields = append(ty.Fields, &Fld{Name: g.fieldName(), Ty: g.ty(1, false)})
			}
			g.sized(ty, 3)
		}
		// ordinary sequences afterwards keep their own length
		for k := s.N(3); k > 0; k-- {
			ty.Fields = append(ty.Fields, &Fld{Name: g.fieldName(), Ty: SliceTy(g.elem(1))})
		}
		v := GenVal(&VCtx{E: e, S: s}, ty)
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		// a count below the length selects a prefix of the slice
		short_ := false
		want := addr(v)
		for i, f := range ty.Fields {
			if f.Sized == "" || v.Field(i).IsZero() {
				continue
			}
			sl := v.Field(i)
			if sl.Kind() == reflect.Ptr {
				sl = sl.Elem()
			}
			if sl.Len() == 0 || s.N(3) > 0 {
				continue
			}
			n := s.N(sl.Len() + 1)
			cv := ty.FieldValue(v, ty.FieldIndex(f.Sized))
			setCount(cv, n)
			setCount(ty.FieldValue(want, ty.FieldIndex(f.Sized)), n)
			short_ = short_ || n < sl.Len()
			part := sl.Slice(0, n)
			if f.Ty.K == KPtr {
				want.Field(i).Set(ptrTo(part))
			} else {
				want.Field(i).Set(part)
			}
		}
		b, err := e.Marshal(arg(s, ty, v))
		if err != nil {
			t.Fatalf("%s: encoding a %s failed: %v\nvalue %s", e, ty, err, short(v))
		}
		checkWire(t, e, ty, want, b)
		S.Case(true, func() string { return caseKey(e, ty, b) })
		S.ClassIf(short_, "count below the length")
		for _, f := range ty.Fields {
			if f.SizeOf != "" {
				S.Class("count of type " + f.Ty.String())
				S.ClassIf(f.Big, "big-endian count")
			}
		}
		// an optional slice whose selected part is empty stays present
		decInto(t, e, ty, b, reflect.New(ty.RT()), want, "fresh")
		dirty := GenVal(&VCtx{E: e, S: s}, ty)
		decInto(t, e, ty, b, dirty.Addr(), want, "into a used value")
		// counts that the data cannot satisfy
		for i, f := range ty.Fields {
			if f.SizeOf == "" {
				continue
			}
			j := ty.FieldIndex(f.SizeOf)
			if v.Field(j).IsZero() && ty.Fields[j].Opt {
				continue
			}
			bad := addr(v)
			cv := bad.Field(i)
			w := &W{E: e}
			n := uint64(len(b)) + 1 + GenUint(s, 62)
			if s.N(3) == 0 {
				n = 1<<63 + GenUint(s, 63)
			}
			neg := false
			switch cv.Kind() {
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				if s.N(2) == 0 {
					cv.SetInt(-1 - GenInt(s, 63)&0x7f)
					if s.N(3) == 0 {
						cv.SetInt(-1 << uint(cv.Type().Bits()-1))
					}
					neg = true
				} else if cv.OverflowInt(int64(n)) {
					continue
				} else {
					cv.SetInt(int64(n))
				}
			default:
				if cv.OverflowUint(n) {
					continue
				}
				cv.SetUint(n)
			}
			// no encoder writes a count that the slice does not have
			sl := bad.Field(j)
			if sl.Kind() == reflect.Ptr && !sl.IsNil() {
				sl = sl.Elem()
			}
			if sl.Kind() == reflect.Slice && (neg || n > uint64(sl.Len())) && s.N(2) == 0 {
				if over := uint64(sl.Len()) + 1; s.N(2) == 0 && !neg && cv.Kind() >= reflect.Uint8 && !cv.OverflowUint(over) {
					cv.SetUint(over)
				} else if !neg && cv.Kind() <= reflect.Int64 && s.N(2) == 0 && !cv.OverflowInt(int64(over)) {
					cv.SetInt(int64(over))
				}
				var eb []byte
				var err error
				if msg := catch(func() { eb, err = e.Marshal(bad.Interface()) }); msg != "" {
					t.Fatalf("%s: %s: encoding count %v with %d elements panicked: %s", e, ty, cv, sl.Len(), msg)
				}
				if err == nil {
					t.Fatalf("%s: %s: encoding count %v with %d elements gave %s", e, ty, cv, sl.Len(), hexs(eb))
				}
				S.Class("count beyond the slice on encoding")
				continue
			}
			// the wire form: everything as before, only the count differs
			w.Mark = func() {}
			w.fieldsWithCount(ty, v, i, cv)
			dst := reflect.New(ty.RT())
			var err error
			if msg := catch(func() { err = e.Unmarshal(dst.Interface(), w.B) }); msg != "" {
				t.Fatalf("%s: %s: decoding with count %v panicked: %s\nbytes %s", e, ty, cv, msg, hexs(w.B))
			}
			if err == nil {
				t.Fatalf("%s: %s: count %v of field %s was accepted with only %d bytes\nbytes %s\ndecoded %s", e, ty, cv, f.Name, len(w.B), hexs(w.B), short(dst.Elem()))
			}
			S.ClassIf(neg, "negative count")
			S.ClassIf(!neg, "count beyond the data")
		}
	})
}

// fieldsWithCount encodes v with count field i replaced on the wire only.
func (w *W) fieldsWithCount(ty *Ty, v reflect.Value, i int, cv reflect.Value) {
	for k, f := range ty.Fields {
		one := StructTy(f)
		if k == i {
			x := *f
			x.SizeOf = ""
			one = StructTy(&x)
			ov := reflect.New(one.RT()).Elem()
			ov.Field(0).Set(cv)
			w.Val(one, ov, noFO)
			continue
		}
		if f.Sized != "" {
			// as the struct would be: count from the original value
			pair := StructTy(ty.Fields[ty.FieldIndex(f.Sized)], f)
			pv := reflect.New(pair.RT()).Elem()
			pv.Field(0).Set(v.Field(ty.FieldIndex(f.Sized)))
			pv.Field(1).Set(v.Field(k))
			full, err := RefEncode(w.E, pair, pv)
			if err != nil {
				w.fail(err.Error())
				return
			}
			cw := &W{E: w.E}
			cw.Val(StructTy(&Fld{Name: "C", Ty: pair.Fields[0].Ty, Big: pair.Fields[0].Big}), wrap1(pv.Field(0)), noFO)
			w.Raw(full[len(cw.B):])
			continue
		}
		ov := reflect.New(one.RT()).Elem()
		ov.Field(0).Set(v.Field(k))
		w.Val(one, ov, noFO)
	}
}

// wrap1 puts v into a one-field struct.
func wrap1(v reflect.Value) reflect.Value {
	st := reflect.StructOf([]reflect.StructField{{Name: "C", Type: v.Type()}})
	o := reflect.New(st).Elem()
	o.Field(0).Set(v)
	return o
}

// ---------------------------------------------------------------------------
// C19: fields that are not encoded.

func TestC19(t *testing.T) {
	t.Run("added", testC19Added)
	// blank fields, and embedded structs of unexported types
	t.Run("blank", func(t *testing.T) {
		check(t, 10, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			leaf := StaticByName[[]string{"MyEmb", "MyBlank"}[s.N(2)]]
			v := GenVal(&VCtx{E: e, S: s}, leaf)
			w := NewWrapper(s, e)
			ty, v := w.Nest(s.N(3), leaf, v)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			b := encWire(t, s, e, ty, v)
			S.Case(len(b) > 2, func() string { return caseKey(e, ty, b) })
			S.Class("blank or embedded unexported field")
			decInto(t, e, ty, b, reflect.New(ty.RT()), v, "blank fields")
		})
	})
}

func testC19Added(t *testing.T) {
	check(t, 90, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, NoSkip: true, Depth: 2, MaxFields: 5})
		kept := g.structTy(2)
		full := &Ty{K: KStruct}
		hidden := 0
		ext := len(kept.Fields) + 1 // the last fields may be extensions
		if s.N(4) == 0 {
			ext = s.N(len(kept.Fields) + 1)
			for _, f := range kept.Fields[ext:] {
				f.Ext = true
			}
		}
		addHidden := func(pos int) {
			f := &Fld{Name: g.fieldName()}
			switch s.N(4) {
			case 0:
				f.Ty = unsupportedTy(s)
			default:
				f.Ty = g.ty(2, false)
			}
			switch s.N(4) {
			case 0:
				f.Skip = 1
			case 1:
				f.Skip = 2
			case 2:
				f.Skip = 3
			default:
				if pos > ext { // these must all be tagged as extensions or as skipped
					f.Skip = 1
					break
				}
				f.Unexp = true
				f.Name = "u" + f.Name
			}
			f.TagVar = s.N(8)
			// other tags on a hidden field mean nothing
			switch s.N(8) {
			case 4:
				f.Little = true
			case 5:
				f.COpt = true
			case 2, 3:
				if len(kept.Fields) > 0 { // nor does it count anything
					f.Ty = Prim([]K{KU8, KI8, KU16, KU32, KI64}[s.N(5)])
					f.SizeOf = kept.Fields[s.N(len(kept.Fields))].Name
					S.Class("hidden field with a sizeof tag")
				}
			case 0:
				f.Opt = true
			case 1:
				f.Big = true
			}
			hidden++
			full.Fields = append(full.Fields, f)
		}
		for i := 0; i <= len(kept.Fields); i++ {
			for s.N(5) < 2 && hidden < 6 {
				addHidden(i)
			}
			if i < len(kept.Fields) {
				full.Fields = append(full.Fields, kept.Fields[i])
			}
		}
		kv := GenVal(&VCtx{E: e, S: s}, kept)
		t.Logf("%s: %s: %s", e, full, lazy{kv})
		want, err := RefEncode(e, kept, kv)
		if err != nil {
			t.Fatalf("harness: %v", err)
		}
		S.Case(hidden > 0 && len(want) > 0, func() string { return caseKey(e, full, want) })
		for _, f := range full.Fields {
			if f.Unexp {
				S.Class("unexported field")
			} else if f.Skip > 0 {
				S.Class([]string{"", `bin:"-"`, `bin:"skip"`, `borsh_skip:"true"`}[f.Skip])
			}
		}
		build := func() (reflect.Value, []reflect.Value) {
			v := reflect.New(full.RT()).Elem()
			var hid []reflect.Value
			for i, f := range full.Fields {
				if f.OnWire() {
					v.Field(i).Set(kv.Field(kept.FieldIndex(f.Name)))
					continue
				}
				fv := force(v.Field(i))
				if s.N(4) > 0 {
					fv.Set(GenVal(&VCtx{E: e, S: s}, f.Ty))
				}
				hid = append(hid, addr(fv))
			}
			return v, hid
		}
		sub, ksub := full, kept
		v1, _ := build()
		v2, _ := build()
		nest := s.N(3) == 0
		for i, v := range []reflect.Value{v1, v2} {
			ty, x, kx := sub, v, kv
			kty := ksub
			if nest { // in a slice of one
				ty, kty = SliceTy(sub), SliceTy(ksub)
				x, kx = addr(reflect.MakeSlice(ty.RT(), 1, 1)), addr(reflect.MakeSlice(kty.RT(), 1, 1))
				x.Index(0).Set(v)
				kx.Index(0).Set(kv)
			}
			var b []byte
			if msg := catch(func() { b, err = e.Marshal(arg(s, ty, x)) }); msg != "" {
				t.Fatalf("%s: encoding a %s panicked: %s", e, ty, msg)
			}
			if err != nil {
				t.Fatalf("%s: encoding a %s (hidden contents %d) failed: %v", e, ty, i, err)
			}
			checkWire(t, e, kty, kx, b)
			if n, err := e.ByteCount(x.Interface()); err != nil || n != uint64(len(b)) {
				t.Fatalf("%s: %s: ByteCount %d, %v; encoding has %d bytes", e, ty, n, err, len(b))
			}
		}
		// decoding leaves hidden fields as they were
		dst, hid := build()
		for i, f := range full.Fields {
			if f.OnWire() {
				dst.Field(i).Set(reflect.Zero(f.Ty.RT()))
			}
		}
		if ext <= len(kept.Fields) {
			// an extension of no bytes would be missing at the end
			want = append(want, 0x5a)
		}
		if msg := catch(func() { err = e.Unmarshal(dst.Addr().Interface(), want) }); msg != "" {
			t.Fatalf("%s: decoding a %s panicked: %s\nbytes %s", e, full, msg, hexs(want))
		}
		if err != nil {
			t.Fatalf("%s: decoding a %s failed: %v\nbytes %s", e, full, err, hexs(want))
		}
		got := reflect.New(kept.RT()).Elem()
		h := 0
		for i, f := range full.Fields {
			if f.OnWire() {
				got.Field(kept.FieldIndex(f.Name)).Set(dst.Field(i))
				continue
			}
			if a, b := fmt.Sprintf("%#v", force(dst.Field(i)).Interface()), fmt.Sprintf("%#v", hid[h].Interface()); a != b {
				t.Fatalf("%s: %s: decoding changed field %s from %s to %s", e, full, f.Name, b, a)
			}
			h++
		}
		if d := Diff(e, kept, kv, got); d != "" {
			t.Fatalf("%s: %s: decoded to something else: %s\nbytes %s", e, full, d, hexs(want))
		}
	})
}

// force makes an unexported field accessible.
func force(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem()
}

// ---------------------------------------------------------------------------
// C20: trailing extension fields.

func TestC20(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		// no maps: the order of their entries is open outside Borsh
		g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, NoSkip: s.N(2) == 0, Depth: 2, MaxFields: 3, NoMap: e != Borsh})
		ty := g.structTy(2)
		fixed := len(ty.Fields)
		for n := 1 + s.N(4); n > 0; n-- {
			f := &Fld{Name: g.fieldName(), Ty: g.ty(2, false), Ext: true}
			g.fieldTags(f)
			ty.Fields = append(ty.Fields, f)
		}
		if s.N(6) == 0 { // a counted slice among them
			from := len(ty.Fields)
			g.sized(ty, 2)
			for _, f := range ty.Fields[from:] {
				f.Ext = true
			}
		}
		if s.N(5) == 0 { // hidden fields may follow
			ty.Fields = append(ty.Fields, &Fld{Name: g.fieldName(), Ty: Prim(KU32), Skip: 1})
		}
		v := GenVal(&VCtx{E: e, S: s}, ty)
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b := encWire(t, s, e, ty, v)
		S.Case(len(b) > 0, func() string { return caseKey(e, ty, b) })
		// where the extension fields start
		var marks []int
		w := &W{E: e}
		w.Mark = func() { marks = append(marks, len(w.B)) }
		w.Val(ty, v, noFO)
		var onWire []int
		for i, f := range ty.Fields {
			if f.OnWire() {
				onWire = append(onWire, i)
			}
		}
		if len(marks) != len(onWire) {
			t.Fatalf("harness: marks")
		}
		if !bytes.Equal(w.B, b) {
			t.Fatalf("harness: not deterministic")
		}
		start := len(b)         // first extension byte
		starts := map[int]int{} // offset -> first missing field
		for k, i := range onWire {
			if i >= fixed {
				if marks[k] < start {
					start = marks[k]
				}
				if _, ok := starts[marks[k]]; !ok {
					starts[marks[k]] = i
				}
			}
		}
		seed := GenVal(&VCtx{E: e, S: s}, ty)
		cuts := map[int]bool{len(b): true, len(b) - 1: true, start: true, start - 1: true, 0: true}
		for c := range starts {
			cuts[c] = true
		}
		if len(b) < 60 {
			for k := range b {
				cuts[k] = true
			}
		}
		for k := 0; k <= len(b); k++ {
			if !cuts[k] {
				continue
			}
			what := fmt.Sprintf("%d of %d bytes", k, len(b))
			first, boundary := starts[k]
			if k == len(b) {
				boundary = true
				if !hasStart(starts, k) {
					first = len(ty.Fields)
				}
			}
			dirty := s.N(2) == 0
			dst := reflect.New(ty.RT())
			if dirty {
				dst.Elem().Set(copyFields(ty, seed))
			}
			var err error
			dec := e.NewDecoder(b[:k])
			if msg := catch(func() { err = dec.Decode(dst.Interface()) }); msg != "" {
				t.Fatalf("%s: decoding a %s from %s panicked: %s", e, ty, what, msg)
			}
			if !boundary {
				if err == nil {
					t.Fatalf("%s: %s: %s were accepted (fields start at %v)\nbytes %s\ndecoded %s", e, ty, what, marks, hexs(b), short(dst.Elem()))
				}
				S.Class("cut inside a field")
				continue
			}
			S.ClassIf(first < len(ty.Fields), "cut before an extension field")
			S.ClassIf(first >= len(ty.Fields), "complete")
			if err != nil {
				t.Fatalf("%s: %s: %s were rejected: %v (fields start at %v)\nbytes %s", e, ty, what, err, marks, hexs(b))
			}
			if int(dec.Position()) != k {
				t.Fatalf("%s: %s: read %d of %s", e, ty, dec.Position(), what)
			}
			// what was there decodes; what was not is left alone
			want := reflect.New(ty.RT()).Elem()
			o := &eqOpts{e: e}
			for i, f := range ty.Fields {
				if !f.OnWire() {
					continue
				}
				if i >= first {
					if f.Ty.MinSize() == 0 && !f.Opt && !f.COpt {
						continue // nothing to tell present from missing
					}
					var ref reflect.Value
					if dirty {
						ref = seed.Field(i)
					} else {
						ref = reflect.Zero(f.Ty.RT())
					}
					if fmt.Sprintf("%#v", ref.Interface()) != fmt.Sprintf("%#v", dst.Elem().Field(i).Interface()) {
						t.Fatalf("%s: %s: missing field %s was changed from %s to %s (%s)", e, ty, f.Name, short(ref), short(dst.Elem().Field(i)), what)
					}
					continue
				}
				want.Field(i).Set(v.Field(i))
			}
			part := &Ty{K: KStruct, rt: ty.RT()}
			part.Fields = append(part.Fields, ty.Fields[:first]...)
			if d := o.diffFields(part, v, dst.Elem(), "v"); d != "" {
				t.Fatalf("%s: %s: %s decode to something else: %s\nbytes %s", e, ty, what, d, hexs(b))
			}
		}
	})
}

func hasStart(m map[int]int, k int) bool { _, ok := m[k]; return ok }

func copyFields(ty *Ty, v reflect.Value) reflect.Value { return addr(v) }

// ---------------------------------------------------------------------------
// C21: custom marshalers.

// FailM fails to encode (and to decode) with its own error after writing or
// reading N bytes.
type FailM struct{ N uint8 }

var errFailM = fmt.Errorf("harness: custom marshaler failed")

func (f FailM) MarshalWithEncoder(enc *bin.Encoder) error {
	for i := 0; i < int(f.N); i++ {
		if err := enc.WriteByte(0xEE); err != nil {
			return err
		}
	}
	return failWith
}

// failWith is the error that FailM returns.
var failWith = errFailM

type ownErr struct{}

func (*ownErr) Error() string { return "" }

var failErrs = []error{errFailM, io.EOF, io.ErrUnexpectedEOF, fmt.Errorf("at the end: %w", io.EOF), &ownErr{}, os.ErrNotExist, context.Canceled, bin.ErrVarIntBufferSize}

var failUnmarshalN int

func (f *FailM) UnmarshalWithDecoder(dec *bin.Decoder) error {
	for i := 0; i < failUnmarshalN; i++ {
		if _, err := dec.ReadByte(); err != nil {
			return err
		}
	}
	return failWith
}

var failTy = CustomTy(&Custom{Name: "FailM", RT: reflect.TypeOf(FailM{}), MinSize: 1,
	Enc: func(w *W, v reflect.Value, _ bool) {
		for i := 0; i < int(v.Field(0).Uint()); i++ {
			w.U8(0xEE)
		}
	},
	Dec: func(r *R, _ reflect.Value, _ bool) { r.fail("custom") },
	Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(FailM{1}) },
	Eq:  deepEq,
})

// CountM and CountP count the calls of their methods.
type CountM struct{ V uint8 }

type CountP struct{ V uint8 }

// calls: of MarshalWithEncoder and UnmarshalWithDecoder; refCalls: how many
// there should have been.
var calls, refCalls [2]int

func (c CountM) MarshalWithEncoder(enc *bin.Encoder) error {
	calls[0]++
	return enc.WriteByte(c.V)
}

func (c *CountM) UnmarshalWithDecoder(dec *bin.Decoder) (err error) {
	calls[1]++
	c.V, err = dec.ReadByte()
	return err
}

func (c *CountP) MarshalWithEncoder(enc *bin.Encoder) error {
	calls[0]++
	return enc.WriteByte(c.V)
}

func (c *CountP) UnmarshalWithDecoder(dec *bin.Decoder) (err error) {
	calls[1]++
	c.V, err = dec.ReadByte()
	return err
}

var countTy, countPTy = mkCount("CountM", CountM{}, false), mkCount("CountP", CountP{}, true)

func mkCount(name string, zero interface{}, ptr bool) *Ty {
	rt := reflect.TypeOf(zero)
	return CustomTy(&Custom{Name: name, RT: rt, MinSize: 1, PtrRecv: ptr, Key: !ptr,
		Enc: func(w *W, v reflect.Value, _ bool) {
			refCalls[0]++
			w.U8(uint8(v.Field(0).Uint()))
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			refCalls[1]++
			out.Field(0).SetUint(uint64(r.U8()))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			v := reflect.New(rt).Elem()
			v.Field(0).SetUint(uint64(uint8(s.U64())))
			return v
		},
		Eq: deepEq,
	})
}

func TestC21(t *testing.T) {
	t.Run("positions", func(t *testing.T) {
		check(t, 55, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			c := Customs[s.N(len(Customs))]
			var leaf *Ty = CustomTy(c)
			var v reflect.Value
			if c.PtrRecv {
				v = addr(ptrTo(c.Gen(s, e)))
				leaf = PtrTy(leaf)
			} else {
				v = addr(c.Gen(s, e))
			}
			w := NewWrapper(s, e)
			w.Key = c.Key
			ty, v := w.Nest(s.N(4), leaf, v)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			b := encWire(t, s, e, ty, v)
			S.Case(len(w.Path) > 0, func() string { return caseKey(e, ty, b) })
			S.Class("custom " + c.Name)
			for _, p := range w.Path {
				S.Class("position: " + p)
			}
			decInto(t, e, ty, b, reflect.New(ty.RT()), v, "custom")
		})
	})
	// each method is called once per occurrence
	t.Run("calls", func(t *testing.T) {
		check(t, 25, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			ptr := s.N(3) == 0
			leaf := countTy
			fv := addr(reflect.ValueOf(CountM{uint8(s.U64())}))
			if ptr {
				leaf = PtrTy(countPTy)
				fv = addr(reflect.ValueOf(&CountP{uint8(s.U64())}))
			}
			w := NewWrapper(s, e)
			w.Key = !ptr
			ty, v := w.Nest(s.N(5), leaf, fv)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			calls, refCalls = [2]int{}, [2]int{}
			in := arg(s, ty, v)
			b, err := e.Marshal(in)
			if err != nil {
				t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
			}
			ref, err := RefEncode(e, ty, v)
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			S.Case(len(w.Path) > 0, func() string { return "calls | " + caseKey(e, ty, b) })
			S.Class("method calls counted")
			S.ClassIf(calls[0] > 1, "several occurrences")
			if calls != refCalls {
				t.Fatalf("%s: encoding a %s called MarshalWithEncoder %d times for %d occurrences (and UnmarshalWithDecoder %d times)\nvalue %s", e, ty, calls[0], refCalls[0], calls[1], short(v))
			}
			calls, refCalls = [2]int{}, [2]int{}
			if _, err := e.ByteCount(in); err != nil || calls[1] != 0 {
				t.Fatalf("%s: ByteCount of a %s: %v", e, ty, err)
			}
			if _, r := RefDecode(e, ty, ref, false); r.Err != nil {
				t.Fatalf("harness: %v", r.Err)
			}
			calls = [2]int{}
			dst := reflect.New(ty.RT())
			if err := e.Unmarshal(dst.Interface(), ref); err != nil {
				t.Fatalf("%s: decoding a %s failed: %v\nbytes %s", e, ty, err, hexs(ref))
			}
			if calls != refCalls {
				t.Fatalf("%s: decoding a %s called UnmarshalWithDecoder %d times for %d occurrences (and MarshalWithEncoder %d times)\nbytes %s", e, ty, calls[1], refCalls[1], calls[0], hexs(ref))
			}
		})
	})
	// a failing marshaler makes the whole operation fail
	t.Run("errors", func(t *testing.T) {
		check(t, 20, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			w := NewWrapper(s, e)
			fv := addr(reflect.ValueOf(FailM{uint8(1 + s.N(4))}))
			failWith = failErrs[s.N(len(failErrs))]
			ty, v := w.Nest(s.N(4), failTy, fv)
			path := strings.Join(w.Path, " in ")
			t.Logf("%s: %s (%s)", e, ty, path)
			var err error
			if msg := catch(func() { _, err = e.Marshal(arg(s, ty, v)) }); msg != "" {
				t.Fatalf("%s: encoding a %s panicked: %s", e, ty, msg)
			}
			if err == nil {
				t.Fatalf("%s: the error of a custom marshaler (%s), %T %v, was lost: %s", e, path, failWith, failWith, ty)
			}
			b, _ := RefEncode(e, ty, v)
			S.Case(len(w.Path) > 0, func() string { return "failing | " + caseKey(e, ty, b) })
			S.Class("failing marshaler")
			failUnmarshalN = s.N(int(fv.Field(0).Uint()) + 1)
			dst := reflect.New(ty.RT())
			if msg := catch(func() { err = e.Unmarshal(dst.Interface(), b) }); msg != "" {
				t.Fatalf("%s: decoding a %s panicked: %s", e, ty, msg)
			}
			if err == nil {
				t.Fatalf("%s: the error of a custom unmarshaler (%s), %T %v, was lost: %s\nbytes %s", e, path, failWith, failWith, ty, hexs(b))
			}
		})
	})
}
