package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// tb is what the shared checks need from *rapid.T.
type tb interface {
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

// arg is what is passed to Encode: the value or a pointer to it.
func arg(s Src, ty *Ty, v reflect.Value) interface{} {
	if needsAddr(ty) || s.N(2) == 1 {
		return v.Addr().Interface()
	}
	return v.Interface()
}

// multiMap: does the value's type contain a map (whose order bin and
// compact-u16 leave open)?
func hasMap(ty *Ty) bool {
	has := false
	ty.Walk(func(x *Ty) {
		if x.K == KMap {
			has = true
		}
	})
	return has
}

// checkWire compares an encoding with the reference; where the order of map
// entries is unspecified it must be one of the permitted encodings.
func checkWire(t tb, e Enc, ty *Ty, v reflect.Value, got []byte) {
	want, err := RefEncode(e, ty, v)
	if err != nil {
		t.Fatalf("harness: reference cannot encode: %v", err)
	}
	if e == Borsh || !hasMap(ty) {
		if !bytes.Equal(got, want) {
			t.Fatalf("%s: wrong bytes for %s\nvalue %s\nwant %s\ngot  %s", e, ty, short(v), hexs(want), hexs(got))
		}
		return
	}
	if len(got) != len(want) {
		t.Fatalf("%s: wrong number of bytes for %s: want %d, got %d\nvalue %s\nwant (up to map order) %s\ngot %s", e, ty, len(want), len(got), short(v), hexs(want), hexs(got))
	}
	// one more byte: an extension of no bytes would be missing at the end
	back, r := RefDecode(e, ty, append(got[:len(got):len(got)], 0x5a), true)
	if r.Err != nil || r.P != len(got) {
		t.Fatalf("%s: malformed bytes for %s: %v (after %d of %d)\nvalue %s\nwant (up to map order) %s\ngot %s", e, ty, r.Err, r.P, len(got), short(v), hexs(want), hexs(got))
	}
	if d := Diff(e, ty, v, back); d != "" {
		t.Fatalf("%s: bytes of %s mean something else: %s\nwant (up to map order) %s\ngot %s", e, ty, d, hexs(want), hexs(got))
	}
}

func wire(e Enc) func(*rapid.T) {
	return func(t *rapid.T) {
		s := RS{t}
		ty, v := genCase(s, TyCfg{E: e, NoNilQuirk: true}, func(c *VCtx) { c.FillUnselected, c.HugeMaps = true, true })
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b, err := e.Marshal(arg(s, ty, v))
		if err != nil {
			t.Fatalf("%s: encoding a %s failed: %v\nvalue %s", e, ty, err, short(v))
		}
		classify(ty, b)
		S.Case(isComposite(ty) && len(b) > 0, func() string { return caseKey(e, ty, b) })
		checkWire(t, e, ty, v, b)
		// deterministic, and independent of passing a value or a pointer
		b2, err := e.Marshal(v.Addr().Interface())
		if err != nil {
			t.Fatalf("%s: second encoding failed: %v", e, err)
		}
		checkWire(t, e, ty, v, b2)
		// and the other way round: reference bytes mean v to the decoder
		want, _ := RefEncode(e, ty, v)
		dst := reflect.New(ty.RT())
		dec := e.NewDecoder(want)
		if err := dec.Decode(dst.Interface()); err != nil {
			t.Fatalf("%s: decoding reference bytes of a %s failed: %v\nbytes %s", e, ty, err, hexs(want))
		}
		if int(dec.Position()) != len(want) {
			t.Fatalf("%s: %s: read %d of %d reference bytes %s", e, ty, dec.Position(), len(want), hexs(want))
		}
		if d := Diff(e, ty, v, dst.Elem()); d != "" {
			t.Fatalf("%s: reference bytes of a %s decode to something else: %s\nbytes %s", e, ty, d, hexs(want))
		}
	}
}

func TestC04(t *testing.T) {
	t.Run("wire", func(t *testing.T) { check(t, 75, wire(Borsh)) })
	// larger maps: sorted by key, whatever the insertion order
	t.Run("maps", func(t *testing.T) {
		check(t, 25, func(t *rapid.T) {
			s := RS{t}
			g := newTyGen(s, TyCfg{E: Borsh, NoNilQuirk: true})
			kt := g.key(2)
			vt := g.ty(2, false)
			ty := MapTy(kt, vt)
			n := 1 + s.N(30)
			c := &VCtx{E: Borsh, S: s}
			keys := reflect.MakeMap(reflect.MapOf(kt.RT(), reflect.TypeOf(true)))
			type pair struct{ k, v reflect.Value }
			var ps []pair
			for i := 0; i < n; i++ {
				k := GenVal(c, kt)
				if keys.MapIndex(k).IsValid() {
					continue
				}
				keys.SetMapIndex(k, reflect.ValueOf(true))
				ps = append(ps, pair{k, GenVal(c, vt)})
			}
			m1, m2 := reflect.MakeMap(ty.RT()), reflect.MakeMapWithSize(ty.RT(), 100)
			for i := range ps {
				m1.SetMapIndex(ps[i].k, ps[i].v)
				j := len(ps) - 1 - i
				m2.SetMapIndex(ps[j].k, ps[j].v)
			}
			t.Logf("borsh: %s: %s", ty, lazy{m1})
			want, err := RefEncode(Borsh, ty, m1)
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			S.Case(len(ps) > 1, func() string { return caseKey(Borsh, ty, want) })
			S.ClassIf(len(ps) > 1, "map with several entries")
			for _, m := range []reflect.Value{m1, m2} {
				got, err := bin.MarshalBorsh(m.Interface())
				if err != nil {
					t.Fatalf("borsh: encoding a %s failed: %v\nvalue %s", ty, err, short(m))
				}
				if !bytes.Equal(got, want) {
					t.Fatalf("borsh: wrong bytes for %s (map entries must be sorted by key)\nvalue %s\nwant %s\ngot  %s", ty, short(m), hexs(want), hexs(got))
				}
			}
		})
	})
}

func TestC05(t *testing.T) { check(t, 100, wire(Bin)) }

func TestC06(t *testing.T) {
	t.Run("wire", func(t *testing.T) { check(t, 90, wire(Compact)) })
	// lengths that compact-u16 cannot express are refused
	t.Run("toolong", func(t *testing.T) {
		check(t, 12, func(t *rapid.T) {
			s := RS{t}
			n := 65536 + []int{0, 1, 100, 65535, 65536, 131072 - 65536}[s.N(6)]
			var v interface{}
			switch s.N(6) {
			case 5: // any element type
				elems := []reflect.Type{reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int32(0)),
					reflect.TypeOf(uint64(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)),
					reflect.TypeOf([2]uint8{}), reflect.TypeOf(namedU16(0)), reflect.TypeOf(struct {
						A uint8
						B string
					}{}), reflect.TypeOf(struct{}{}), reflect.TypeOf(bin.Uint128{}), reflect.TypeOf(map[uint8]bool(nil)), reflect.TypeOf([]uint16(nil))}
				el := elems[s.N(len(elems))]
				sl := reflect.MakeSlice(reflect.SliceOf(el), n, n)
				v = sl.Interface()
				switch s.N(4) {
				case 0: // in a struct
					st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "L", Type: sl.Type()}}))
					st.Elem().Field(1).Set(sl)
					v = st.Interface()
				case 1: // held by a pointer
					p := reflect.New(sl.Type())
					p.Elem().Set(sl)
					v = p.Interface()
				case 2: // in a sequence
					o := reflect.MakeSlice(reflect.SliceOf(sl.Type()), 2, 2)
					o.Index(s.N(2)).Set(sl)
					v = o.Interface()
				}
			case 0:
				v = make([]byte, n)
			case 1:
				v = strings.Repeat("x", n)
			case 2:
				v = struct {
					A uint8
					L []uint16
				}{1, make([]uint16, n)}
			case 3:
				m := make(map[uint32]bool, n)
				for i := 0; i < n; i++ {
					m[uint32(i)] = true
				}
				v = m
			default:
				v = make([]struct{ X uint8 }, n)
			}
			S.Case(true, func() string { return fmt.Sprintf("compact-u16 | %T of length %d", v, n) })
			S.Class("length over 65535")
			if b, err := bin.MarshalCompactU16(v); err == nil {
				t.Fatalf("compact-u16: a %T of length %d was encoded as %s without an error", v, n, hexs(b))
			}
		})
	})
}

type namedU16 uint16

// ---------------------------------------------------------------------------
// C34: byte-order tags.

func TestC34(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		ty, v := orderStruct(s, e, 3)
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b, err := e.Marshal(arg(s, ty, v))
		if err != nil {
			t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
		}
		big := false
		ty.Walk(func(x *Ty) {
			for _, f := range x.Fields {
				big = big || f.Big
			}
		})
		S.Case(big && len(b) > 1, func() string { return caseKey(e, ty, b) })
		S.Class(e.String())
		S.ClassIf(big, "has a big field")
		checkWire(t, e, ty, v, b)
		dst := reflect.New(ty.RT())
		if err := e.Unmarshal(dst.Interface(), b); err != nil {
			t.Fatalf("%s: decoding a %s failed: %v\nbytes %s", e, ty, err, hexs(b))
		}
		if d := Diff(e, ty, v, dst.Elem()); d != "" {
			t.Fatalf("%s: %s does not round-trip: %s\nbytes %s", e, ty, d, hexs(b))
		}
	})
}

var orderCustoms = []string{"bin.Uint128", "bin.Int128", "bin.Float128", "bin.Int64", "bin.Uint64", "bin.JSONFloat64"}

// orderStruct builds a struct whose fields mix byte orders.
func orderStruct(s Src, e Enc, depth int) (*Ty, reflect.Value) {
	var fs []*Fld
	n := 1 + s.N(5)
	for i := 0; i < n; i++ {
		f := &Fld{Name: fmt.Sprintf("F%d_%d", depth, i)}
		switch k := s.N(10); {
		case k < 4:
			f.Ty = Prim([]K{KU16, KU32, KU64, KI16, KI32, KI64, KF32, KF64, KU8, KI8}[s.N(10)])
			if s.N(3) == 0 {
				f.Ty = StaticPrims[1+s.N(10)]
			}
		case k < 6:
			f.Ty = CustomTy(CustomByName[orderCustoms[s.N(len(orderCustoms))]])
		case k == 6:
			el := Prim([]K{KU16, KU32, KU64, KI16, KI32, KI64, KF32, KF64}[s.N(8)])
			f.Ty = SliceTy(el)
			if s.N(2) == 0 {
				f.Ty = ArrTy(1+s.N(3), el)
			}
		case k == 7 && depth > 0:
			f.Ty, _ = orderStruct(s, e, depth-1)
		case k == 8:
			f.Ty = Prim(KStr)
		default:
			f.Ty = Prim(KU32)
		}
		switch s.N(4) {
		case 0:
			f.Little = true
		case 1, 2:
			if !(e == Borsh && f.Ty.K == KCustom) {
				f.Big = true
			}
		}
		switch s.N(6) {
		case 0:
			f.Ty = PtrTy(f.Ty)
			for s.N(3) == 0 {
				f.Ty = PtrTy(f.Ty)
			}
		case 1:
			f.Ty, f.Opt = PtrTy(f.Ty), true
		}
		fs = append(fs, f)
	}
	ty := StructTy(fs...)
	return ty, GenVal(&VCtx{E: e, S: s}, ty)
}

// ---------------------------------------------------------------------------
// C35: encodings compose.

// orderless: the byte order of a field does not reach inside these.
func orderless(ty *Ty) bool {
	switch ty.K {
	case KBool, KU8, KI8, KStr, KArr, KSlice, KMap, KStruct, KEnum:
		return true
	}
	return false
}

func TestC35(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		kind := s.N(6)
		cfg := TyCfg{E: e, NoNilQuirk: true, Depth: 3, NoMap: e != Borsh}
		g := newTyGen(s, cfg)
		c := NewVCtx(s, e)
		enc := func(v reflect.Value) []byte {
			b, err := e.Marshal(v.Interface())
			if err != nil {
				t.Fatalf("%s: encoding a %s failed: %v\nvalue %s", e, v.Type(), err, short(v))
			}
			return b
		}
		cfg.Depth = 3
		switch kind {
		case 0, 1: // a struct is the concatenation of its fields
			ty := g.structTy(3)
			v := GenVal(c, ty)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			whole := enc(v)
			var parts []byte
			for i := 0; i < len(ty.Fields); i++ {
				f := ty.Fields[i]
				if f.Unexp {
					continue
				}
				// a field that counts a later slice goes with that slice
				fs := []*Fld{f}
				vals := []reflect.Value{ty.FieldValue(v, i)}
				if f.SizeOf != "" {
					j := ty.FieldIndex(f.SizeOf)
					for k := i + 1; k <= j; k++ {
						fs = append(fs, ty.Fields[k])
						vals = append(vals, ty.FieldValue(v, k))
					}
					i = j
				}
				one := StructTy(fs...)
				ov := reflect.New(one.RT()).Elem()
				for k := range fs {
					if !fs[k].Unexp {
						ov.Field(k).Set(vals[k])
					}
				}
				parts = append(parts, enc(ov)...)
				// without tags, a field is encoded like the bare value
				if len(fs) == 1 && f.OnWire() && !f.Opt && !f.COpt && (!f.Big || orderless(f.Ty)) && f.Ty.K != KPtr {
					if bare, fld := enc(vals[0]), enc(ov); !bytes.Equal(bare, fld) {
						t.Fatalf("%s: field %s of type %s encodes as %s, the bare value as %s", e, f.Name, f.Ty, hexs(fld), hexs(bare))
					}
				}
			}
			S.Case(len(ty.Fields) > 1 && len(whole) > 1, func() string { return caseKey(e, ty, whole) })
			S.Class("struct")
			if !bytes.Equal(whole, parts) {
				t.Fatalf("%s: %s: the struct encodes as\n%s\nits fields as\n%s", e, ty, hexs(whole), hexs(parts))
			}
		case 2, 3: // a slice is its length and its elements; an array its elements
			el := g.elem(2)
			n := smallLen(s)
			src := Src(s)
			if chance(s, 1, 10) {
				n, src = c.seqLen(el)
			}
			ty := SliceTy(el)
			v := reflect.New(ty.RT()).Elem()
			c.slice(ty, v, n, src)
			n = v.Len()
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			var elems []byte
			for i := 0; i < n; i++ {
				elems = append(elems, enc(v.Index(i))...)
			}
			w := &W{E: e}
			w.Length(n)
			whole := enc(v)
			S.Case(n > 1, func() string { return caseKey(e, ty, whole) })
			S.Class("slice and array")
			if want := append(append([]byte(nil), w.B...), elems...); !bytes.Equal(whole, want) {
				t.Fatalf("%s: %s of %d elements encodes as\n%s\nlength and elements are\n%s", e, ty, n, hexs(whole), hexs(want))
			}
			at := ArrTy(n, el)
			av := reflect.New(at.RT()).Elem()
			reflect.Copy(av, v)
			if got := enc(av); !bytes.Equal(got, elems) {
				t.Fatalf("%s: %s encodes as\n%s\nits elements are\n%s", e, at, hexs(got), hexs(elems))
			}
		case 4: // a map is its length and its pairs, in some order
			kt, vt := g.key(1), g.ty(2, false)
			ty := MapTy(kt, vt)
			v := GenVal(c, ty)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			whole := enc(v)
			w := &W{E: e}
			w.Length(v.Len())
			if !bytes.HasPrefix(whole, w.B) {
				t.Fatalf("%s: %s with %d entries starts %s", e, ty, v.Len(), hexs(whole))
			}
			rest := whole[len(w.B):]
			var pairs [][]byte
			for _, k := range v.MapKeys() {
				pairs = append(pairs, append(enc(k), enc(v.MapIndex(k))...))
			}
			S.Case(v.Len() > 1, func() string { return caseKey(e, ty, whole) })
			S.Class("map")
			if !isPermutation(rest, pairs) {
				t.Fatalf("%s: %s: %s is not a sequence of its %d pairs", e, ty, hexs(rest), len(pairs))
			}
		default: // a pointer encodes as what it points to
			ty := g.pointee(3, false)
			v := GenVal(c, ty)
			if needsAddr(ty) {
				return
			}
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			a, b := enc(v), enc(v.Addr())
			S.Case(len(a) > 1 && isComposite(ty), func() string { return caseKey(e, PtrTy(ty), a) })
			S.Class("pointer")
			if !bytes.Equal(a, b) {
				t.Fatalf("%s: a %s encodes as %s, a pointer to it as %s", e, ty, hexs(a), hexs(b))
			}
		}
	})
}

// isPermutation: is b a concatenation of the pieces in some order? (The
// pieces are self-delimiting, so greedy matching is enough up to equal ones.)
func isPermutation(b []byte, pieces [][]byte) bool {
	left := map[string]int{}
	for _, p := range pieces {
		left[string(p)]++
	}
	for len(b) > 0 {
		hit := ""
		for p, n := range left {
			if n > 0 && len(p) > 0 && len(p) <= len(b) && string(b[:len(p)]) == p {
				if len(p) > len(hit) {
					hit = p
				}
			}
		}
		if hit == "" {
			return false
		}
		left[hit]--
		b = b[len(hit):]
	}
	for p, n := range left {
		if n > 0 && len(p) > 0 {
			return false
		}
	}
	return true
}
