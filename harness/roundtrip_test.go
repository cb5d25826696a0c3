package harness

import (
	"bytes"
	"reflect"
	"testing"

	"pgregory.net/rapid"
)

// C01-C03: decode(encode(v)) == v, exact consumption, trailing bytes untouched.

func TestC01(t *testing.T) { check(t, 100, roundTrip(Borsh)) }
func TestC02(t *testing.T) { check(t, 100, roundTrip(Bin)) }
func TestC03(t *testing.T) { check(t, 100, roundTrip(Compact)) }

func roundTrip(e Enc) func(*rapid.T) {
	return func(t *rapid.T) {
		s := RS{t}
		ty, v := genCase(s, TyCfg{E: e, OrderedBig: true}, func(c *VCtx) { c.HugeMaps = true })
		viaPtr := s.N(2) == 1 || needsAddr(ty)
		in := v.Interface()
		if viaPtr {
			in = v.Addr().Interface()
		}
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b, err := e.Marshal(in)
		if err != nil {
			t.Fatalf("%s: encoding a %s failed: %v\nvalue %s", e, ty, err, short(v))
		}
		classify(ty, b)
		S.Case(isComposite(ty) && len(b) > 0, func() string { return caseKey(e, ty, b) })

		trail := []byte{0xA5, 0x00, 0xFF}[:s.N(4)]
		full := append(append([]byte(nil), b...), trail...)
		orig := append([]byte(nil), full...)
		dst := reflect.New(ty.RT())
		dec := e.NewDecoder(full)
		if err := dec.Decode(dst.Interface()); err != nil {
			t.Fatalf("%s: decoding the encoding of a %s failed: %v\nvalue %s\nbytes %s", e, ty, err, short(v), hexs(b))
		}
		if int(dec.Position()) != len(b) || dec.Remaining() != len(trail) {
			t.Fatalf("%s: %s: decoded %d of %d encoded bytes (%d trailing)\nbytes %s", e, ty, dec.Position(), len(b), len(trail), hexs(b))
		}
		if d := Diff(e, ty, v, dst.Elem()); d != "" {
			t.Fatalf("%s: %s does not round-trip: %s\nbytes %s", e, ty, d, hexs(b))
		}
		if !bytes.Equal(full, orig) {
			t.Fatalf("%s: decoding modified its input", e)
		}
		// the convenience entry point agrees
		dst2 := reflect.New(ty.RT())
		if err := e.Unmarshal(dst2.Interface(), b); err != nil {
			t.Fatalf("%s: Unmarshal failed where Decode succeeded: %v", e, err)
		}
		if d := Diff(e, ty, v, dst2.Elem()); d != "" {
			t.Fatalf("%s: %s does not round-trip through Unmarshal: %s", e, ty, d)
		}
		// so does a destination that holds another value
		used := GenVal(&VCtx{E: e, S: s, FillUnselected: true}, ty)
		S.Class("decoded into a used destination")
		if err := e.Unmarshal(used.Addr().Interface(), b); err != nil {
			t.Fatalf("%s: decoding a %s into a used variable failed: %v\nbytes %s", e, ty, err, hexs(b))
		}
		if d := Diff(e, ty, v, used); d != "" {
			t.Fatalf("%s: %s does not round-trip into a used variable: %s\nbytes %s", e, ty, d, hexs(b))
		}
	}
}

// needsAddr: a top-level custom type with pointer receivers must be passed by
// pointer.
func needsAddr(ty *Ty) bool { return ty.K == KCustom && ty.C.PtrRecv }
