package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// mutate damages an encoding in one of many ways; the result is what a
// decoder may meet in the field.
func mutate(s Src, b []byte) ([]byte, string) {
	b = append([]byte(nil), b...)
	kinds := ""
	for i := 1 + s.N(3); i > 0; i-- {
		pos := func() int { return s.N(len(b)) }
		switch k := s.N(10); {
		case len(b) == 0 || k == 0:
			b = append(b, byte(GenUint(s, 8)))
			kinds += "append "
		case k == 1:
			b[pos()] ^= 1 << uint(s.N(8))
			kinds += "bitflip "
		case k == 2:
			b[pos()] = []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff}[s.N(8)]
			kinds += "byte "
		case k == 3:
			b = b[:pos()]
			kinds += "truncate "
		case k == 4:
			p := pos()
			b = append(b[:p], append([]byte{byte(GenUint(s, 8))}, b[p:]...)...)
			kinds += "insert "
		case k == 5:
			p := pos()
			b = append(b[:p], b[p+1:]...)
			kinds += "delete "
		case k == 6: // a length, small change
			b[pos()] += byte(s.N(3) + 255)
			kinds += "arith "
		case k == 7: // a 32-bit length or discriminant
			x := make([]byte, 4)
			binary.LittleEndian.PutUint32(x, uint32(GenUint(s, 32)))
			copy(b[pos():], x)
			kinds += "u32 "
		case k == 8: // a varint
			w := &W{}
			w.Uvarint(GenUint(s, 64))
			copy(b[pos():], w.B)
			kinds += "varint "
		default: // duplicate a part
			p := pos()
			q := p + s.N(len(b)-p+1)
			b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
			kinds += "dup "
		}
	}
	return b, kinds
}

// corruptSite replaces one length, flag, variant, count or float.
func corruptSite(s Src, e Enc, b []byte, at Site) []byte {
	old := b[at.From:at.To]
	w := &W{E: e}
	fixed := func() uint64 { // of the width of the old one
		bits := 8 * len(old)
		r := &R{D: old}
		was := r.uN(len(old), at.Kind < 'a')
		switch s.N(4) {
		case 0:
			return was + 1 - uint64(s.N(2))*2
		case 1:
			return 1<<uint(s.N(bits)) + uint64(s.N(3)) - 1
		case 2:
			return was ^ 1<<uint(s.N(bits))
		}
		return GenUint(s, bits)
	}
	switch at.Kind {
	case 'l':
		switch e {
		case Bin:
			r := &R{D: old}
			n := r.Uvarint()
			switch s.N(6) {
			case 0:
				w.Uvarint(n + 1 - uint64(s.N(2))*2)
			case 1:
				w.Uvarint(GenUint(s, 64))
			case 2:
				w.Uvarint(1<<uint(7+s.N(57)) + n)
			case 3: // the same number, with more bytes
				w.Raw(old)
				for k := 1 + s.N(11); k > 0; k-- {
					w.B[len(w.B)-1] |= 0x80
					w.B = append(w.B, 0)
				}
			case 4: // never ends
				for k := 1 + s.N(12); k > 0; k-- {
					w.B = append(w.B, 0x80|byte(s.N(128)))
				}
			default:
				w.Uvarint(uint64(s.N(300)))
			}
		case Compact:
			switch s.N(4) {
			case 0:
				w.CompactU16(int(GenUint(s, 16)))
			case 1:
				w.Raw(old)
				w.B[len(w.B)-1] |= 0x80
				w.B = append(w.B, 0)
			case 2:
				w.B = append(w.B, 0x80|byte(s.N(128)), 0x80|byte(s.N(128)), byte(s.N(256)))
			default:
				w.CompactU16(s.N(300))
			}
		default:
			w.U32(uint32(fixed()), false)
		}
	case 'e', 'o', 'O', 'b':
		w.uN(fixed(), len(old), false)
	case 'f', 'F':
		sign := uint64(s.N(2)) << 63
		if len(old) == 4 {
			w.uN((sign>>32)|[]uint64{0, 0x7f800000, 0x7f800001, 0x7fc00000, 0x7fffffff, 0x7f800000 | 1<<uint(s.N(23))}[s.N(6)], 4, at.Kind == 'F')
		} else {
			w.uN(sign|[]uint64{0, 0x7ff0000000000000, 0x7ff0000000000001, 0x7ff8000000000000, 0x7fffffffffffffff, 0x7ff0000000000000 | 1<<uint(s.N(52))}[s.N(6)], 8, at.Kind == 'F')
		}
	default:
		w.uN(fixed(), len(old), at.Kind < 'a')
	}
	return append(append(append([]byte(nil), b[:at.From]...), w.B...), b[at.To:]...)
}

// genInput draws bytes for decoding a ty: valid, damaged or arbitrary.
func genInput(s Src, e Enc, ty *Ty) ([]byte, string) {
	switch s.N(8) {
	case 0:
		n := s.N(60)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(GenUint(s, 8))
		}
		return b, "arbitrary"
	case 1:
		// mostly-zero bytes decode deep into most types
		b := make([]byte, s.N(200))
		for i := s.N(4); i > 0 && len(b) > 0; i-- {
			b[s.N(len(b))] = byte(s.N(4))
		}
		return b, "sparse"
	default:
		v := GenVal(&VCtx{E: e, S: s}, ty)
		w := &W{E: e, RecordSites: true}
		w.Val(ty, v, noFO)
		if w.Err != nil {
			panic("harness: " + w.Err.Error())
		}
		if s.N(6) == 0 {
			return w.B, "valid"
		}
		if len(w.Sites) > 0 && s.N(3) == 0 {
			return corruptSite(s, e, w.B, w.Sites[s.N(len(w.Sites))]), "corrupted in one place"
		}
		b, _ := mutate(s, w.B)
		return b, "damaged"
	}
}

// TestC07: accept or reject, value and consumption as the reference says.
func TestC07(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		ty := GenTy(s, TyCfg{E: e, NoNilQuirk: true, Depth: 3})
		b, how := genInput(s, e, ty)
		t.Logf("%s: %s from %x (%s)", e, ty, b, how)
		want, r := RefDecode(e, ty, b, false)
		got := reflect.New(ty.RT())
		dec := e.NewDecoder(b)
		err := dec.Decode(got.Interface())
		S.Case(isComposite(ty) && len(b) > 1, func() string { return caseKey(e, ty, b) })
		S.Class("input " + how)
		if r.DontCare {
			S.Class("left open by the property")
			return
		}
		if r.Err != nil {
			S.Class("must be rejected")
			if err == nil {
				t.Fatalf("%s: %s: malformed input was accepted (reference: %v after %d bytes)\nbytes %x\ndecoded %s", e, ty, r.Err, r.P, b, short(got.Elem()))
			}
			return
		}
		S.Class("must be accepted")
		if err != nil {
			t.Fatalf("%s: %s: well-formed input was rejected: %v\nbytes %x\nmeaning %s", e, ty, err, b, short(want))
		}
		if int(dec.Position()) != r.P || dec.Remaining() != len(b)-r.P {
			t.Fatalf("%s: %s: consumed %d bytes (%d remaining), want %d of %d\nbytes %x", e, ty, dec.Position(), dec.Remaining(), r.P, len(b), b)
		}
		if d := Diff(e, ty, want, got.Elem()); d != "" {
			t.Fatalf("%s: %s: decoded to a different value: %s\nbytes %x", e, ty, d, b)
		}
	})
}

// bomb writes a hostile length at a random place of an encoding.
func bomb(s Src, e Enc, b []byte) []byte {
	n := uint64(1)<<uint(16+s.N(9)) + uint64(s.N(3)) - 1 // 2^16 .. 2^24
	switch s.N(8) {
	case 0:
		n = []uint64{0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffffe, 1 << 28}[s.N(5)]
	case 1:
		n = []uint64{1 << 31, 1<<63 - 1, 1 << 63, ^uint64(0), 1<<62 + 1}[s.N(5)]
	}
	w := &W{E: e}
	switch s.N(4) {
	case 0:
		w.U64(n, s.N(2) == 1)
	case 1:
		w.Uvarint(n)
	default:
		if e == Bin && s.N(2) == 0 {
			w.Uvarint(n)
		} else {
			w.U32(uint32(n), false)
		}
	}
	p := s.N(len(b) + 1)
	if s.N(3) == 0 {
		p = 0
	}
	out := append([]byte(nil), b[:p]...)
	out = append(out, w.B...)
	if s.N(2) == 0 { // replace
		if p+len(w.B) < len(b) {
			out = append(out, b[p+len(w.B):]...)
		}
	} else {
		out = append(out, b[p:]...)
	}
	return out
}

// Recursive types: how deep a value is nested is up to the input.
type (
	dList struct {
		V    uint16
		Next *dList `bin:"optional"`
	}
	dKids struct {
		A []dKids
	}
	dPtrs struct {
		V uint8
		A []*dPtrs
	}
	dMap struct {
		M map[uint8]dMap
	}
	dSelf []dSelf
	dCOpt struct {
		N *dCOpt `bin:"coption"`
	}
	dEnum struct {
		Kind bin.BorshEnum `borsh_enum:"true"`
		Leaf uint8
		Node []dEnum
	}
	dPtr struct {
		V string
		P *dPtr `bin:"option"`
		Q []uint8
	}
)

// deepInput decodes bytes that nest a recursive type deeply.
func deepInput(t *rapid.T, s Src, e Enc) {
	one := &W{E: e}
	one.Length(1)
	flag := []byte{1}
	if e == Bin {
		flag = []byte{1, 0, 0, 0}
	}
	cat := func(bs ...[]byte) (out []byte) {
		for _, b := range bs {
			out = append(out, b...)
		}
		return
	}
	str := []byte{0}
	switch e {
	case Bin:
		str = make([]byte, 8)
	case Borsh:
		str = make([]byte, 4)
	}
	shapes := []struct {
		v     interface{}
		level []byte
	}{
		{new(dList), cat([]byte{7, 0}, flag)},
		{new(dKids), one.B},
		{new(dPtrs), cat([]byte{7}, one.B)},
		{new(dMap), cat(one.B, []byte{7})},
		{new(dSelf), one.B},
		{new(dPtr), cat(str, flag)},
		{new(dCOpt), []byte{1, 0, 0, 0}},
		{new(dEnum), cat([]byte{1}, one.B)},
	}
	k := len(shapes)
	if e != Borsh {
		k -= 2
	}
	sh := shapes[s.N(k)]
	n := []int{100 + s.N(1000), 1000 + s.N(4000), 5000 + s.N(8000)}[s.N(3)]
	if chance(s, 1, 40) {
		n = []int{99999, 100000, 100001, 2000000}[s.N(4)]
	}
	b := bytes.Repeat(sh.level, n)
	ends := n <= 2000 && s.N(2) == 0 // the limit itself is open
	if ends {
		b = append(b, make([]byte, 40+5*n)...)
	}
	t.Logf("%s: %T nested %d deep", e, sh.v, n)
	S.Case(true, func() string { return fmt.Sprintf("%s %T nested %d deep", e, sh.v, n) })
	S.Class("deeply nested")
	S.ClassIf(n >= 99999, "nested very deeply")
	var m0, m1 runtime.MemStats
	dec := e.NewDecoder(b)
	var err error
	runtime.ReadMemStats(&m0)
	msg := catch(func() { err = dec.Decode(sh.v) })
	runtime.ReadMemStats(&m1)
	if msg != "" {
		t.Fatalf("%s: decoding a %T nested %d deep panicked: %s", e, sh.v, n, msg)
	}
	if ends != (err == nil) {
		t.Fatalf("%s: decoding a %T nested %d deep (complete: %v): %s", e, sh.v, n, ends, firstN(fmt.Sprint(err), 200))
	}
	if got, limit := m1.TotalAlloc-m0.TotalAlloc, uint64(1<<20)+8192*uint64(n); got > limit {
		t.Fatalf("%s: decoding a %T nested %d deep (%d bytes) allocated %d bytes of memory (limit %d)", e, sh.v, n, len(b), got, limit)
	}
	if p := int(dec.Position()); p < 0 || p > len(b) {
		t.Fatalf("%s: %T nested %d deep: position %d of %d", e, sh.v, n, p, len(b))
	}
	if n < 20000 && rare(s, 16) { // the same decoder again and again, then with a complete value
		for i := 0; i < 100000/n+2; i++ {
			dec.Reset(b)
			if err := dec.Decode(reflect.New(reflect.TypeOf(sh.v).Elem()).Interface()); ends != (err == nil) {
				t.Fatalf("%s: decoding a %T nested %d deep (complete: %v), time %d with one decoder: %v", e, sh.v, n, ends, i+2, err)
			}
		}
		dec.Reset(append(bytes.Repeat(sh.level, 100), make([]byte, 540)...))
		if err := dec.Decode(reflect.New(reflect.TypeOf(sh.v).Elem()).Interface()); err != nil {
			t.Fatalf("%s: decoding a complete %T after others that were nested %d deep failed: %v", e, sh.v, n, err)
		}
		S.Class("decoder used again after deep nesting")
	}
	if err != nil && n <= 1000 {
		if m := err.Error(); len(m) > 1<<20 {
			t.Fatalf("%s: %T nested %d deep: an error text of %d bytes", e, sh.v, n, len(m))
		}
	}
}

// TestC08: any bytes, any type: an error or a value, never a panic; the
// cursor stays in bounds; memory stays proportional to the input.
func TestC08(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		if chance(s, 1, 1000) {
			deepInput(t, s, e)
			return
		}
		ty := GenTy(s, TyCfg{E: e, Depth: 4})
		if s.N(4) == 0 { // shapes where a length matters at once
			g := newTyGen(s, TyCfg{E: e, Depth: 3})
			switch s.N(4) {
			case 0:
				ty = SliceTy(Prim(KU8 + K(s.N(8))))
			case 1:
				ty = MapTy(Prim(KU16), g.ty(2, false))
			case 2:
				ty = Prim(KStr)
			default:
				ty = SliceTy(g.elem(2))
			}
		}
		b, how := genInput(s, e, ty)
		if s.N(2) == 0 {
			b = bomb(s, e, b)
			how = "hostile length"
		}
		t.Logf("%s: %s from %x (%s)", e, ty, b, how)
		S.Case(isComposite(ty) && len(b) > 0, func() string { return caseKey(e, ty, b) })
		S.Class("input " + how)
		orig := append([]byte(nil), b...)
		dst := reflect.New(ty.RT())
		dec := e.NewDecoder(b)
		var err error
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		msg := catch(func() { err = dec.Decode(dst.Interface()) })
		runtime.ReadMemStats(&m1)
		if msg != "" {
			t.Fatalf("%s: decoding a %s from %x panicked: %s", e, ty, b, msg)
		}
		S.ClassIf(err != nil, "rejected")
		S.ClassIf(err == nil, "accepted")
		if p := int(dec.Position()); p < 0 || p > len(b) || dec.Remaining() != len(b)-p || dec.HasRemaining() != (p < len(b)) || dec.Len() != len(b) {
			t.Fatalf("%s: %s: cursor out of bounds: position %d, remaining %d, length %d of %d bytes", e, ty, p, dec.Remaining(), dec.Len(), len(b))
		}
		if string(orig) != string(b) {
			t.Fatalf("%s: %s: the input was modified", e, ty)
		}
		if s.N(3) == 0 {
			hostileCalls(t, s, e, dec, b)
		}
		// memory: a constant for the type, and a multiple of the input
		max := uint64(64)
		ty.Walk(func(x *Ty) {
			if n := uint64(x.RT().Size()); n > max {
				max = n
			}
		})
		limit := uint64(512<<10) + 16*max + 200*max*uint64(len(b)+1)
		if limit > 64<<20 {
			limit = 64 << 20
		}
		if got := m1.TotalAlloc - m0.TotalAlloc; got > limit {
			t.Fatalf("%s: decoding a %s from %d bytes (%x) allocated %d bytes of memory (limit %d)", e, ty, len(b), b, got, limit)
		}
	})
}

// TestC09: a strict prefix of an encoding never decodes.
func TestC09(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		e := AllEncs[s.N(3)]
		ty := GenTy(s, TyCfg{E: e, Depth: 3})
		c := &VCtx{E: e, S: s}
		if chance(s, 1, 10) {
			c.Bulk = 1
		}
		v := GenVal(c, ty)
		in := v.Interface()
		if needsAddr(ty) {
			in = v.Addr().Interface()
		}
		t.Logf("%s: %s: %s", e, ty, lazy{v})
		b, err := e.Marshal(in)
		if err != nil {
			t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
		}
		classify(ty, b)
		S.Case(len(b) > 1, func() string { return caseKey(e, ty, b) })
		var cuts []int
		if len(b) <= 120 {
			for k := 0; k < len(b); k++ {
				cuts = append(cuts, k)
			}
		} else {
			cuts = []int{0, 1, 2, 3, 4, 5, 7, 8, len(b) - 1, len(b) - 2, len(b) - 3, len(b) - 4, len(b) - 8, len(b) - 9, len(b) / 2}
			p := &PR{X: s.U64()}
			for i := 0; i < 30; i++ {
				cuts = append(cuts, p.N(len(b)))
			}
		}
		for _, k := range cuts {
			dst := reflect.New(ty.RT())
			// the cut-off bytes must not be reachable either
			pre := append([]byte(nil), b[:k]...)
			if k%2 == 1 {
				pre = b[:k] // data beyond the length, within the capacity
			}
			dec := e.NewDecoder(pre)
			if err := dec.Decode(dst.Interface()); err == nil {
				t.Fatalf("%s: the first %d of the %d bytes of a %s were accepted\nbytes %s\ndecoded %s", e, k, len(b), ty, hexs(b), short(dst.Elem()))
			}
			if int(dec.Position()) > k {
				t.Fatalf("%s: %s: position %d after failing on %d bytes", e, ty, dec.Position(), k)
			}
		}
		S.Class(fmt.Sprintf("all prefixes: %v", len(b) <= 120))
	})
}

// hostileCalls uses the positioning and counted reads of a decoder with
// arbitrary arguments: whatever they return, the cursor stays in the buffer
// and a call that fails leaves it alone.
func hostileCalls(t *rapid.T, s Src, e Enc, dec *bin.Decoder, b []byte) {
	var log []string
	S.Class("calls with arbitrary counts")
	for i := 1 + s.N(4); i > 0; i-- {
		n := genN(s, dec.Remaining())
		if s.N(3) == 0 {
			n = -1 - s.N(len(b)+2)
		}
		at := dec.Position()
		name, got := "", 0
		var err error
		msg := catch(func() {
			switch s.N(6) {
			case 0:
				name = "SkipBytes"
				err = dec.SkipBytes(uint(n))
			case 1:
				name = "Discard"
				err = dec.Discard(n)
			case 2:
				name = "SetPosition"
				err = dec.SetPosition(uint(n))
			case 3:
				name = "ReadNBytes"
				var x []byte
				x, err = dec.ReadNBytes(n)
				got = len(x)
			case 4:
				name = "ReadBytes"
				var x []byte
				x, err = dec.ReadBytes(n)
				got = len(x)
			default:
				name = "Peek"
				var x []byte
				x, err = dec.Peek(n)
				got = len(x)
			}
		})
		log = append(log, fmt.Sprintf("%s(%d)", name, n))
		if msg != "" {
			t.Fatalf("%s: %v on %d bytes panicked: %s", e, log, len(b), msg)
		}
		if p := int(dec.Position()); p < 0 || p > len(b) || dec.Remaining() != len(b)-p || dec.HasRemaining() != (p < len(b)) || dec.Len() != len(b) {
			t.Fatalf("%s: %v: cursor out of bounds: position %d, remaining %d, length %d of %d bytes", e, log, p, dec.Remaining(), dec.Len(), len(b))
		}
		if err != nil && dec.Position() != at {
			t.Fatalf("%s: %v failed and moved the cursor from %d to %d", e, log, at, dec.Position())
		}
		if err == nil && (n < 0 || n > len(b)) {
			t.Fatalf("%s: %v succeeded on %d bytes", e, log, len(b))
		}
		if err == nil && name[0] != 'S' && name != "Discard" && got != n {
			t.Fatalf("%s: %v returned %d bytes", e, log, got)
		}
	}
}
