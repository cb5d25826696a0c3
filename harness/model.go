package harness

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
)

// ---------------------------------------------------------------------------
// The reference codec. It is written from the wire-format descriptions only
// (Borsh specification, Solana compact-u16, LEB128, and the bin conventions in
// the repository's documentation and tests), works on the schema language and
// never calls the library.
// ---------------------------------------------------------------------------

// FO carries what a struct tag says about a field.
type FO struct {
	Big   bool
	Sized int // -1: none
}

var noFO = FO{Sized: -1}

// W is the reference encoder.
type W struct {
	E   Enc
	B   []byte
	Err error
	// Flag, when set, chooses the flag written for an optional field.
	Flag func(f *Fld, present bool) uint32
	// Mark, when set, is called before the fields of the outermost struct and
	// after the last one.
	Mark  func()
	depth int
	// AllowNaN writes NaN even in Borsh.
	AllowNaN bool
	// NaN32 and NaN64, if set, are the patterns a NaN is written as.
	NaN32 uint32
	NaN64 uint64
	// Sites, when RecordSites is set, are the places that steer a decoder.
	RecordSites bool
	Sites       []Site
}

// Site is a part of an encoding: kind 'l' length, 's' u64 string length,
// 'e' enum variant, 'o' one-byte flag, 'O' four-byte flag, 'c' count, 'C'
// big-endian count, 'f' float, 'F' big-endian float, 'b' bool.
type Site struct {
	Kind     byte
	From, To int
}

func (w *W) site(kind byte, from int) {
	if w.RecordSites && len(w.Sites) < 4096 {
		w.Sites = append(w.Sites, Site{kind, from, len(w.B)})
	}
}

func (w *W) U8(v uint8) { w.B = append(w.B, v) }
func (w *W) uN(v uint64, n int, big bool) {
	for i := 0; i < n; i++ {
		sh := uint(8 * i)
		if big {
			sh = uint(8 * (n - 1 - i))
		}
		w.B = append(w.B, byte(v>>sh))
	}
}
func (w *W) U16(v uint16, big bool) { w.uN(uint64(v), 2, big) }
func (w *W) U32(v uint32, big bool) { w.uN(uint64(v), 4, big) }
func (w *W) U64(v uint64, big bool) { w.uN(v, 8, big) }
func (w *W) U128(hi, lo uint64, big bool) {
	if big {
		w.U64(hi, true)
		w.U64(lo, true)
	} else {
		w.U64(lo, false)
		w.U64(hi, false)
	}
}
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }
func (w *W) Uvarint(v uint64) {
	for v >= 0x80 {
		w.B = append(w.B, byte(v)|0x80)
		v >>= 7
	}
	w.B = append(w.B, byte(v))
}
func (w *W) Varint(v int64) {
	u := uint64(v) << 1
	if v < 0 {
		u = ^u
	}
	w.Uvarint(u)
}
func (w *W) CompactU16(n int) {
	if n < 0 || n > 0xffff {
		w.fail("compact-u16 out of range")
		return
	}
	for n >= 0x80 {
		w.B = append(w.B, byte(n&0x7f)|0x80)
		n >>= 7
	}
	w.B = append(w.B, byte(n))
}
func (w *W) Length(n int) {
	from := len(w.B)
	defer func() { w.site('l', from) }()
	switch w.E {
	case Bin:
		w.Uvarint(uint64(n))
	case Compact:
		w.CompactU16(n)
	default:
		w.U32(uint32(n), false)
	}
}
func (w *W) LenBytes(b []byte) { w.Length(len(b)); w.Raw(b) }
func (w *W) fail(s string) {
	if w.Err == nil {
		w.Err = errors.New(s)
	}
}

func (w *W) Val(ty *Ty, v reflect.Value, fo FO) {
	if w.Err != nil {
		return
	}
	big := fo.Big && w.E != Borsh
	switch ty.K {
	case KBool:
		if v.Bool() {
			w.U8(1)
		} else {
			w.U8(0)
		}
		w.site('b', len(w.B)-1)
	case KU8:
		w.U8(uint8(v.Uint()))
	case KU16:
		w.U16(uint16(v.Uint()), big)
	case KU32:
		w.U32(uint32(v.Uint()), big)
	case KU64:
		w.U64(v.Uint(), big)
	case KI8:
		w.U8(uint8(v.Int()))
	case KI16:
		w.U16(uint16(v.Int()), big)
	case KI32:
		w.U32(uint32(v.Int()), big)
	case KI64:
		w.U64(uint64(v.Int()), big)
	case KF32:
		f := float32(v.Float())
		if w.E == Borsh && f != f && !w.AllowNaN {
			w.fail("NaN")
			return
		}
		u := math.Float32bits(f)
		if f != f && w.NaN32 != 0 {
			u = w.NaN32
		}
		w.U32(u, big)
		w.site(kindOf('f', big), len(w.B)-4)
	case KF64:
		f := v.Float()
		if w.E == Borsh && f != f && !w.AllowNaN {
			w.fail("NaN")
			return
		}
		u := math.Float64bits(f)
		if f != f && w.NaN64 != 0 {
			u = w.NaN64
		}
		w.U64(u, big)
		w.site(kindOf('f', big), len(w.B)-8)
	case KStr:
		s := v.String()
		if w.E == Bin {
			w.U64(uint64(len(s)), false)
			w.site('s', len(w.B)-8)
		} else {
			w.Length(len(s))
		}
		w.Raw([]byte(s))
	case KArr:
		w.elems(ty, v, ty.N)
	case KSlice:
		n := v.Len()
		if fo.Sized >= 0 {
			n = fo.Sized
		} else {
			w.Length(n)
		}
		w.elems(ty, v, n)
	case KMap:
		w.Length(v.Len())
		keys := v.MapKeys()
		sortKeys(keys)
		for _, k := range keys {
			w.Val(ty.Key, k, noFO)
			w.Val(ty.Elem, v.MapIndex(k), noFO)
		}
	case KPtr:
		if v.IsNil() {
			if w.E != Borsh {
				panic("harness: nil non-optional pointer outside borsh")
			}
			v = reflect.Zero(ty.Elem.RT())
		} else {
			v = v.Elem()
		}
		w.Val(ty.Elem, v, fo)
	case KCustom:
		ty.C.Enc(w, v, fo.Big)
	case KIface:
	case KStruct:
		w.fields(ty, v)
	case KEnum:
		d := int(v.Field(0).Uint())
		w.U8(uint8(d))
		w.site('e', len(w.B)-1)
		if w.E != Borsh {
			w.fields(ty, v)
			return
		}
		if d >= len(ty.Fields) {
			w.fail("enum discriminant out of range")
			return
		}
		w.Val(ty.Fields[d].Ty, v.Field(d+1), noFO)
	default:
		panic("harness: bad kind")
	}
}

// rawUint encodes an element of unsigned kind at its fixed width: slices and
// arrays of (named) unsigned integers are written as packed little-endian.
func (w *W) elems(ty *Ty, v reflect.Value, n int) {
	for i := 0; i < n; i++ {
		el := v.Index(i)
		if ty.Elem.K == KCustom && ty.Elem.IsUintKind() {
			w.uN(el.Uint(), int(ty.Elem.RT().Size()), false)
			continue
		}
		w.Val(ty.Elem, el, noFO)
	}
}

func (w *W) fields(ty *Ty, v reflect.Value) {
	w.depth++
	defer func() { w.depth-- }()
	for i, f := range ty.Fields {
		if !f.OnWire() {
			continue
		}
		if w.Mark != nil && w.depth == 1 {
			w.Mark()
		}
		fv := ty.FieldValue(v, i)
		fo := FO{Big: f.Big, Sized: -1}
		if f.Sized != "" {
			fo.Sized = sizedCount(ty.FieldValue(v, ty.FieldIndex(f.Sized)))
		}
		if f.Opt || (f.COpt && w.E == Borsh) {
			present := !fv.IsZero()
			flag := uint32(0)
			if present {
				flag = 1
			}
			if w.Flag != nil {
				flag = w.Flag(f, present)
			}
			if w.E == Bin || f.COpt {
				w.U32(flag, false)
				w.site('O', len(w.B)-4)
			} else {
				w.U8(uint8(flag))
				w.site('o', len(w.B)-1)
			}
			if !present {
				continue
			}
		}
		from := len(w.B)
		w.Val(f.Ty, fv, fo)
		if f.SizeOf != "" && f.Ty.K != KCustom {
			w.site(kindOf('c', f.Big && w.E != Borsh), from)
		}
	}
}

func kindOf(k byte, big bool) byte {
	if big {
		return k - 'a' + 'A'
	}
	return k
}

func sizedCount(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	}
	if v.Uint() >= 1<<62 {
		return -1
	}
	return int(v.Uint())
}

func sortKeys(keys []reflect.Value) {
	sort.SliceStable(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() < b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Bool:
		return !a.Bool() && b.Bool()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if lessKey(a.Index(i), b.Index(i)) {
				return true
			}
			if lessKey(b.Index(i), a.Index(i)) {
				return false
			}
		}
		return false
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if lessKey(a.Field(i), b.Field(i)) {
				return true
			}
			if lessKey(b.Field(i), a.Field(i)) {
				return false
			}
		}
		return false
	}
	panic("harness: key kind " + a.Kind().String())
}

// RefEncode encodes v of schema ty.
func RefEncode(e Enc, ty *Ty, v reflect.Value) ([]byte, error) {
	w := &W{E: e}
	w.Val(ty, v, noFO)
	return w.B, w.Err
}

// ---------------------------------------------------------------------------

var errEOF = errors.New("ref: not enough data")

// R is the reference decoder. In Strict mode it also rejects encodings no
// encoder may produce (non-0/1 flags, overlong varints, unsorted Borsh maps).
// DontCare is set when the input reaches behaviour the properties leave open.
type R struct {
	E        Enc
	D        []byte
	P        int
	Err      error
	Strict   bool
	DontCare bool
	depth    int
}

func (r *R) fail(s string) {
	if r.Err == nil {
		r.Err = errors.New("ref: " + s)
	}
}
func (r *R) Rem() int { return len(r.D) - r.P }
func (r *R) Take(n int) []byte {
	if r.Err != nil {
		return nil
	}
	if n < 0 || n > r.Rem() {
		r.Err = errEOF
		return nil
	}
	b := r.D[r.P : r.P+n]
	r.P += n
	return b
}
func (r *R) uN(n int, big bool) uint64 {
	b := r.Take(n)
	if b == nil {
		return 0
	}
	var v uint64
	for i := 0; i < n; i++ {
		x := b[i]
		if !big {
			x = b[n-1-i]
		}
		v = v<<8 | uint64(x)
	}
	return v
}
func (r *R) U8() uint8           { return uint8(r.uN(1, false)) }
func (r *R) U16(big bool) uint16 { return uint16(r.uN(2, big)) }
func (r *R) U32(big bool) uint32 { return uint32(r.uN(4, big)) }
func (r *R) U64(big bool) uint64 { return r.uN(8, big) }
func (r *R) U128(big bool) (hi, lo uint64) {
	if big {
		hi = r.U64(true)
		lo = r.U64(true)
	} else {
		lo = r.U64(false)
		hi = r.U64(false)
	}
	return
}
func (r *R) Bool() bool {
	b := r.U8()
	if r.Strict && b > 1 {
		r.fail("bool byte not 0/1")
	}
	return b != 0
}
func (r *R) Uvarint() uint64 {
	var v uint64
	for i := 0; ; i++ {
		if i == 10 {
			r.fail("uvarint too long")
			return 0
		}
		b := r.Take(1)
		if b == nil {
			return 0
		}
		if i == 9 && b[0] > 1 {
			r.fail("uvarint overflow")
			return 0
		}
		v |= uint64(b[0]&0x7f) << uint(7*i)
		if b[0] < 0x80 {
			if r.Strict && i > 0 && b[0] == 0 {
				r.fail("overlong uvarint")
			}
			return v
		}
	}
}
func (r *R) Varint() int64 {
	u := r.Uvarint()
	v := int64(u >> 1)
	if u&1 != 0 {
		v = ^v
	}
	return v
}

// CompactU16 follows Solana's ShortU16: canonical, at most 3 bytes, <= 65535.
func (r *R) CompactU16() int {
	v := 0
	for i := 0; i < 3; i++ {
		b := r.Take(1)
		if b == nil {
			return 0
		}
		if i > 0 && b[0] == 0 {
			r.fail("compact-u16 alias")
			return 0
		}
		v |= int(b[0]&0x7f) << uint(7*i)
		if b[0] < 0x80 {
			if v > 0xffff {
				r.fail("compact-u16 overflow")
				return 0
			}
			return v
		}
	}
	r.fail("compact-u16 too long")
	return 0
}

const maxLen = 0x7FFF_FFFF

func (r *R) Length() int {
	switch r.E {
	case Bin:
		v := r.Uvarint()
		if r.Err == nil && v > maxLen {
			r.fail("length too large")
			return 0
		}
		return int(v)
	case Compact:
		return r.CompactU16()
	}
	return int(r.U32(false)) // int is 64-bit; an oversized length fails below
}
func (r *R) LenBytes() []byte { n := r.Length(); return r.Take(n) }

func (r *R) Val(ty *Ty, out reflect.Value, fo FO) {
	if r.Err != nil {
		return
	}
	big := fo.Big && r.E != Borsh
	switch ty.K {
	case KBool:
		out.SetBool(r.Bool())
	case KU8:
		out.SetUint(uint64(r.U8()))
	case KU16:
		out.SetUint(uint64(r.U16(big)))
	case KU32:
		out.SetUint(uint64(r.U32(big)))
	case KU64:
		out.SetUint(r.U64(big))
	case KI8:
		out.SetInt(int64(int8(r.U8())))
	case KI16:
		out.SetInt(int64(int16(r.U16(big))))
	case KI32:
		out.SetInt(int64(int32(r.U32(big))))
	case KI64:
		out.SetInt(int64(r.U64(big)))
	case KF32:
		f := math.Float32frombits(r.U32(big))
		if r.E == Borsh && f != f {
			r.fail("NaN")
			return
		}
		out.SetFloat(float64(f))
	case KF64:
		f := math.Float64frombits(r.U64(big))
		if r.E == Borsh && f != f {
			r.fail("NaN")
			return
		}
		out.SetFloat(f)
	case KStr:
		var n uint64
		if r.E == Bin {
			n = r.U64(false)
			if n > maxLen {
				r.fail("string length too large")
				return
			}
		} else {
			n = uint64(r.Length())
		}
		out.SetString(string(r.Take(int(n))))
	case KArr:
		for i := 0; i < ty.N && r.Err == nil; i++ {
			r.elem(ty, out.Index(i))
		}
	case KSlice:
		var n int
		if fo.Sized >= 0 {
			n = fo.Sized
		} else {
			n = r.Length()
		}
		if r.Err != nil {
			return
		}
		if n > r.Rem() {
			r.Err = errEOF
			return
		}
		s := reflect.MakeSlice(ty.RT(), 0, 0)
		for i := 0; i < n && r.Err == nil; i++ {
			el := reflect.New(ty.Elem.RT()).Elem()
			r.elem(ty, el)
			s = reflect.Append(s, el)
		}
		out.Set(s)
	case KMap:
		n := r.Length()
		if r.Err != nil {
			return
		}
		if n > r.Rem() && ty.Key.MinSize() > 0 {
			r.Err = errEOF
			return
		}
		m := reflect.MakeMap(ty.RT())
		var prev reflect.Value
		for i := 0; i < n && r.Err == nil; i++ {
			k := reflect.New(ty.Key.RT()).Elem()
			r.Val(ty.Key, k, noFO)
			v := reflect.New(ty.Elem.RT()).Elem()
			r.Val(ty.Elem, v, noFO)
			if r.Err != nil {
				return
			}
			if !isSelfEqual(k) {
				r.DontCare = true // NaN map key
			}
			if r.Strict {
				if m.MapIndex(k).IsValid() {
					r.fail("duplicate map key")
				}
				if r.E == Borsh && prev.IsValid() && !lessKey(prev, k) {
					r.fail("unsorted map")
				}
			}
			prev = k
			m.SetMapIndex(k, v)
		}
		out.Set(m)
	case KPtr:
		p := reflect.New(ty.Elem.RT())
		r.Val(ty.Elem, p.Elem(), fo)
		out.Set(p)
	case KCustom:
		ty.C.Dec(r, out, fo.Big)
	case KIface:
	case KStruct:
		r.fields(ty, out)
	case KEnum:
		d := int(r.U8())
		if r.Err != nil {
			return
		}
		out.Field(0).SetUint(uint64(d))
		if r.E != Borsh {
			r.fields(ty, out)
			return
		}
		if d >= len(ty.Fields) {
			r.fail("enum discriminant out of range")
			return
		}
		r.Val(ty.Fields[d].Ty, out.Field(d+1), noFO)
	}
}

func isSelfEqual(k reflect.Value) bool {
	switch k.Kind() {
	case reflect.Float32, reflect.Float64:
		return k.Float() == k.Float()
	case reflect.Array:
		for i := 0; i < k.Len(); i++ {
			if !isSelfEqual(k.Index(i)) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < k.NumField(); i++ {
			if !isSelfEqual(k.Field(i)) {
				return false
			}
		}
	}
	return true
}

func (r *R) elem(ty *Ty, el reflect.Value) {
	if ty.Elem.K == KCustom && ty.Elem.IsUintKind() {
		el.SetUint(r.uN(int(ty.Elem.RT().Size()), false))
		return
	}
	r.Val(ty.Elem, el, noFO)
}

func (r *R) fields(ty *Ty, out reflect.Value) {
	counts := map[string]int{}
	for i, f := range ty.Fields {
		if !f.OnWire() {
			continue
		}
		if r.Err != nil {
			return
		}
		if f.Ext && r.Rem() == 0 {
			continue
		}
		fv := ty.FieldValue(out, i)
		fo := FO{Big: f.Big, Sized: -1}
		if f.Sized != "" {
			fo.Sized = counts[f.Sized]
		}
		present := true
		if f.Opt || (f.COpt && r.E == Borsh) {
			var flag uint32
			if r.E == Bin || f.COpt {
				flag = r.U32(false)
			} else {
				flag = uint32(r.U8())
			}
			if (f.COpt || r.Strict) && flag > 1 {
				r.fail("bad option flag")
			}
			if r.Err != nil {
				return
			}
			present = flag != 0
		}
		if present {
			if f.Sized != "" && fo.Sized < 0 {
				r.fail("count out of range")
				return
			}
			r.Val(f.Ty, fv, fo)
		} else {
			fv.Set(reflect.Zero(fv.Type()))
		}
		if f.SizeOf != "" && r.Err == nil {
			counts[f.Name] = sizedCount(fv)
		}
	}
}

// RefDecode decodes the start of b as ty.
func RefDecode(e Enc, ty *Ty, b []byte, strict bool) (reflect.Value, *R) {
	r := &R{E: e, D: b, Strict: strict}
	out := reflect.New(ty.RT())
	r.Val(ty, out.Elem(), noFO)
	return out.Elem(), r
}

// ---------------------------------------------------------------------------
// Semantic equality. want is the original value, got the decoded one.
// ---------------------------------------------------------------------------

type eqOpts struct {
	e Enc
	// skipped fields must be zero in got (fresh destination)
	skippedZero bool
}

// Diff returns "" when got is an acceptable decoding of want.
func Diff(e Enc, ty *Ty, want, got reflect.Value) string {
	return (&eqOpts{e: e, skippedZero: true}).diff(ty, want, got, "v")
}

func (o *eqOpts) diff(ty *Ty, a, b reflect.Value, path string) string {
	bad := func() string {
		return fmt.Sprintf("%s (%s): want %s, got %s", path, ty, short(a), short(b))
	}
	switch ty.K {
	case KBool:
		if a.Bool() != b.Bool() {
			return bad()
		}
	case KU8, KU16, KU32, KU64:
		if a.Uint() != b.Uint() {
			return bad()
		}
	case KI8, KI16, KI32, KI64:
		if a.Int() != b.Int() {
			return bad()
		}
	case KF32, KF64:
		x, y := a.Float(), b.Float()
		if x != x && y != y {
			return ""
		}
		if math.Float64bits(x) != math.Float64bits(y) {
			return bad()
		}
	case KStr:
		if a.String() != b.String() {
			return bad()
		}
	case KArr, KSlice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s (%s): want %d elements, got %d", path, ty, a.Len(), b.Len())
		}
		if ty.Elem.K == KU8 && ty.K == KSlice && ty.Elem.Name == "" && ty.Name == "" {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return bad()
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := o.diff(ty.Elem, a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case KMap:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s (%s): want %d entries, got %d", path, ty, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s (%s): key %s missing", path, ty, short(k))
			}
			if d := o.diff(ty.Elem, a.MapIndex(k), bv, fmt.Sprintf("%s[%s]", path, short(k))); d != "" {
				return d
			}
		}
	case KPtr:
		if a.IsNil() {
			if b.IsNil() {
				return ""
			}
			// a nil non-optional pointer stands for the zero value in Borsh
			return o.diff(ty.Elem, reflect.Zero(ty.Elem.RT()), b.Elem(), "*"+path)
		}
		if b.IsNil() {
			return bad()
		}
		return o.diff(ty.Elem, a.Elem(), b.Elem(), "*"+path)
	case KCustom:
		if !ty.C.Eq(a, b) {
			return bad()
		}
	case KIface:
	case KStruct:
		return o.diffFields(ty, a, b, path)
	case KEnum:
		if a.Field(0).Uint() != b.Field(0).Uint() {
			return fmt.Sprintf("%s: want discriminant %d, got %d", path, a.Field(0).Uint(), b.Field(0).Uint())
		}
		if o.e != Borsh {
			return o.diffFields(ty, a, b, path)
		}
		d := int(a.Field(0).Uint())
		if d >= len(ty.Fields) {
			return ""
		}
		return o.diff(ty.Fields[d].Ty, a.Field(d+1), b.Field(d+1), path+"."+ty.Fields[d].Name)
	}
	return ""
}

func (o *eqOpts) diffFields(ty *Ty, a, b reflect.Value, path string) string {
	for i, f := range ty.Fields {
		fa, fb := ty.FieldValue(a, i), ty.FieldValue(b, i)
		if !f.OnWire() {
			if o.skippedZero && !fb.IsZero() {
				return fmt.Sprintf("%s.%s: a field that is not encoded was changed", path, f.Name)
			}
			continue
		}
		if f.Opt || (f.COpt && o.e == Borsh) {
			if fa.IsZero() && fb.IsZero() {
				continue // absent (a negative zero counts as the zero value)
			}
			if f.Ty.K == KPtr && fa.IsNil() != fb.IsNil() {
				return fmt.Sprintf("%s.%s: optional presence: want present=%v, got present=%v", path, f.Name, !fa.IsNil(), !fb.IsNil())
			}
		}
		if d := o.diff(f.Ty, fa, fb, path+"."+f.Name); d != "" {
			return d
		}
	}
	return ""
}

func short(v reflect.Value) string {
	if !v.IsValid() {
		return "<invalid>"
	}
	var s string
	if v.CanInterface() {
		s = fmt.Sprintf("%#v", v.Interface())
	} else {
		s = fmt.Sprintf("%v", v)
	}
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
