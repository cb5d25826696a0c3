package harness

import (
	"fmt"
	"reflect"
)

// Wrap puts a value into a randomly chosen larger context (a struct field, a
// slice or array element, a map key or value, behind a pointer, an optional
// field, an enum payload, ...) and returns the larger type and value. The
// wrapped value is always on the wire.
type Wrapper struct {
	S Src
	E Enc
	// Fill makes the sibling elements of a sequence.
	Fill func(ty *Ty) reflect.Value
	// Key says whether the innermost value may become a map key.
	Key  bool
	next int
	// Path records the contexts, innermost first.
	Path []string
}

func NewWrapper(s Src, e Enc) *Wrapper {
	w := &Wrapper{S: s, E: e}
	w.Fill = func(ty *Ty) reflect.Value { return GenVal(&VCtx{E: e, S: s}, ty) }
	return w
}

func (w *Wrapper) name() string {
	w.next++
	return fmt.Sprintf("W%d", w.next)
}

func (w *Wrapper) sibling() *Fld {
	ks := []K{KBool, KU8, KU16, KU32, KU64, KI16, KF32, KStr}
	return &Fld{Name: w.name(), Ty: Prim(ks[w.S.N(len(ks))])}
}

// structWith builds a struct around field f with random primitive siblings.
func (w *Wrapper) structWith(f *Fld, v reflect.Value, pre ...*Fld) (*Ty, reflect.Value) {
	var fs []*Fld
	for i := w.S.N(3); i > 0; i-- {
		fs = append(fs, w.sibling())
	}
	fs = append(fs, pre...)
	at := len(fs)
	fs = append(fs, f)
	for i := w.S.N(3); i > 0; i-- {
		fs = append(fs, w.sibling())
	}
	ty := StructTy(fs...)
	out := reflect.New(ty.RT()).Elem()
	c := &VCtx{E: w.E, S: w.S, NoNaN: true}
	for i, g := range fs {
		if i == at {
			out.Field(i).Set(v)
		} else if g.SizeOf == "" {
			c.Val(g.Ty, out.Field(i))
		}
	}
	return ty, out
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func (w *Wrapper) keyOK(ty *Ty) bool {
	switch ty.RT().Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.String, reflect.Bool:
		return true
	}
	return false
}

// Wrap wraps once.
func (w *Wrapper) Wrap(ty *Ty, v reflect.Value) (*Ty, reflect.Value) {
	s := w.S
	for {
		switch s.N(12) {
		case 0, 1:
			f := &Fld{Name: w.name(), Ty: ty}
			if chance(s, 1, 4) && !(w.E == Borsh && ty.K == KCustom && ty.C.Ordered) {
				f.Little = true
			}
			w.Path = append(w.Path, "field")
			return w.structWith(f, v)
		case 2, 3:
			if ty.K == KCustom && ty.IsUintKind() || ty.MinSize() == 0 {
				continue
			}
			t := SliceTy(ty)
			n := w.seqLen()
			out := reflect.MakeSlice(t.RT(), n, n)
			w.fillSeq(ty, out, v)
			w.Path = append(w.Path, "slice")
			return t, addr(out)
		case 4:
			if ty.K == KCustom && ty.IsUintKind() || ty.MinSize() == 0 {
				continue
			}
			n := w.seqLen()
			t := ArrTy(n, ty)
			out := reflect.New(t.RT()).Elem()
			w.fillSeq(ty, out, v)
			w.Path = append(w.Path, "array")
			return t, out
		case 5:
			kt := []*Ty{Prim(KU8), Prim(KStr), Prim(KI64), Prim(KU32)}[s.N(4)]
			t := MapTy(kt, ty)
			out := reflect.MakeMap(t.RT())
			c := &VCtx{E: w.E, S: s, NoNaN: true}
			for i := s.N(3); i > 0; i-- {
				out.SetMapIndex(GenVal(c, kt), w.Fill(ty))
			}
			out.SetMapIndex(GenVal(c, kt), v)
			w.Path = append(w.Path, "map value")
			return t, addr(out)
		case 6:
			if ty.K == KPtr && s.N(3) > 0 {
				continue
			}
			w.Path = append(w.Path, "pointer")
			return PtrTy(ty), addr(ptrTo(v))
		case 7, 8:
			if ty.K == KPtr && ty.Elem.K == KPtr {
				continue
			}
			f := &Fld{Name: w.name(), Ty: ty, Opt: true}
			if w.E == Borsh && s.N(2) == 1 {
				f.Opt, f.COpt = false, true
			}
			what := "optional"
			if f.COpt {
				what = "coption"
			}
			if v.IsZero() || s.N(2) == 0 {
				if ty.K == KPtr {
					continue
				}
				f.Ty, v = PtrTy(ty), ptrTo(v)
				what += " pointer"
			}
			w.Path = append(w.Path, what)
			return w.structWith(f, v)
		case 9:
			if w.E != Borsh {
				continue
			}
			n := 1 + s.N(3)
			d := s.N(n)
			t := &Ty{K: KEnum, N: s.N(2)}
			for i := 0; i < n; i++ {
				f := w.sibling()
				if i == d {
					f.Ty = ty
				}
				t.Fields = append(t.Fields, f)
			}
			out := reflect.New(t.RT()).Elem()
			out.Field(0).SetUint(uint64(d))
			out.Field(d + 1).Set(v)
			w.Path = append(w.Path, "enum payload")
			return t, out
		case 10:
			if !w.Key || len(w.Path) > 0 || !w.keyOK(ty) {
				continue
			}
			t := MapTy(ty, Prim(KU16))
			out := reflect.MakeMap(t.RT())
			out.SetMapIndex(v, reflect.ValueOf(uint16(GenUint(s, 16))))
			w.Path = append(w.Path, "map key")
			return t, addr(out)
		default:
			if ty.K == KCustom && ty.IsUintKind() || ty.MinSize() == 0 {
				continue
			}
			n := w.seqLen()
			cnt := &Fld{Name: w.name(), Ty: Prim(KU8)}
			f := &Fld{Name: w.name(), Ty: SliceTy(ty), Sized: cnt.Name}
			cnt.SizeOf = f.Name
			sl := reflect.MakeSlice(f.Ty.RT(), n, n)
			w.fillSeq(ty, sl, v)
			t, out := w.structWith(f, sl, cnt)
			out.Field(t.FieldIndex(cnt.Name)).SetUint(uint64(n))
			w.Path = append(w.Path, "sized slice")
			return t, out
		}
	}
}

// seqLen draws the length of a sequence: the innermost one may be long.
func (w *Wrapper) seqLen() int {
	if len(w.Path) <= 1 && chance(w.S, 1, 6) {
		return 1 + w.S.N(70)
	}
	return 1 + w.S.N(3)
}

func (w *Wrapper) fillSeq(ty *Ty, out, v reflect.Value) {
	at := w.S.N(out.Len())
	for i := 0; i < out.Len(); i++ {
		if i == at {
			out.Index(i).Set(v)
		} else {
			out.Index(i).Set(w.Fill(ty))
		}
	}
}

func addr(v reflect.Value) reflect.Value {
	x := reflect.New(v.Type()).Elem()
	x.Set(v)
	return x
}

// Nest wraps n times.
func (w *Wrapper) Nest(n int, ty *Ty, v reflect.Value) (*Ty, reflect.Value) {
	for i := 0; i < n; i++ {
		ty, v = w.Wrap(ty, v)
	}
	return ty, v
}
