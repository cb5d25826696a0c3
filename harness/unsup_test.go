package harness

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// unsupported are the leaf types with no wire form.
var unsupported = func() []*Ty {
	x, y := 3, uint(4)
	_ = y
	mk := func(name string, v interface{}) *Ty {
		rv := reflect.ValueOf(v)
		return CustomTy(&Custom{Name: name, RT: rv.Type(), MinSize: 1,
			Gen: func(s Src, _ Enc) reflect.Value {
				if s.N(3) == 0 {
					return reflect.Zero(rv.Type())
				}
				return rv
			},
			Enc: func(w *W, _ reflect.Value, _ bool) { w.fail("unsupported") },
			Dec: func(r *R, _ reflect.Value, _ bool) { r.fail("unsupported") },
			Eq:  func(a, b reflect.Value) bool { return true }})
	}
	type myInt int
	type myUint uint
	return []*Ty{
		mk("int", x), mk("uint", y), mk("myInt", myInt(1)), mk("myUint", myUint(1)), mk("uintptr", uintptr(9)),
		mk("complex64", complex64(1+2i)), mk("complex128", complex128(2+1i)),
		mk("chan", make(chan int)), mk("func", func() {}),
	}
}()

func unsupportedTy(s Src) *Ty { return unsupported[s.N(len(unsupported))] }

// TestC32: unsupported types and invalid targets are reported.
func TestC32(t *testing.T) {
	t.Run("types", func(t *testing.T) {
		check(t, 80, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			leaf := unsupportedTy(s)
			w := NewWrapper(s, e)
			w.Fill = func(ty *Ty) reflect.Value { return fillAny(s, e, ty) }
			w.Key = true
			ty, v := w.Nest(s.N(5), leaf, addr(leaf.C.Gen(s, e)))
			t.Logf("%s: %s", e, ty)
			path := strings.Join(w.Path, " in ")
			S.Case(len(w.Path) > 0, func() string { return fmt.Sprintf("%s | %s", e, ty) })
			S.Class("unsupported " + leaf.C.Name)
			for _, p := range w.Path {
				S.Class("position: " + p)
			}
			var b []byte
			var err error
			if msg := catch(func() { b, err = e.Marshal(arg(s, ty, v)) }); msg != "" {
				t.Fatalf("%s: encoding a %s panicked: %s", e, ty, msg)
			}
			if err == nil {
				t.Fatalf("%s: a %s (%s %s) was encoded as %s without an error", e, ty, leaf.C.Name, path, hexs(b))
			}
			if _, err := e.ByteCount(v.Interface()); err == nil {
				t.Fatalf("%s: ByteCount of a %s reports no error", e, ty)
			}
			if msg := catch(func() { e.MustByteCount(v.Interface()) }); msg == "" {
				t.Fatalf("%s: MustByteCount of a %s did not panic", e, ty)
			}
			// decoding: ones lead into every option, sequence and variant
			in := make([]byte, 200)
			for i := range in {
				in[i] = 1
			}
			if e == Borsh || e == Bin {
				if s.N(2) == 0 { // u32 LE 1
					for i := range in {
						in[i] = 0
						if i%4 == 0 {
							in[i] = 1
						}
					}
				}
			}
			_, r := RefDecode(e, ty, in, false)
			dst := reflect.New(ty.RT())
			if msg := catch(func() { err = e.Unmarshal(dst.Interface(), in) }); msg != "" {
				t.Fatalf("%s: decoding a %s panicked: %s", e, ty, msg)
			}
			if r.Err != nil && err == nil {
				t.Fatalf("%s: a %s was decoded without an error (reference: %v)", e, ty, r.Err)
			}
			S.ClassIf(r.Err != nil && r.Err.Error() == "ref: unsupported", "decoding reaches the unsupported type")
		})
	})
	// several keys that cannot be put in order, or are no keys at all
	t.Run("keys", func(t *testing.T) {
		check(t, 8, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			type point struct{ X, Y int16 }
			kinds := []struct {
				t   reflect.Type
				bad bool
			}{
				{reflect.TypeOf(make(chan int)), true}, {reflect.TypeOf(complex64(0)), true}, {reflect.TypeOf(uintptr(0)), true}, {reflect.TypeOf(0), true},
				{reflect.TypeOf(uint(0)), true}, {reflect.TypeOf([2]uint{}), true}, {reflect.TypeOf([2]complex128{}), true}, {reflect.TypeOf(struct{ C chan int }{}), true},
				{reflect.TypeOf(point{}), false}, {reflect.TypeOf((*uint16)(nil)), false}, {reflect.TypeOf([2]point{}), false}, {reflect.TypeOf(bin.Uint128{}), false},
				{reflect.TypeOf([1]*uint16{}), false}, {reflect.TypeOf((*point)(nil)), false},
			}
			k := kinds[s.N(len(kinds))]
			m := reflect.MakeMap(reflect.MapOf(k.t, reflect.TypeOf(uint8(0))))
			for n := 1 + s.N(6); n > 0; n-- {
				key := reflect.New(k.t).Elem()
				fillKey(s, key)
				m.SetMapIndex(key, reflect.ValueOf(uint8(n)))
			}
			v := m.Interface()
			switch s.N(3) {
			case 0:
				st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint8(0))}, {Name: "M", Type: m.Type()}})).Elem()
				st.Field(1).Set(m)
				v = st.Interface()
			case 1:
				p := reflect.New(m.Type())
				p.Elem().Set(m)
				v = p.Interface()
			}
			S.Case(m.Len() > 1, func() string { return fmt.Sprintf("%s | %T with %d entries %d", e, v, m.Len(), s.N(1000)) })
			S.Class("odd map keys: " + k.t.String())
			var err error
			if msg := catch(func() { _, err = e.Marshal(v) }); msg != "" {
				t.Fatalf("%s: encoding a %T with %d entries panicked: %s", e, v, m.Len(), msg)
			}
			if k.bad && err == nil {
				t.Fatalf("%s: a %T with %d entries was encoded without an error", e, v, m.Len())
			}
			if msg := catch(func() { _, err = e.ByteCount(v) }); msg != "" {
				t.Fatalf("%s: counting a %T with %d entries panicked: %s", e, v, m.Len(), msg)
			}
			if k.bad && err == nil {
				t.Fatalf("%s: a %T with %d entries was counted without an error", e, v, m.Len())
			}
		})
	})
	t.Run("targets", func(t *testing.T) {
		check(t, 20, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			ty := GenTy(s, TyCfg{E: e, Depth: 2})
			v := GenVal(&VCtx{E: e, S: s}, ty)
			b, err := RefEncode(e, ty, v)
			if err != nil {
				t.Fatalf("harness: %v", err)
			}
			target := v.Interface()
			kind := "value"
			if v.Kind() == reflect.Ptr {
				if v.IsNil() {
					kind = "nil pointer"
				} else {
					target = v.Elem().Interface()
					if v.Elem().Kind() == reflect.Ptr {
						return
					}
				}
			}
			switch s.N(3) {
			case 0:
				target, kind = reflect.Zero(reflect.PointerTo(ty.RT())).Interface(), "nil pointer"
			case 1:
				if s.N(3) == 0 {
					target, kind = nil, "nil"
				}
			}
			S.Case(true, func() string { return fmt.Sprintf("%s | %s %s | %s", e, kind, ty, hexs(b)) })
			S.Class("target: " + kind)
			dec := e.NewDecoder(b)
			if msg := catch(func() { err = dec.Decode(target) }); msg != "" {
				t.Fatalf("%s: Decode(%s %T) panicked: %s", e, kind, target, msg)
			}
			var ide *bin.InvalidDecoderError
			if !errors.As(err, &ide) {
				t.Fatalf("%s: Decode(%s %T) returned %v, want an InvalidDecoderError", e, kind, target, err)
			}
			if ide.Type != reflect.TypeOf(target) {
				t.Fatalf("%s: Decode(%s %T): the error names type %v", e, kind, target, ide.Type)
			}
			if msg := ide.Error(); msg == "" {
				t.Fatalf("empty error message")
			}
			if dec.Position() != 0 {
				t.Fatalf("%s: Decode(%s %T) moved the cursor to %d", e, kind, target, dec.Position())
			}
			if msg := catch(func() { err = e.Unmarshal(target, b) }); msg != "" || err == nil {
				t.Fatalf("%s: Unmarshal into %s %T: %v %s", e, kind, target, err, msg)
			}
		})
	})
}

// fillKey gives a key of any kind a value.
func fillKey(s Src, v reflect.Value) {
	switch v.Kind() {
	case reflect.Int, reflect.Int16:
		v.SetInt(int64(int16(GenUint(s, 16))))
	case reflect.Uint, reflect.Uint16, reflect.Uint64, reflect.Uintptr:
		v.SetUint(GenUint(s, 16))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(s.N(100)), 1))
	case reflect.Chan:
		v.Set(reflect.MakeChan(v.Type(), 0))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fillKey(s, v.Elem())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillKey(s, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && v.Field(i).Kind() != reflect.Interface {
				fillKey(s, v.Field(i))
			}
		}
	}
}

// fillAny makes a value of a wrapped type that contains unsupported leaves.
func fillAny(s Src, e Enc, ty *Ty) reflect.Value { return GenVal(&VCtx{E: e, S: s}, ty) }
