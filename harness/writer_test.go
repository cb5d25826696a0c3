package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

var errInjected = errors.New("injected write failure")

// writeErrs are the results of a failing write; nil is a write cut short
// without an error.
var writeErrs = []error{nil, errInjected, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), os.ErrDeadlineExceeded}

// faultWriter accepts writes until the failAt-th (counted from 0) or until the
// byte budget is used up; that write fails after taking part bytes of it.
// Afterwards it accepts everything again, so that an encoder that goes on
// writing after a failure leaves a trace.
type faultWriter struct {
	got    []byte
	n      int
	failAt int // write index, -1: off
	budget int // bytes, -1: off
	part   int // how much of the failing write is accepted
	failed bool
	always bool
	calls  []int
	err    error // what the failing write returns; nil: a short write without error
	full   bool  // the failing write takes everything and still fails
}

func (f *faultWriter) Write(b []byte) (int, error) {
	i := f.n
	f.n++
	f.calls = append(f.calls, len(b))
	if f.failed && f.always {
		return 0, errInjected
	}
	if !f.failed {
		if i == f.failAt {
			f.failed = true
			k := min(f.part, len(b))
			if k == len(b) && k > 0 {
				k--
			}
			if f.full {
				k = len(b)
			}
			f.got = append(f.got, b[:k]...)
			return k, f.err
		}
		if f.budget >= 0 && len(f.got)+len(b) > f.budget {
			f.failed = true
			k := f.budget - len(f.got)
			f.got = append(f.got, b[:k]...)
			return k, f.err
		}
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

func TestC12(t *testing.T) {
	t.Run("values", func(t *testing.T) {
		check(t, 60, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			ty := GenTy(s, TyCfg{E: e, Depth: 3, NoMap: e != Borsh && s.N(3) > 0})
			v := GenVal(&VCtx{E: e, S: s}, ty)
			in := arg(s, ty, v)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			rec := &faultWriter{failAt: -1, budget: -1}
			if err := e.NewEncoder(rec).Encode(in); err != nil {
				t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
			}
			full := rec.got
			ordered := e == Borsh || !hasMap(ty)
			S.Case(len(full) > 1 && rec.n > 1, func() string { return caseKey(e, ty, full) })
			runFaults(t, s, e.String()+": "+ty.String(), full, rec.calls, ordered, func(w *faultWriter) (int, error) {
				enc := e.NewEncoder(w)
				err := enc.Encode(in)
				return enc.Written(), err
			})
		})
	})
	t.Run("primitives", func(t *testing.T) {
		check(t, 40, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			op := genWrite(s, e)
			t.Logf("%s: %s", e, op.name)
			rec := &faultWriter{failAt: -1, budget: -1}
			if err := op.lib(e.NewEncoder(rec)); err != nil {
				return // refused values are C11's business
			}
			S.Case(len(rec.got) > 1, func() string { return e.String() + " | " + op.name })
			runFaults(t, s, e.String()+": "+op.name, rec.got, rec.calls, true, func(w *faultWriter) (int, error) {
				enc := e.NewEncoder(w)
				err := op.lib(enc)
				return enc.Written(), err
			})
		})
	})
}

// runFaults fails every write, and every byte, once (a sample when there are
// many).
func runFaults(t tb, s Src, what string, full []byte, calls []int, ordered bool, run func(*faultWriter) (int, error)) {
	try := func(w *faultWriter, how string) {
		written, err := run(w)
		S.Class("injected fault")
		if !w.failed {
			if len(full) > 0 && ordered {
				t.Fatalf("%s: %s: the fault was not reached", what, how)
			}
			return
		}
		if err == nil {
			t.Fatalf("%s: %s: the write failed but the call reported success\ncomplete output %s\naccepted %s", what, how, hexs(full), hexs(w.got))
		}
		if written != len(w.got) {
			t.Fatalf("%s: %s: Written() is %d, the writer accepted %d bytes", what, how, written, len(w.got))
		}
		if len(w.got) > len(full) || (ordered && !bytes.HasPrefix(full, w.got)) {
			t.Fatalf("%s: %s: the bytes accepted are not a prefix of the encoding\nencoding %s\naccepted %s", what, how, hexs(full), hexs(w.got))
		}
	}
	nonEmpty := func() []int {
		var ix []int
		for i, n := range calls {
			if n > 0 {
				ix = append(ix, i)
			}
		}
		return ix
	}()
	if len(nonEmpty) > 25 {
		p := &PR{X: s.U64()}
		keep := append([]int(nil), nonEmpty[:5]...)
		keep = append(keep, nonEmpty[len(nonEmpty)-5:]...)
		for i := 0; i < 15; i++ {
			keep = append(keep, nonEmpty[p.N(len(nonEmpty))])
		}
		nonEmpty = keep
	}
	for _, i := range nonEmpty {
		n := calls[i]
		parts := []int{0}
		if n > 1 && ordered {
			parts = append(parts, 1, n-1)
		}
		for _, p := range parts {
			for _, always := range []bool{false, true} {
				w := &faultWriter{failAt: i, budget: -1, part: p, always: always, err: writeErrs[s.N(len(writeErrs))]}
				try(w, fmt.Sprintf("write %d of %d fails after %d of %d bytes (%v)", i, len(calls), p, n, w.err))
			}
		}
		w := &faultWriter{failAt: i, budget: -1, always: i%2 == 0, err: writeErrs[1+s.N(len(writeErrs)-1)], full: true}
		try(w, fmt.Sprintf("write %d of %d takes all %d bytes and fails (%v)", i, len(calls), n, w.err))
	}
	// a writer with limited room
	var rooms []int
	for b := 0; b < len(full); b++ {
		if len(full) <= 60 || b < 10 || b > len(full)-10 || b%97 == 0 && b < 2000 {
			rooms = append(rooms, b)
		}
	}
	for _, b := range rooms {
		try(&faultWriter{failAt: -1, budget: b, always: b%2 == 0, err: writeErrs[b%len(writeErrs)]}, fmt.Sprintf("room for %d of %d bytes", b, len(full)))
	}
}

// TestC13: sizes and entry points agree.
func TestC13(t *testing.T) {
	t.Run("good", func(t *testing.T) {
		check(t, 85, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			ty := GenTy(s, TyCfg{E: e, OrderedBig: true})
			v := GenVal(NewVCtx(s, e), ty)
			in := arg(s, ty, v)
			t.Logf("%s: %s: %s", e, ty, lazy{v})
			b, err := e.Marshal(in)
			if err != nil {
				t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
			}
			classify(ty, b)
			S.Case(isComposite(ty) && len(b) > 1, func() string { return caseKey(e, ty, b) })
			same := func(what string, x []byte) {
				if len(x) != len(b) || ((e == Borsh || !hasMap(ty)) && !bytes.Equal(x, b)) {
					t.Fatalf("%s: %s: Marshal gives %d bytes\n%s\n%s gives %d\n%s", e, ty, len(b), hexs(b), what, len(x), hexs(x))
				}
			}
			size := func(what string, n int, err error) {
				if err != nil || n != len(b) {
					t.Fatalf("%s: %s: Marshal gives %d bytes, %s says %d (%v)", e, ty, len(b), what, n, err)
				}
			}
			n, err := e.ByteCount(in)
			size("ByteCount", int(n), err)
			msg := catch(func() { n = e.MustByteCount(in) })
			if msg != "" {
				t.Fatalf("%s: %s: MustByteCount panicked: %s", e, ty, msg)
			}
			size("MustByteCount", int(n), nil)
			x, wr, err := e.EncodeVia(in)
			size("Encoder.Written", wr, err)
			same("the encoder", x)
			var buf bytes.Buffer
			enc := bin.NewEncoderWithEncoding(&buf, e.Lib())
			if err := enc.Encode(in); err != nil {
				t.Fatalf("%s: NewEncoderWithEncoding: %v", e, err)
			}
			same("NewEncoderWithEncoding", buf.Bytes())
			size("Written of NewEncoderWithEncoding", enc.Written(), nil)
			if enc.IsBin() != (e == Bin) || enc.IsBorsh() != (e == Borsh) || enc.IsCompactU16() != (e == Compact) {
				t.Fatalf("%s: the encoder reports the wrong encoding", e)
			}
			wbw := bin.NewWriteByWrite("x")
			if err := e.NewEncoder(wbw).Encode(in); err != nil {
				t.Fatalf("%s: WriteByWrite: %v", e, err)
			}
			same("WriteByWrite", wbw.Bytes())
			// a second value on the same encoder: Written accumulates
			if err := enc.Encode(in); err != nil {
				t.Fatalf("%s: second Encode: %v", e, err)
			}
			if enc.Written() != 2*len(b) || buf.Len() != 2*len(b) {
				t.Fatalf("%s: %s: two encodings of %d bytes: Written() is %d, output %d", e, ty, len(b), enc.Written(), buf.Len())
			}
			// decoding entry points
			decs := []struct {
				name string
				fn   func(v interface{}) error
			}{
				{"Unmarshal", func(v interface{}) error { return e.Unmarshal(v, b) }},
				{"NewDecoderWithEncoding", func(v interface{}) error { return bin.NewDecoderWithEncoding(b, e.Lib()).Decode(v) }},
				{"NewDecoder", func(v interface{}) error { return e.NewDecoder(b).Decode(v) }},
				{"SetEncoding", func(v interface{}) error {
					d := AllEncs[(int(e)+1)%3].NewDecoder(b)
					d.SetEncoding(e.Lib())
					return d.Decode(v)
				}},
			}
			for _, d := range decs {
				dst := reflect.New(ty.RT())
				if err := d.fn(dst.Interface()); err != nil {
					t.Fatalf("%s: %s: %s failed: %v\nbytes %s", e, ty, d.name, err, hexs(b))
				}
				if df := Diff(e, ty, v, dst.Elem()); df != "" {
					t.Fatalf("%s: %s: %s", e, d.name, df)
				}
			}
		})
	})
	t.Run("bad", func(t *testing.T) {
		check(t, 15, func(t *rapid.T) {
			s := RS{t}
			e := AllEncs[s.N(3)]
			leaf := unsupportedTy(s)
			var ty *Ty
			var v reflect.Value
			if s.N(3) == 0 { // a float that Borsh refuses
				e = Borsh
				leaf = Prim([]K{KF32, KF64}[s.N(2)])
				if s.N(4) == 0 {
					leaf = CustomTy(CustomByName["bin.JSONFloat64"])
				}
				v = reflect.New(leaf.RT()).Elem()
				v.SetFloat(math.NaN())
				S.Class("NaN in Borsh")
				k := s.N(4)
				if s.N(2) == 0 { // among others
					n := 1 + s.N(4)
					sl := reflect.MakeSlice(reflect.SliceOf(leaf.RT()), n, n)
					sl.Index(s.N(n)).Set(v)
					leaf, v, k = SliceTy(leaf), addr(sl), s.N(2)
				}
				ty, v = NewWrapper(s, e).Nest(k, leaf, v)
			} else {
				ty, v = NewWrapper(s, e).Nest(s.N(4), leaf, addr(leaf.C.Gen(s, e)))
			}
			if chance(s, 1, 3) { // something goes before it
				pt := GenTy(s, TyCfg{E: e, Depth: 2, NoNilQuirk: true, NoMap: true})
				pv := GenVal(NewVCtx(s, e), pt)
				if chance(s, 1, 3) {
					pt = SliceTy(Prim(KU8))
					pv = addr(reflect.ValueOf(make([]byte, []int{100, 255, 256, 4095, 4096, 65533, 65535}[s.N(7)])))
				}
				st := StructTy(&Fld{Name: "Pre", Ty: pt}, &Fld{Name: "Pre2", Ty: pt}, &Fld{Name: "Bad", Ty: ty})
				sv := reflect.New(st.RT()).Elem()
				sv.Field(0).Set(pv)
				sv.Field(1).Set(pv)
				sv.Field(2).Set(v)
				ty, v = st, sv
			}
			t.Logf("%s: %s", e, ty)
			S.Case(true, func() string { return fmt.Sprintf("%s | %s", e, ty) })
			S.Class("value that cannot be encoded")
			in := v.Interface()
			_, err1 := e.Marshal(in)
			n, err2 := e.ByteCount(in)
			_, _, err3 := e.EncodeVia(in)
			msg := catch(func() { e.MustByteCount(in) })
			if err1 == nil || err2 == nil || err3 == nil || msg == "" {
				t.Fatalf("%s: %s cannot be encoded: Marshal says %v, ByteCount %d, %v, Encode %v, MustByteCount %q", e, ty, err1, n, err2, err3, msg)
			}
		})
	})
}
