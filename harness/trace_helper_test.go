package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	bin "github.com/gagliardetto/binary"
	"github.com/streamingfast/logging"
	"pgregory.net/rapid"
)

// recorder passes choices on and remembers them; tape replays them.
type recorder struct {
	s    Src
	tape []uint64
}

func (r *recorder) N(n int) int {
	x := r.s.N(n)
	r.tape = append(r.tape, uint64(x))
	return x
}

func (r *recorder) U64() uint64 {
	x := r.s.U64()
	r.tape = append(r.tape, x)
	return x
}

type tape struct {
	t []uint64
	i int
}

func (t *tape) next() uint64 {
	if t.i >= len(t.t) {
		panic("harness: the tape is too short")
	}
	t.i++
	return t.t[t.i-1]
}
func (t *tape) N(n int) int { return int(t.next()) }
func (t *tape) U64() uint64 { return t.next() }

// traceJob runs one generated job and describes all that the caller of the
// library can observe, apart from error texts and map order.
func traceJob(s Src) (title string, out []string) {
	e := AllEncs[s.N(3)]
	add := func(f string, a ...interface{}) { out = append(out, fmt.Sprintf(f, a...)) }
	failed := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	switch s.N(11) {
	case 0, 1:
		ty := GenTy(s, TyCfg{E: e, Depth: 3})
		v := GenVal(&VCtx{E: e, S: s, FillSkipped: true}, ty)
		in := v.Interface()
		if s.N(2) == 1 || needsAddr(ty) {
			in = v.Addr().Interface()
		}
		var b []byte
		var err error
		var n int
		msg := catch(func() { b, n, err = e.EncodeVia(in) })
		title = fmt.Sprintf("%s | encode and decode %s | %s", e, ty, firstN(dump(v), 200))
		shown := b
		if e != Borsh {
			shown = sortedBytes(b)
		}
		add("Encode: %s%s %x, %d written", failed(err), msg, shown, n)
		var cnt uint64
		msg = catch(func() { cnt, err = e.ByteCount(in) })
		add("ByteCount: %s%s %d", failed(err), msg, cnt)
		dst := reflect.New(ty.RT())
		if s.N(3) == 0 { // used
			dst.Elem().Set(GenVal(&VCtx{E: e, S: s, FillSkipped: true}, ty))
		}
		dec := e.NewDecoder(b)
		msg = catch(func() { err = dec.Decode(dst.Interface()) })
		add("Decode: %s%s at %d: %s", failed(err), msg, dec.Position(), dump(dst))
	case 2, 3:
		ty := GenTy(s, TyCfg{E: e, Depth: 3})
		b, how := genInput(s, e, ty)
		title = fmt.Sprintf("%s | decode (%s) %s | %x", e, how, ty, b)
		dst := reflect.New(ty.RT())
		dec := e.NewDecoder(b)
		var err error
		if s.N(3) == 0 { // used
			dst.Elem().Set(GenVal(&VCtx{E: e, S: s, FillSkipped: true}, ty))
		}
		msg := catch(func() { err = dec.Decode(dst.Interface()) })
		add("Decode: %s%s at %d, %d remain", failed(err), msg, dec.Position(), dec.Remaining())
		if err == nil && msg == "" {
			add("value %s", dump(dst))
		}
	case 4:
		var buf bytes.Buffer
		enc := e.NewEncoder(&buf)
		var names []string
		for i := 1 + s.N(10); i > 0; i-- {
			op := genWrite(s, e)
			names = append(names, op.name)
			var err error
			msg := catch(func() { err = op.lib(enc) })
			add("%s: %s%s, %d written", op.name, failed(err), msg, enc.Written())
		}
		add("output %x", buf.Bytes())
		title = fmt.Sprintf("%s | writes %s", e, strings.Join(names, " "))
	case 5: // variants
		ie := s.N(len(idEncs))
		g := newTyGen(s, TyCfg{E: e, NoNilQuirk: true, Depth: 2, MaxFields: 4})
		n := 1 + s.N(4)
		if idEncs[ie] == bin.NoTypeIDEncoding {
			n = 1
		}
		var tys []*Ty
		var defs []bin.VariantType
		for i := 0; i < n; i++ {
			ty := g.pointee(2, false)
			v := reflect.Zero(ty.RT()).Interface()
			if needsAddr(ty) || s.N(2) == 0 {
				v = reflect.New(ty.RT()).Interface()
			}
			tys = append(tys, ty)
			defs = append(defs, bin.VariantType{Name: fmt.Sprintf("v%d", i), Type: v})
		}
		def := bin.NewVariantDefinition(idEncs[ie], defs)
		var stream []byte
		for k := 1 + s.N(3); k > 0; k-- {
			i := s.N(n)
			b, _ := RefEncode(e, tys[i], GenVal(&VCtx{E: e, S: s}, tys[i]))
			_, idb := refID(idEncs[ie], i, defs[i].Name)
			stream = append(append(stream, idb...), b...)
		}
		switch {
		case s.N(3) == 0 && len(stream) > 0:
			stream = stream[:s.N(len(stream))]
		case s.N(4) == 0 && len(stream) > 0:
			stream[s.N(len(stream))] ^= byte(1 + s.N(255))
		}
		title = fmt.Sprintf("%s | variants, %s ids | %x", e, idEncNames[ie], firstN(string(stream), 200))
		dec := e.NewDecoder(stream)
		var bv bin.BaseVariant
		for k := 0; k < 5; k++ {
			var err error
			msg := catch(func() { err = bv.UnmarshalBinaryVariant(dec, def) })
			add("variant: %s%s at %d", failed(err), msg, dec.Position())
			if err != nil || msg != "" {
				break
			}
			id, name, impl := bv.Obtain(def)
			add("%x %s %T %s", id, name, impl, dump(reflect.ValueOf(impl)))
		}
	case 6: // several values through one encoder, with a writer that fails, and one decoder
		cfg := TyCfg{E: e, Depth: 2, NoMap: e != Borsh} // the order of map entries is open
		fw := &faultWriter{failAt: -1, budget: -1}
		if s.N(2) == 0 {
			fw.failAt, fw.part = s.N(8), s.N(4)
		}
		fw.err = errInjected
		enc := e.NewEncoder(fw)
		var tys []*Ty
		var buf bytes.Buffer
		clean := e.NewEncoder(&buf)
		for k := 1 + s.N(4); k > 0; k-- {
			ty := GenTy(s, cfg)
			v := GenVal(&VCtx{E: e, S: s, FillSkipped: true}, ty)
			var err error
			msg := catch(func() { err = enc.Encode(v.Addr().Interface()) })
			add("Encode: %s%s, %d written", failed(err), msg, enc.Written())
			catch(func() { err = clean.Encode(v.Addr().Interface()) })
			tys = append(tys, ty)
		}
		add("output %x", fw.got)
		dec := e.NewDecoder(buf.Bytes())
		title = fmt.Sprintf("%s | sequence of %d values | %x", e, len(tys), firstN(buf.String(), 200))
		for _, ty := range tys {
			dst := reflect.New(ty.RT())
			var err error
			msg := catch(func() { err = dec.Decode(dst.Interface()) })
			add("Decode: %s%s at %d: %s", failed(err), msg, dec.Position(), dump(dst))
		}
	case 7: // values and targets that there is nothing to do with
		ch := make(chan int)
		var nilIface interface{}
		var nilErr error
		vals := []struct {
			name string
			v    interface{}
		}{
			{"nil", nil}, {"nil *uint8", (*uint8)(nil)}, {"nil *string", (*string)(nil)}, {"nil *struct", (*struct{ A, B uint16 })(nil)},
			{"nil **uint8", (**uint8)(nil)}, {"nil []byte", []byte(nil)}, {"nil []string", []string(nil)}, {"nil map", map[uint8]uint8(nil)},
			{"*interface{} of nil", &nilIface}, {"*error of nil", &nilErr}, {"nil *Uint128", (*bin.Uint128)(nil)}, {"nil *HexBytes", (*bin.HexBytes)(nil)},
			{"chan", ch}, {"func", func() {}}, {"complex", complex(1, 2)}, {"uintptr", uintptr(3)}, {"int", 5}, {"uint", uint(5)},
			{"struct of nil", struct {
				A uint8
				B interface{}
				C *uint16
				D []interface{}
			}{A: 1}},
			{"struct of an interface", struct {
				A uint8
				B interface{}
			}{A: 1, B: uint16(7)}},
			{"[]interface{}", []interface{}{nil, uint8(1), nil}}, {"[]*uint16", []*uint16{nil}}, {"map of interfaces", map[uint8]interface{}{1: nil}},
			{"[2]interface{}", [2]interface{}{}}, {"empty struct", struct{}{}}, {"pointer to an empty struct", &struct{}{}},
			{"struct of a func", struct {
				A uint8
				F func()
			}{A: 1}}, {"struct of a nil embedded pointer", struct{ *bin.Uint128 }{}},
			{"unexported fields", struct{ a, b uint8 }{1, 2}},
		}
		var names []string
		for k := 1 + s.N(4); k > 0; k-- {
			x := vals[s.N(len(vals))]
			names = append(names, x.name)
			var b []byte
			var n int
			var cnt uint64
			var err error
			msg := catch(func() { b, n, err = e.EncodeVia(x.v) })
			add("Encode %s: %s%s %x, %d written", x.name, failed(err), msg, b, n)
			msg = catch(func() { cnt, err = e.ByteCount(x.v) })
			add("ByteCount %s: %s%s %d", x.name, failed(err), msg, cnt)
			data := []byte{1, 2, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0}[s.N(3):]
			dec := e.NewDecoder(data)
			dst := x.v
			if s.N(2) == 0 && x.v != nil { // a fresh target of its type
				dst = reflect.New(reflect.TypeOf(x.v)).Interface()
			}
			msg = catch(func() { err = dec.Decode(dst) })
			add("Decode %s: %s%s at %d", x.name, failed(err), msg, dec.Position())
		}
		title = fmt.Sprintf("%s | odd values: %s", e, strings.Join(names, ", "))
	default:
		data := genBuf(s)
		dec := e.NewDecoder(data)
		var names []string
		for i := 1 + s.N(10); i > 0; i-- {
			op := allReadOps[s.N(len(allReadOps))]
			names = append(names, op.name)
			var v string
			var err error
			msg := catch(func() { v, err = op.lib(dec) })
			if err != nil {
				v = ""
			}
			add("%s: %s%s %q at %d", op.name, failed(err), msg, v, dec.Position())
		}
		title = fmt.Sprintf("%s | reads %s | %x", e, strings.Join(names, " "), data)
	}
	return title, out
}

type traceReply struct {
	Out   []string
	Panic string
}

// enableTracing is set in builds with the veriftrace tag (and overlay): the
// package samples its tracer before any application can turn it on, so the
// logging configuration alone does not reach the tracing code.
var enableTracing func()

// traceHelperMain is the child: it runs with tracing on and replays tapes.
func traceHelperMain() {
	// console loggers, at the level that TRACE asks for, without the
	// production detector and its level-switching web server
	logging.InstantiateLoggers(logging.WithProductionDetector(func() bool { return false }), logging.WithConsoleToStderr())
	if enableTracing != nil {
		enableTracing()
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := json.NewEncoder(os.Stdout)
	for {
		var tp []uint64
		if err := in.Decode(&tp); err != nil {
			if err == io.EOF {
				os.Exit(0)
			}
			fmt.Fprintln(os.Stderr, "helper:", err)
			os.Exit(3)
		}
		var r traceReply
		r.Panic = catch(func() { _, r.Out = traceJob(&tape{t: tp}) })
		if err := out.Encode(r); err != nil {
			os.Exit(3)
		}
	}
}

// tracer is the parent's end.
type tracer struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	pipe io.WriteCloser
	out  *json.Decoder
	logs atomic.Int64
	mu   sync.Mutex
	tail []byte
}

func (tr *tracer) Write(b []byte) (int, error) {
	tr.logs.Add(int64(len(b)))
	tr.mu.Lock()
	tr.tail = append(tr.tail, b...)
	if len(tr.tail) > 1<<16 {
		tr.tail = append([]byte(nil), tr.tail[len(tr.tail)-4096:]...)
	}
	tr.mu.Unlock()
	return len(b), nil
}

func (tr *tracer) lastWords() string {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	s := string(tr.tail)
	if i := strings.LastIndex(s, "fatal error"); i >= 0 {
		s = s[i:]
	} else if i := strings.LastIndex(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func startTracer() (*tracer, error) {
	tr := &tracer{cmd: exec.Command(os.Args[0])}
	for _, kv := range os.Environ() {
		switch k, _, _ := strings.Cut(kv, "="); k {
		case "DEBUG", "INFO", "TRACE", "DLOG", "VERIF_STATS":
		default:
			tr.cmd.Env = append(tr.cmd.Env, kv)
		}
	}
	tr.cmd.Env = append(tr.cmd.Env, "VERIF_HELPER=trace", "TRACE=.*")
	tr.cmd.Stderr = tr
	in, err := tr.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := tr.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := tr.cmd.Start(); err != nil {
		return nil, err
	}
	tr.pipe, tr.in, tr.out = in, json.NewEncoder(in), json.NewDecoder(bufio.NewReader(out))
	return tr, nil
}

func (tr *tracer) stop() {
	tr.pipe.Close()
	done := make(chan struct{})
	go func() { tr.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		tr.cmd.Process.Kill()
		<-done
	}
}

// TestC29: with tracing on, everything observable is the same.
func TestC29(t *testing.T) {
	if os.Getenv("TRACE") != "" {
		t.Fatal("harness: TRACE must not be set for the parent")
	}
	var tr *tracer
	defer func() {
		if tr != nil {
			tr.stop()
		}
	}()
	check(t, 100, func(t *rapid.T) {
		if tr == nil {
			var err error
			if tr, err = startTracer(); err != nil {
				panic("harness: cannot start the traced process: " + err.Error())
			}
		}
		rec := &recorder{s: RS{t}}
		title, want := traceJob(rec)
		t.Logf("%s", title)
		S.Case(len(want) > 0 && len(rec.tape) > 3, func() string { return title })
		before := tr.logs.Load()
		var got traceReply
		err := tr.in.Encode(rec.tape)
		if err == nil {
			err = tr.out.Decode(&got)
		}
		if err != nil {
			tr.stop()
			words := tr.lastWords()
			tr = nil
			t.Fatalf("with tracing enabled the process died: %s\n%s", title, words)
		}
		if got.Panic != "" {
			t.Fatalf("with tracing enabled: %s: %s", got.Panic, title)
		}
		if strings.Join(want, "\n") != strings.Join(got.Out, "\n") {
			for i := range want {
				g := "(nothing)"
				if i < len(got.Out) {
					g = got.Out[i]
				}
				if want[i] != g {
					t.Fatalf("tracing changes the result: %s\nwithout %s\nwith    %s", title, want[i], g)
				}
			}
			t.Fatalf("tracing changes the result: %s\nwithout %q\nwith %q", title, want, got.Out)
		}
		S.ClassIf(tr.logs.Load() > before, "trace output seen during the job")
		S.Class("job: " + strings.SplitN(strings.SplitN(title, " | ", 3)[1], " ", 2)[0])
	})
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
