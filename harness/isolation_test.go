package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// dumper writes a complete, deterministic description of a value: it follows
// pointers, sorts maps and looks at unexported fields.
type dumper struct {
	sb strings.Builder
	// bytesLenOnly shows byte slices by length only (they may share memory
	// with the decoded input).
	bytesLenOnly bool
}

func dump(v reflect.Value) string {
	d := &dumper{}
	d.val(v, 0)
	return d.sb.String()
}

func dumpNoBytes(v reflect.Value) string {
	d := &dumper{bytesLenOnly: true}
	d.val(v, 0)
	return d.sb.String()
}

func (d *dumper) val(v reflect.Value, depth int) {
	if !v.IsValid() {
		d.sb.WriteString("<none>")
		return
	}
	if depth > 200 {
		d.sb.WriteString("<deep>")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(&d.sb, "%v", v.Bool())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		fmt.Fprintf(&d.sb, "%d", v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		fmt.Fprintf(&d.sb, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		d.sb.WriteString(f64s(v.Float()))
	case reflect.String:
		fmt.Fprintf(&d.sb, "%q", v.String())
	case reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
		} else {
			fmt.Fprintf(&d.sb, "%s:", v.Elem().Type())
			d.val(v.Elem(), depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() {
			d.sb.WriteString("nil")
		} else {
			d.sb.WriteByte('&')
			d.val(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			d.sb.WriteString("nil[]")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 && d.bytesLenOnly {
			fmt.Fprintf(&d.sb, "[%d bytes]", v.Len())
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(&d.sb, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i), depth+1)
			d.sb.WriteByte(' ')
		}
		d.sb.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			d.sb.WriteString("nilmap")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			x := &dumper{bytesLenOnly: d.bytesLenOnly}
			x.val(k, depth+1)
			x.sb.WriteByte(':')
			x.val(v.MapIndex(k), depth+1)
			es = append(es, x.sb.String())
		}
		sort.Strings(es)
		fmt.Fprintf(&d.sb, "map{%s}", strings.Join(es, ", "))
	case reflect.Struct:
		d.sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.sb.WriteString(v.Type().Field(i).Name + ":")
			d.val(v.Field(i), depth+1)
			d.sb.WriteByte(' ')
		}
		d.sb.WriteByte('}')
	default:
		fmt.Fprintf(&d.sb, "<%s>", v.Kind())
	}
}

// scribble overwrites everything reachable from a decoded value that belongs
// to it. Byte slices may share memory with the input, so they are only
// appended to (and the result is dropped), which must never reach memory that
// the slice does not own.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(12345)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
		}
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice:
		if !v.CanInterface() {
			return
		}
		reflect.AppendSlice(v, reflect.MakeSlice(v.Type(), 16, 16))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < 16; i++ { // ... also one at a time
				x := reflect.New(v.Type().Elem()).Elem()
				x.SetUint(0xEE)
				reflect.Append(v, x)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() || !v.CanInterface() {
			return
		}
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k)) // through pointers and slices
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i))
			}
		}
	}
}

// held is a slice or map that the user took out of a decoded value.
type held struct {
	v    reflect.Value
	was  string
	path string
}

func collect(v reflect.Value, path string, out *[]held) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			collect(v.Elem(), path, out)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanInterface() {
			return
		}
		h := reflect.ValueOf(v.Interface()) // a copy of the header
		*out = append(*out, held{h, dump(h), path})
		for i := 0; i < v.Len() && i < 4; i++ {
			collect(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			collect(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if v.IsNil() || !v.CanInterface() {
			return
		}
		h := reflect.ValueOf(v.Interface())
		*out = append(*out, held{h, dump(h), path})
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				collect(v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

// roomy gives the slices of v room behind them and notes what is there.
func roomy(v reflect.Value, path string, out *[]held) {
	if len(*out) > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			roomy(v.Elem(), path, out)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() || v.Len() > 1000 {
			return
		}
		for i := 0; i < v.Len() && i < 4; i++ {
			roomy(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
		full := reflect.MakeSlice(v.Type(), v.Len()+12, v.Len()+12)
		reflect.Copy(full, v)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := v.Len(); i < full.Len(); i++ {
				full.Index(i).SetUint(0xC3)
			}
		}
		v.Set(full.Slice(0, v.Len()))
		*out = append(*out, held{full, dump(full), path})
	case reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			roomy(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				roomy(v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

// hollow empties some of the maps and slices of v, leaving the memory behind
// them, and notes what they were.
func hollow(s Src, v reflect.Value, path string, out *[]held) {
	if len(*out) > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			hollow(s, v.Elem(), path, out)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		h := reflect.ValueOf(v.Interface())
		*out = append(*out, held{h, "", path})
		switch {
		case s.N(2) == 0:
			v.Set(v.Slice(0, v.Len()/2))
		case v.Len() < 4:
			for i := 0; i < v.Len(); i++ {
				hollow(s, v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 4; i++ {
			hollow(s, v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if !v.CanSet() {
			return
		}
		if s.N(3) > 0 {
			v.Set(reflect.MakeMap(v.Type()))
		}
		if !v.IsNil() {
			h := reflect.ValueOf(v.Interface())
			*out = append(*out, held{h, "", path})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				hollow(s, v.Field(i), path+"."+f.Name, out)
			}
		}
	}
}

func sortedBytes(b []byte) []byte {
	x := append([]byte(nil), b...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}

// sameEnc compares two encodings of one value; only the order of map entries
// outside Borsh is free.
func sameEnc(e Enc, ty *Ty, a, b []byte) bool {
	if e != Borsh {
		hasMap := false
		ty.Walk(func(x *Ty) { hasMap = hasMap || x.K == KMap })
		if hasMap {
			return bytes.Equal(sortedBytes(a), sortedBytes(b))
		}
	}
	return bytes.Equal(a, b)
}

// TestC30: encoding leaves the value alone, decoding leaves the input alone,
// and results share no memory that would let one change another.
func TestC30(t *testing.T) {
	check(t, 85, isolationProp)
	check(t, 15, func(t *rapid.T) {
		// byte slices handed out by the primitive reads
		s := RS{t}
		e := AllEncs[s.N(3)]
		w := &W{E: e}
		body := []byte(GenString(s, 1+s.N(20)))
		w.LenBytes(body)
		w.Raw([]byte(GenString(s, 8+s.N(20))))
		in := append(make([]byte, 0, len(w.B)+32), w.B...)
		spare := in[len(in):cap(in)]
		dec := e.NewDecoder(in)
		var got []byte
		var err error
		n := 1 + s.N(len(body))
		name := ""
		switch s.N(4) {
		case 0:
			name = "ReadByteSlice"
			got, err = dec.ReadByteSlice()
		case 1:
			name = "ReadNBytes"
			got, err = dec.ReadNBytes(n)
		case 2:
			name = "ReadBytes"
			got, err = dec.ReadBytes(n)
		default:
			name = "Peek"
			got, err = dec.Peek(n)
		}
		S.Case(true, func() string { return fmt.Sprintf("%s | append after %s(%d) | %x", e, name, n, w.B) })
		S.Class("append after " + name)
		if err != nil {
			t.Fatalf("%s: %s failed on %x: %v", e, name, w.B, err)
		}
		_ = append(got, "overwrite"...)
		for i := 0; i < 8; i++ {
			_ = append(got, bytes.Repeat([]byte{0xEE}, 1+i*5)...)
		}
		if !bytes.Equal(in, w.B) {
			t.Fatalf("%s: appending to the result of %s changed the decoder's input\nbefore %x\nafter  %x", e, name, w.B, in)
		}
		for _, x := range spare {
			if x != 0 {
				t.Fatalf("%s: appending to the result of %s changed memory behind the decoder's input", e, name)
			}
		}
	})
}

func isolationProp(t *rapid.T) {
	s := RS{t}
	e := AllEncs[s.N(3)]
	ty := GenTy(s, TyCfg{E: e, Depth: 3})
	c := NewVCtx(s, e)
	c.FillUnselected = true
	v := GenVal(c, ty)
	in := v.Interface()
	if s.N(2) == 1 || needsAddr(ty) {
		in = v.Addr().Interface()
	}
	t.Logf("%s: %s: %s", e, ty, lazy{v})
	var behind []held
	if s.N(2) == 0 {
		roomy(v, "v", &behind)
	}

	// encoding
	was := dump(v)
	b1, err := e.Marshal(in)
	if err != nil {
		t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
	}
	if now := dump(v); now != was {
		t.Fatalf("%s: encoding a %s changed it\nbefore %s\nafter  %s", e, ty, clip(was), clip(now))
	}
	if _, err := e.ByteCount(in); err != nil {
		t.Fatalf("%s: ByteCount of a %s failed: %v", e, ty, err)
	}
	if now := dump(v); now != was {
		t.Fatalf("%s: counting the bytes of a %s changed it\nbefore %s\nafter  %s", e, ty, clip(was), clip(now))
	}
	for _, p := range behind {
		if now := dump(p.v); now != p.was {
			t.Fatalf("%s: encoding a %s changed the memory behind %s\nbefore %s\nafter  %s", e, ty, p.path, clip(p.was), clip(now))
		}
	}
	S.ClassIf(len(behind) > 0, "value with spare capacity")
	S.Case(isComposite(ty) && len(b1) > 0, func() string { return caseKey(e, ty, b1) })
	classify(ty, b1)
	orig := append([]byte(nil), b1...)
	v2 := GenVal(&VCtx{E: e, S: s}, ty)
	in2 := v2.Interface()
	if needsAddr(ty) {
		in2 = v2.Addr().Interface()
	}
	b2, err := e.Marshal(in2)
	if err != nil {
		t.Fatalf("%s: encoding a %s failed: %v", e, ty, err)
	}
	enc2 := append([]byte(nil), b2...)
	if !bytes.Equal(b1, orig) {
		t.Fatalf("%s: encoding another %s changed the bytes of the first result", e, ty)
	}
	b3, err := e.Marshal(in)
	if err != nil || !sameEnc(e, ty, b3, orig) {
		t.Fatalf("%s: encoding the same %s again gave %s, first %s (%v)", e, ty, hexs(b3), hexs(orig), err)
	}
	_ = append(b1, 0xEE, 0xEE)
	for i := range b2 {
		b2[i] ^= 0x5A
	}
	for i := range b3 {
		b3[i] ^= 0xA5
	}
	if !bytes.Equal(b1, orig) {
		t.Fatalf("%s: overwriting one encoding changed another (%s)", e, ty)
	}
	for i := range b1 {
		b1[i] ^= 0xFF
	}
	if now := dump(v); now != was {
		t.Fatalf("%s: overwriting the encoding of a %s changed the value\nbefore %s\nafter  %s", e, ty, clip(was), clip(now))
	}

	// decoding
	input := append(make([]byte, 0, len(orig)+64), orig...)
	x1, x2 := reflect.New(ty.RT()), reflect.New(ty.RT())
	for _, x := range []reflect.Value{x1, x2} {
		if err := e.Unmarshal(x.Interface(), input); err != nil {
			t.Fatalf("%s: decoding a %s failed: %v", e, ty, err)
		}
	}
	if !bytes.Equal(input, orig) {
		t.Fatalf("%s: decoding a %s changed its input", e, ty)
	}
	d2 := dump(x2)
	if d1 := dump(x1); d1 != d2 {
		t.Fatalf("%s: decoding a %s twice gave\n%s\nand\n%s", e, ty, clip(d1), clip(d2))
	}
	if d := Diff(e, ty, v, x1.Elem()); d != "" {
		t.Fatalf("%s: decoding a %s: %s\nbytes %s", e, ty, d, hexs(orig))
	}
	scribble(x1)
	if now := dump(x2); now != d2 {
		t.Fatalf("%s: changing one decoded %s changed another\nbefore %s\nafter  %s", e, ty, clip(d2), clip(now))
	}
	if !bytes.Equal(input, orig) {
		t.Fatalf("%s: changing a decoded %s (other than the elements of its byte slices) changed the input\nbefore %s\nafter  %s", e, ty, hexs(orig), hexs(input))
	}

	// several values from one decoder
	stream := append(append(append([]byte(nil), orig...), enc2...), orig...)
	stream = append(stream, 0) // an omitted trailing field needs a byte after it
	sorig := append([]byte(nil), stream...)
	dec, at := e.NewDecoder(stream), 0
	var ys []reflect.Value
	var ds []string
	same := func(what string, skip int) {
		for i, y := range ys {
			if i == skip {
				continue
			}
			if now := dump(y); now != ds[i] {
				t.Fatalf("%s: %s changed the %s decoded by the same decoder as number %d of %d\nbefore %s\nafter  %s", e, what, ty, i+1, len(ys), clip(ds[i]), clip(now))
			}
		}
	}
	for i := 0; i < 3; i++ {
		if s.N(4) == 0 {
			at += int(dec.Position())
			dec.Reset(stream[at:])
		}
		y := reflect.New(ty.RT())
		if err := dec.Decode(y.Interface()); err != nil {
			t.Fatalf("%s: decoding the %d. %s from one decoder failed: %v", e, i+1, ty, err)
		}
		same("decoding the next value", -1)
		ys, ds = append(ys, y), append(ds, dump(y))
		if w := []reflect.Value{v, v2, v}[i]; true {
			if d := Diff(e, ty, w, y.Elem()); d != "" {
				t.Fatalf("%s: the %d. %s from one decoder: %s", e, i+1, ty, d)
			}
		}
	}
	k := s.N(3)
	scribble(ys[k])
	same(fmt.Sprintf("changing the value number %d", k+1), k)
	if string(stream) != string(sorig) {
		t.Fatalf("%s: changing a decoded %s (other than the elements of its byte slices) changed the input", e, ty)
	}
	S.Class("several values from one decoder")

	// appending to the parts of one value changes no other part
	x3 := reflect.New(ty.RT())
	if err := e.Unmarshal(x3.Interface(), input); err != nil {
		t.Fatalf("%s: decoding a %s failed: %v", e, ty, err)
	}
	var parts []held
	collect(x3.Elem(), "v", &parts)
	d3 := dump(x3)
	for _, p := range parts {
		if p.v.Kind() == reflect.Slice {
			reflect.AppendSlice(p.v, reflect.MakeSlice(p.v.Type(), 3, 3))
			if now := dump(x3); now != d3 {
				t.Fatalf("%s: appending to %s of a decoded %s changed another part of it\nbefore %s\nafter  %s", e, p.path, ty, clip(d3), clip(now))
			}
		}
		if len(parts) > 50 {
			break
		}
	}

	// reusing the destination
	fresh := reflect.New(ty.RT())
	if err := e.Unmarshal(fresh.Interface(), enc2); err != nil {
		t.Fatalf("%s: decoding a %s failed: %v", e, ty, err)
	}
	in2b := append([]byte(nil), enc2...)
	if err := e.Unmarshal(x3.Interface(), in2b); err != nil {
		t.Fatalf("%s: decoding a %s into a used variable failed: %v", e, ty, err)
	}
	if d := (&eqOpts{e: e}).diff(ty, fresh.Elem(), x3.Elem(), "v"); d != "" {
		t.Fatalf("%s: decoding a %s into a variable that held another value: %s\nold bytes %s\nnew bytes %s", e, ty, d, hexs(orig), hexs(enc2))
	}
	for _, p := range parts {
		if now := dump(p.v); now != p.was {
			t.Fatalf("%s: %s: what was taken from %s of an earlier decoded value changed when the variable was decoded into again\nbefore %s\nafter  %s", e, ty, p.path, clip(p.was), clip(now))
		}
	}
	S.ClassIf(len(parts) > 0, "kept slices or maps across a reuse of the destination")

	// a destination that was filled by hand, partly with empty maps and with
	// slices that have room
	x4 := reflect.New(ty.RT())
	x4.Elem().Set(GenVal(&VCtx{E: e, S: s, FillUnselected: true}, ty))
	var mine []held
	hollow(s, x4.Elem(), "v", &mine)
	for i := range mine {
		mine[i].was = dump(mine[i].v)
	}
	if err := e.Unmarshal(x4.Interface(), in2b); err != nil {
		t.Fatalf("%s: decoding a %s into a used variable failed: %v", e, ty, err)
	}
	if d := (&eqOpts{e: e}).diff(ty, fresh.Elem(), x4.Elem(), "v"); d != "" {
		t.Fatalf("%s: decoding a %s into a variable with empty maps or slices with room: %s\nbytes %s", e, ty, d, hexs(enc2))
	}
	for _, p := range mine {
		if now := dump(p.v); now != p.was {
			t.Fatalf("%s: %s: what was taken from %s of a variable changed when the variable was decoded into\nbefore %s\nafter  %s", e, ty, p.path, clip(p.was), clip(now))
		}
	}
	S.ClassIf(len(mine) > 0, "destination with empty maps or slices with room")

	// the input may be reused
	keep := dumpNoBytes(x2)
	for i := range input {
		input[i] ^= 0x3C
	}
	if now := dumpNoBytes(x2); now != keep {
		t.Fatalf("%s: overwriting the input changed a decoded %s outside its byte slices\nbefore %s\nafter  %s", e, ty, clip(keep), clip(now))
	}
}
