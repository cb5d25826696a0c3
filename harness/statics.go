package harness

import (
	"errors"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	bin "github.com/gagliardetto/binary"
)

// ---------------------------------------------------------------------------
// Declared (named) Go types without custom marshalling.
// ---------------------------------------------------------------------------

type (
	MyBool  bool
	MyU8    uint8
	MyU16   uint16
	MyU32   uint32
	MyU64   uint64
	MyI8    int8
	MyI16   int16
	MyI32   int32
	MyI64   int64
	MyF32   float32
	MyF64   float64
	MyStr   string
	MyBytes []byte
	MyHash  [32]byte
	MySlice []uint16
	MyStrs  []string
	MyArr   [3]uint32
	MyMap   map[string]uint16
	MyPoint struct{ X, Y int32 }
	MyInner struct {
		A uint16 `bin:"big"`
		B string
		C *uint32 `bin:"optional"`
	}
	MyOuter struct {
		MyInner
		P    MyPoint
		L    []MyPoint
		priv uint64
		Skip string `bin:"-"`
		Z    uint8
	}
	// MyList and MyTree are recursive.
	MyList struct {
		V    uint16
		Next *MyList `bin:"optional"`
	}
	MyTree struct {
		Name string
		Kids []*MyTree
	}
	// MyMix has count fields.
	MyMix struct {
		N uint8 `bin:"sizeof=L"`
		F float32
		L []MyI32
		M map[uint8]string
	}
)

type hiddenBase struct {
	X uint16
	Y string
}

type (
	MyRows  []MyPoint
	MyGrid  [2][3]MyI16
	MyNames map[MyStr]MyBytes
	MyOpts  struct {
		A *MyHash   `bin:"optional"`
		B MyStr     `bin:"optional"`
		C []MyU16   `bin:"optional"`
		D *MyPoint  `bin:"optional"`
		E MyPoint   `bin:"optional"`
		F *[]string `bin:"optional"`
	}
	// MyEmb embeds a struct of an unexported type and an exported pointer.
	MyEmb struct {
		hiddenBase
		_ uint32
		*MyPoint
		Z uint8
		_ [3]byte
		W MyI16 `bin:"big"`
	}
)

// MyBlank has blank fields of many kinds.
type MyBlank struct {
	_ [5]byte
	A uint16
	_ [2]uint32
	_ struct{}
	_ string
	B string
	_ []byte `bin:"sizeof=B"`
	_ *uint8 `bin:"optional"`
	C []uint8
	_ uint64 `bin:"big"`
}

// Types of the same name (declared in functions).

func dup1() (interface{}, *Ty) {
	type Dup struct {
		A uint16
		B string
	}
	return Dup{}, StructTy(fld("A", Prim(KU16)), fld("B", Prim(KStr)))
}

func dup2() (interface{}, *Ty) {
	type Dup struct {
		A uint32 `bin:"big"`
		B string
		C []uint8
	}
	return Dup{}, StructTy(&Fld{Name: "A", Ty: Prim(KU32), Big: true}, fld("B", Prim(KStr)), fld("C", SliceTy(Prim(KU8))))
}

func dup3() (interface{}, *Ty) {
	type Dup struct {
		A uint16  `bin:"-"`
		B *string `bin:"optional"`
	}
	return Dup{}, StructTy(&Fld{Name: "A", Ty: Prim(KU16), Skip: 1}, &Fld{Name: "B", Ty: PtrTy(Prim(KStr)), Opt: true})
}

func dup4() (interface{}, *Ty) {
	type Dup struct {
		B uint8 `bin:"sizeof=A"`
		A []uint16
	}
	return Dup{}, StructTy(&Fld{Name: "B", Ty: Prim(KU8), SizeOf: "A"}, &Fld{Name: "A", Ty: SliceTy(Prim(KU16)), Sized: "B"})
}

func dup5() (interface{}, *Ty) {
	type Dup []int32
	return Dup{}, SliceTy(Prim(KI32))
}

func dup6() (interface{}, *Ty) {
	type Dup [3]int16
	return Dup{}, ArrTy(3, Prim(KI16))
}

func fld(name string, ty *Ty) *Fld { return &Fld{Name: name, Ty: ty} }

// StaticByName maps the name of a declared type to its schema.
var StaticByName = map[string]*Ty{}

// StaticPrims, StaticComposite list them by flavour.
var StaticPrims, StaticComposite, StaticRecursive []*Ty

func static(name string, v interface{}, ty Ty) *Ty {
	ty.Name = name
	ty.rt = reflect.TypeOf(v)
	t := &ty
	StaticByName[name] = t
	return t
}

func init() {
	for _, x := range []struct {
		n string
		k K
		v interface{}
	}{
		{"MyBool", KBool, MyBool(false)}, {"MyU8", KU8, MyU8(0)}, {"MyU16", KU16, MyU16(0)},
		{"MyU32", KU32, MyU32(0)}, {"MyU64", KU64, MyU64(0)}, {"MyI8", KI8, MyI8(0)},
		{"MyI16", KI16, MyI16(0)}, {"MyI32", KI32, MyI32(0)}, {"MyI64", KI64, MyI64(0)},
		{"MyF32", KF32, MyF32(0)}, {"MyF64", KF64, MyF64(0)}, {"MyStr", KStr, MyStr("")},
	} {
		StaticPrims = append(StaticPrims, static(x.n, x.v, Ty{K: x.k}))
	}
	point := static("MyPoint", MyPoint{}, Ty{K: KStruct, Fields: []*Fld{fld("X", Prim(KI32)), fld("Y", Prim(KI32))}})
	inner := static("MyInner", MyInner{}, Ty{K: KStruct, Fields: []*Fld{
		{Name: "A", Ty: Prim(KU16), Big: true},
		fld("B", Prim(KStr)),
		{Name: "C", Ty: PtrTy(Prim(KU32)), Opt: true},
	}})
	outer := static("MyOuter", MyOuter{}, Ty{K: KStruct, Fields: []*Fld{
		fld("MyInner", inner),
		fld("P", point),
		fld("L", SliceTy(point)),
		{Name: "priv", Ty: Prim(KU64), Unexp: true},
		{Name: "Skip", Ty: Prim(KStr), Skip: 1},
		fld("Z", Prim(KU8)),
	}})
	mix := static("MyMix", MyMix{}, Ty{K: KStruct, Fields: []*Fld{
		{Name: "N", Ty: Prim(KU8), SizeOf: "L"},
		fld("F", Prim(KF32)),
		{Name: "L", Ty: SliceTy(StaticByName["MyI32"]), Sized: "N"},
		fld("M", MapTy(Prim(KU8), Prim(KStr))),
	}})
	StaticComposite = append(StaticComposite,
		static("MyBytes", MyBytes(nil), Ty{K: KSlice, Elem: Prim(KU8)}),
		static("MyHash", MyHash{}, Ty{K: KArr, N: 32, Elem: Prim(KU8)}),
		static("MySlice", MySlice(nil), Ty{K: KSlice, Elem: Prim(KU16)}),
		static("MyStrs", MyStrs(nil), Ty{K: KSlice, Elem: Prim(KStr)}),
		static("MyArr", MyArr{}, Ty{K: KArr, N: 3, Elem: Prim(KU32)}),
		static("MyMap", MyMap(nil), Ty{K: KMap, Key: Prim(KStr), Elem: Prim(KU16)}),
		point, inner, outer, mix)
	hash, u16, str := StaticByName["MyHash"], StaticByName["MyU16"], StaticByName["MyStr"]
	opt := func(n string, t *Ty) *Fld { return &Fld{Name: n, Ty: t, Opt: true} }
	StaticComposite = append(StaticComposite,
		static("MyRows", MyRows(nil), Ty{K: KSlice, Elem: point}),
		static("MyGrid", MyGrid{}, Ty{K: KArr, N: 2, Elem: ArrTy(3, StaticByName["MyI16"])}),
		static("MyNames", MyNames(nil), Ty{K: KMap, Key: str, Elem: StaticByName["MyBytes"]}),
		static("MyOpts", MyOpts{}, Ty{K: KStruct, Fields: []*Fld{opt("A", PtrTy(hash)), opt("B", str), opt("C", SliceTy(u16)),
			opt("D", PtrTy(point)), opt("E", point), opt("F", PtrTy(SliceTy(Prim(KStr))))}}),
		static("MyEmb", MyEmb{}, Ty{K: KStruct, Fields: []*Fld{
			{Name: "hiddenBase", Ty: &Ty{K: KStruct, rt: reflect.TypeOf(hiddenBase{}), Name: "hiddenBase", Fields: []*Fld{fld("X", Prim(KU16)), fld("Y", Prim(KStr))}}, Unexp: true},
			{Name: "_", Ty: Prim(KU32), Unexp: true},
			fld("MyPoint", PtrTy(point)),
			fld("Z", Prim(KU8)),
			{Name: "_", Ty: ArrTy(3, Prim(KU8)), Unexp: true},
			{Name: "W", Ty: StaticByName["MyI16"], Big: true},
		}}))
	blank := func(t *Ty) *Fld { return &Fld{Name: "_", Ty: t, Unexp: true} }
	StaticComposite = append(StaticComposite, static("MyBlank", MyBlank{}, Ty{K: KStruct, Fields: []*Fld{
		blank(ArrTy(5, Prim(KU8))), fld("A", Prim(KU16)), blank(ArrTy(2, Prim(KU32))), blank(&Ty{K: KStruct, rt: reflect.TypeOf(struct{}{})}), blank(Prim(KStr)),
		fld("B", Prim(KStr)), blank(SliceTy(Prim(KU8))), blank(PtrTy(Prim(KU8))), fld("C", SliceTy(Prim(KU8))), blank(Prim(KU64))}}))
	for i, f := range []func() (interface{}, *Ty){dup1, dup2, dup3, dup4, dup5, dup6} {
		v, t := f()
		StaticComposite = append(StaticComposite, static("Dup"+strconv.Itoa(i+1), v, *t))
	}

	list := static("MyList", MyList{}, Ty{K: KStruct})
	list.Fields = []*Fld{fld("V", Prim(KU16)), {Name: "Next", Ty: PtrTy(list), Opt: true}}
	tree := static("MyTree", MyTree{}, Ty{K: KStruct})
	tree.Fields = []*Fld{fld("Name", Prim(KStr)), fld("Kids", SliceTy(PtrTy(tree)))}
	StaticRecursive = []*Ty{list, tree}
}

// ---------------------------------------------------------------------------
// Types with custom marshalling: the library's own, and the harness's.
// ---------------------------------------------------------------------------

// Custom describes a type with its own wire form.
type Custom struct {
	Name    string
	RT      reflect.Type
	PtrRecv bool // MarshalWithEncoder has a pointer receiver: used as *T only
	Key     bool // usable as a map key (comparable)
	Ordered bool // its wire form depends on the field's byte order
	MinSize int
	Enc     func(w *W, v reflect.Value, big bool)
	Dec     func(r *R, out reflect.Value, big bool)
	Gen     func(s Src, e Enc) reflect.Value
	Eq      func(a, b reflect.Value) bool
	Lib     bool
}

var Customs []*Custom
var CustomByName = map[string]*Custom{}

func deepEq(a, b reflect.Value) bool { return reflect.DeepEqual(a.Interface(), b.Interface()) }

func reg(c Custom) {
	if c.Eq == nil {
		c.Eq = deepEq
	}
	p := &c
	Customs = append(Customs, p)
	CustomByName[c.Name] = p
}

var errMagic = errors.New("harness: wrong magic byte")

// CTag: magic byte, then B, then A little-endian.
type CTag struct {
	A uint16
	B uint8
}

func (c CTag) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(0xC7); err != nil {
		return err
	}
	if err := enc.WriteUint8(c.B); err != nil {
		return err
	}
	return enc.WriteUint16(c.A, bin.LE)
}

func (c *CTag) UnmarshalWithDecoder(dec *bin.Decoder) error {
	m, err := dec.ReadByte()
	if err != nil {
		return err
	}
	if m != 0xC7 {
		return errMagic
	}
	if c.B, err = dec.ReadUint8(); err != nil {
		return err
	}
	c.A, err = dec.ReadUint16(bin.LE)
	return err
}

// CStr: a struct written as a length-prefixed string, reversed.
type CStr struct{ S string }

func rev(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func (c CStr) MarshalWithEncoder(enc *bin.Encoder) error { return enc.WriteString(rev(c.S)) }
func (c *CStr) UnmarshalWithDecoder(dec *bin.Decoder) error {
	s, err := dec.ReadString()
	if err != nil {
		return err
	}
	c.S = rev(s)
	return nil
}

// CNest delegates to the generic codec for an inner value, twice.
type CNest struct {
	X uint32
	L []uint16
}

func (c CNest) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.Encode(c.X); err != nil {
		return err
	}
	return enc.Encode(c.L)
}

func (c *CNest) UnmarshalWithDecoder(dec *bin.Decoder) error {
	if err := dec.Decode(&c.X); err != nil {
		return err
	}
	c.L = nil
	return dec.Decode(&c.L)
}

// CInt is an integer kind with a custom form (never a plain int32).
type CInt int32

func (c CInt) MarshalWithEncoder(enc *bin.Encoder) error {
	return enc.WriteUint32(uint32(c)^0xA5A5A5A5, bin.BE)
}
func (c *CInt) UnmarshalWithDecoder(dec *bin.Decoder) error {
	v, err := dec.ReadUint32(bin.BE)
	if err != nil {
		return err
	}
	*c = CInt(v ^ 0xA5A5A5A5)
	return nil
}

// CList is a slice kind with a one-byte count and big-endian elements.
type CList []uint32

func (c CList) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(byte(len(c))); err != nil {
		return err
	}
	for _, v := range c {
		if err := enc.WriteUint32(v, bin.BE); err != nil {
			return err
		}
	}
	return nil
}
func (c *CList) UnmarshalWithDecoder(dec *bin.Decoder) error {
	n, err := dec.ReadByte()
	if err != nil {
		return err
	}
	*c = nil
	for i := 0; i < int(n); i++ {
		v, err := dec.ReadUint32(bin.BE)
		if err != nil {
			return err
		}
		*c = append(*c, v)
	}
	return nil
}

// CKey is an array kind (like a public key) written reversed after a magic.
type CKey [4]byte

func (c CKey) MarshalWithEncoder(enc *bin.Encoder) error {
	return enc.WriteBytes([]byte{0x4B, c[3], c[2], c[1], c[0]}, false)
}
func (c *CKey) UnmarshalWithDecoder(dec *bin.Decoder) error {
	b, err := dec.ReadNBytes(5)
	if err != nil {
		return err
	}
	if b[0] != 0x4B {
		return errMagic
	}
	*c = CKey{b[4], b[3], b[2], b[1]}
	return nil
}

// CMap is a map kind with a custom form: a count byte, then sorted keys.
type CMap map[uint8]bool

func (c CMap) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(byte(len(c))); err != nil {
		return err
	}
	for i := 0; i < 256; i++ {
		if _, ok := c[uint8(i)]; ok {
			if err := enc.WriteByte(uint8(i)); err != nil {
				return err
			}
		}
	}
	return nil
}
func (c *CMap) UnmarshalWithDecoder(dec *bin.Decoder) error {
	n, err := dec.ReadByte()
	if err != nil {
		return err
	}
	*c = CMap{}
	for i := 0; i < int(n); i++ {
		k, err := dec.ReadByte()
		if err != nil {
			return err
		}
		(*c)[k] = true
	}
	return nil
}

// CPtr has pointer receivers on both sides.
type CPtr struct{ V uint8 }

func (c *CPtr) MarshalWithEncoder(enc *bin.Encoder) error {
	return enc.WriteBytes([]byte{0x70, ^c.V}, false)
}
func (c *CPtr) UnmarshalWithDecoder(dec *bin.Decoder) error {
	b, err := dec.ReadNBytes(2)
	if err != nil {
		return err
	}
	if b[0] != 0x70 {
		return errMagic
	}
	c.V = ^b[1]
	return nil
}

// CText is a string kind written with a one-byte length.
type CText string

func (c CText) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(byte(len(c))); err != nil {
		return err
	}
	return enc.WriteBytes([]byte(c), false)
}
func (c *CText) UnmarshalWithDecoder(dec *bin.Decoder) error {
	n, err := dec.ReadByte()
	if err != nil {
		return err
	}
	b, err := dec.ReadBytes(int(n))
	if err != nil {
		return err
	}
	*c = CText(b)
	return nil
}

// COInt, CUint and CComplex are of kinds that have no form of their own.
type (
	COInt    int
	CUint    uint
	CComplex complex128
)

func oddWrite(enc *bin.Encoder, m byte, v int32) error {
	if err := enc.WriteByte(m); err != nil {
		return err
	}
	return enc.WriteInt32(v, bin.BE)
}

func oddRead(dec *bin.Decoder, m byte) (int32, error) {
	b, err := dec.ReadByte()
	if err != nil {
		return 0, err
	}
	if b != m {
		return 0, errMagic
	}
	return dec.ReadInt32(bin.BE)
}

func (c COInt) MarshalWithEncoder(enc *bin.Encoder) error { return oddWrite(enc, 0x1a, int32(c)) }
func (c CUint) MarshalWithEncoder(enc *bin.Encoder) error { return oddWrite(enc, 0x1b, int32(c)) }
func (c CComplex) MarshalWithEncoder(enc *bin.Encoder) error {
	return oddWrite(enc, 0x1c, int32(real(c)))
}
func (c *COInt) UnmarshalWithDecoder(dec *bin.Decoder) error {
	v, err := oddRead(dec, 0x1a)
	if err == nil {
		*c = COInt(v)
	}
	return err
}
func (c *CUint) UnmarshalWithDecoder(dec *bin.Decoder) error {
	v, err := oddRead(dec, 0x1b)
	if err == nil {
		*c = CUint(uint32(v))
	}
	return err
}
func (c *CComplex) UnmarshalWithDecoder(dec *bin.Decoder) error {
	v, err := oddRead(dec, 0x1c)
	if err == nil {
		*c = CComplex(complex(float64(v), 0))
	}
	return err
}

// CU16 is an unsigned kind with a custom form (honoured outside sequences).
type CU16 uint16

func (c CU16) MarshalWithEncoder(enc *bin.Encoder) error {
	return enc.WriteBytes([]byte{0x16, byte(c >> 8), byte(c)}, false)
}
func (c *CU16) UnmarshalWithDecoder(dec *bin.Decoder) error {
	b, err := dec.ReadNBytes(3)
	if err != nil {
		return err
	}
	if b[0] != 0x16 {
		return errMagic
	}
	*c = CU16(uint16(b[1])<<8 | uint16(b[2]))
	return nil
}

// CBool is a bool kind written as 'y' or 'n'.
type CBool bool

func (c CBool) MarshalWithEncoder(enc *bin.Encoder) error {
	if c {
		return enc.WriteByte('y')
	}
	return enc.WriteByte('n')
}
func (c *CBool) UnmarshalWithDecoder(dec *bin.Decoder) error {
	b, err := dec.ReadByte()
	if err != nil {
		return err
	}
	switch b {
	case 'y':
		*c = true
	case 'n':
		*c = false
	default:
		return errMagic
	}
	return nil
}

// CI8 is a signed byte kind, CF32 and CF64 float kinds, with their bits
// inverted on the wire after a magic byte.
type CI8 int8

func (c CI8) MarshalWithEncoder(enc *bin.Encoder) error {
	return enc.WriteBytes([]byte{0x18, ^byte(c)}, false)
}
func (c *CI8) UnmarshalWithDecoder(dec *bin.Decoder) error {
	b, err := dec.ReadNBytes(2)
	if err != nil {
		return err
	}
	if b[0] != 0x18 {
		return errMagic
	}
	*c = CI8(^b[1])
	return nil
}

type CF32 float32

func (c CF32) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(0x32); err != nil {
		return err
	}
	return enc.WriteUint32(^math.Float32bits(float32(c)), bin.LE)
}
func (c *CF32) UnmarshalWithDecoder(dec *bin.Decoder) error {
	m, err := dec.ReadByte()
	if err != nil {
		return err
	}
	if m != 0x32 {
		return errMagic
	}
	u, err := dec.ReadUint32(bin.LE)
	*c = CF32(math.Float32frombits(^u))
	return err
}

type CF64 float64

func (c CF64) MarshalWithEncoder(enc *bin.Encoder) error {
	if err := enc.WriteByte(0x64); err != nil {
		return err
	}
	return enc.WriteUint64(^math.Float64bits(float64(c)), bin.LE)
}
func (c *CF64) UnmarshalWithDecoder(dec *bin.Decoder) error {
	m, err := dec.ReadByte()
	if err != nil {
		return err
	}
	if m != 0x64 {
		return errMagic
	}
	u, err := dec.ReadUint64(bin.LE)
	*c = CF64(math.Float64frombits(^u))
	return err
}

// CI64 is a signed kind written as decimal text with a count byte.
type CI64 int64

func (c CI64) MarshalWithEncoder(enc *bin.Encoder) error {
	d := strconv.FormatInt(int64(c), 10)
	if err := enc.WriteByte(byte(len(d))); err != nil {
		return err
	}
	return enc.WriteBytes([]byte(d), false)
}
func (c *CI64) UnmarshalWithDecoder(dec *bin.Decoder) error {
	n, err := dec.ReadByte()
	if err != nil {
		return err
	}
	b, err := dec.ReadBytes(int(n))
	if err != nil {
		return err
	}
	v, err := strconv.ParseInt(string(b), 10, 64)
	*c = CI64(v)
	return err
}

func eq128(a, b reflect.Value) bool {
	return a.Field(0).Uint() == b.Field(0).Uint() && a.Field(1).Uint() == b.Field(1).Uint()
}

func init() {
	enc128 := func(w *W, v reflect.Value, big bool) { w.U128(v.Field(1).Uint(), v.Field(0).Uint(), big) }
	dec128 := func(r *R, out reflect.Value, big bool) {
		hi, lo := r.U128(big)
		out.Field(0).SetUint(lo)
		out.Field(1).SetUint(hi)
	}
	gen128 := func(rt reflect.Type) func(Src, Enc) reflect.Value {
		return func(s Src, _ Enc) reflect.Value {
			v := reflect.New(rt).Elem()
			v.Field(0).SetUint(GenUint(s, 64))
			v.Field(1).SetUint(GenUint(s, 64))
			return v
		}
	}
	for _, x := range []struct {
		n string
		v interface{}
	}{{"bin.Uint128", bin.Uint128{}}, {"bin.Int128", bin.Int128{}}, {"bin.Float128", bin.Float128{}}} {
		rt := reflect.TypeOf(x.v)
		reg(Custom{Name: x.n, RT: rt, Ordered: true, MinSize: 16, Enc: enc128, Dec: dec128, Gen: gen128(rt), Eq: eq128, Lib: true})
	}
	reg(Custom{Name: "bin.Bool", RT: reflect.TypeOf(bin.Bool(false)), Key: true, MinSize: 1, Lib: true,
		Enc: func(w *W, v reflect.Value, _ bool) {
			if v.Bool() {
				w.U8(1)
			} else {
				w.U8(0)
			}
		},
		Dec: func(r *R, out reflect.Value, _ bool) { out.SetBool(r.Bool()) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(bin.Bool(s.N(2) == 1)) },
	})
	reg(Custom{Name: "bin.SafeString", RT: reflect.TypeOf(bin.SafeString("")), Key: true, MinSize: 1, Lib: true,
		Enc: func(w *W, v reflect.Value, _ bool) { w.LenBytes([]byte(v.String())) },
		Dec: func(r *R, out reflect.Value, _ bool) {
			out.SetString(SafeUTF8(r.LenBytes()))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			return reflect.ValueOf(bin.SafeString(strings.ToValidUTF8(GenString(s, smallLen(s)), "?")))
		},
	})
	reg(Custom{Name: "bin.HexBytes", RT: reflect.TypeOf(bin.HexBytes(nil)), MinSize: 1, Lib: true,
		Enc: func(w *W, v reflect.Value, _ bool) { w.LenBytes(v.Bytes()) },
		Dec: func(r *R, out reflect.Value, _ bool) { out.SetBytes(append([]byte(nil), r.LenBytes()...)) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(bin.HexBytes(GenString(s, smallLen(s)))) },
		Eq:  func(a, b reflect.Value) bool { return string(a.Bytes()) == string(b.Bytes()) },
	})
	sv := func(name string, v interface{}, bits int, lib bool) {
		rt := reflect.TypeOf(v)
		reg(Custom{Name: name, RT: rt, Key: true, MinSize: 1, Lib: lib,
			Enc: func(w *W, v reflect.Value, _ bool) { w.Varint(v.Int()) },
			Dec: func(r *R, out reflect.Value, _ bool) {
				n := r.Varint()
				if out.OverflowInt(n) {
					r.fail("varint too large")
					return
				}
				out.SetInt(n)
			},
			Gen: func(s Src, _ Enc) reflect.Value {
				o := reflect.New(rt).Elem()
				o.SetInt(GenInt(s, bits))
				return o
			}})
	}
	uv := func(name string, v interface{}, bits int) {
		rt := reflect.TypeOf(v)
		reg(Custom{Name: name, RT: rt, Key: true, MinSize: 1, Lib: true,
			Enc: func(w *W, v reflect.Value, _ bool) { w.Uvarint(v.Uint()) },
			Dec: func(r *R, out reflect.Value, _ bool) {
				n := r.Uvarint()
				if out.OverflowUint(n) {
					r.fail("varint too large")
					return
				}
				out.SetUint(n)
			},
			Gen: func(s Src, _ Enc) reflect.Value {
				o := reflect.New(rt).Elem()
				o.SetUint(GenUint(s, bits))
				return o
			}})
	}
	sv("bin.Varint16", bin.Varint16(0), 16, true)
	sv("bin.Varint32", bin.Varint32(0), 32, true)
	uv("bin.Varuint16", bin.Varuint16(0), 16)
	uv("bin.Varuint32", bin.Varuint32(0), 32)
	reg(Custom{Name: "bin.JSONFloat64", RT: reflect.TypeOf(bin.JSONFloat64(0)), Ordered: true, MinSize: 8, Lib: true,
		Enc: func(w *W, v reflect.Value, big bool) {
			f := v.Float()
			if w.E == Borsh && f != f && !w.AllowNaN {
				w.fail("NaN")
				return
			}
			u := math.Float64bits(f)
			if f != f && w.NaN64 != 0 {
				u = w.NaN64
			}
			w.U64(u, big)
		},
		Dec: func(r *R, out reflect.Value, big bool) {
			f := math.Float64frombits(r.U64(big))
			if r.Err == nil && r.E == Borsh && f != f {
				r.fail("NaN")
				return
			}
			out.SetFloat(f)
		},
		Gen: func(s Src, e Enc) reflect.Value { return reflect.ValueOf(bin.JSONFloat64(GenF64(s, e != Borsh))) },
		Eq: func(a, b reflect.Value) bool {
			x, y := a.Float(), b.Float()
			return (x != x && y != y) || math.Float64bits(x) == math.Float64bits(y)
		},
	})
	reg(Custom{Name: "bin.Int64", RT: reflect.TypeOf(bin.Int64(0)), Key: true, Ordered: true, MinSize: 8, Lib: true,
		Enc: func(w *W, v reflect.Value, big bool) { w.U64(uint64(v.Int()), big) },
		Dec: func(r *R, out reflect.Value, big bool) { out.SetInt(int64(r.U64(big))) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(bin.Int64(GenInt(s, 64))) },
	})
	reg(Custom{Name: "bin.Uint64", RT: reflect.TypeOf(bin.Uint64(0)), Key: true, Ordered: true, MinSize: 8, Lib: true,
		Enc: func(w *W, v reflect.Value, big bool) { w.U64(v.Uint(), big) },
		Dec: func(r *R, out reflect.Value, big bool) { out.SetUint(r.U64(big)) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(bin.Uint64(GenUint(s, 64))) },
	})

	reg(Custom{Name: "CTag", RT: reflect.TypeOf(CTag{}), Key: false, MinSize: 4,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U8(0xC7)
			w.U8(uint8(v.Field(1).Uint()))
			w.U16(uint16(v.Field(0).Uint()), false)
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			if r.U8() != 0xC7 {
				r.fail("magic")
			}
			b := r.U8()
			a := r.U16(false)
			out.Set(reflect.ValueOf(CTag{A: a, B: b}))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			return reflect.ValueOf(CTag{A: uint16(GenUint(s, 16)), B: uint8(GenUint(s, 8))})
		},
	})
	reg(Custom{Name: "CStr", RT: reflect.TypeOf(CStr{}), MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) { w.LenBytes([]byte(rev(v.Field(0).String()))) },
		Dec: func(r *R, out reflect.Value, _ bool) { out.Field(0).SetString(rev(string(r.LenBytes()))) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CStr{S: GenString(s, smallLen(s))}) },
	})
	u16s := SliceTy(Prim(KU16))
	reg(Custom{Name: "CNest", RT: reflect.TypeOf(CNest{}), MinSize: 5,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U32(uint32(v.Field(0).Uint()), false)
			w.Val(u16s, v.Field(1), noFO)
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			out.Field(0).SetUint(uint64(r.U32(false)))
			r.Val(u16s, out.Field(1), noFO)
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			c := CNest{X: uint32(GenUint(s, 32))}
			for i := s.N(4); i > 0; i-- {
				c.L = append(c.L, uint16(GenUint(s, 16)))
			}
			return reflect.ValueOf(c)
		},
		Eq: func(a, b reflect.Value) bool {
			x, y := a.Interface().(CNest), b.Interface().(CNest)
			return x.X == y.X && len(x.L) == len(y.L) && (len(x.L) == 0 || reflect.DeepEqual(x.L, y.L))
		},
	})
	reg(Custom{Name: "CInt", RT: reflect.TypeOf(CInt(0)), Key: true, MinSize: 4,
		Enc: func(w *W, v reflect.Value, _ bool) { w.U32(uint32(v.Int())^0xA5A5A5A5, true) },
		Dec: func(r *R, out reflect.Value, _ bool) { out.SetInt(int64(int32(r.U32(true) ^ 0xA5A5A5A5))) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CInt(GenInt(s, 32))) },
	})
	reg(Custom{Name: "CList", RT: reflect.TypeOf(CList(nil)), MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U8(uint8(v.Len()))
			for i := 0; i < v.Len(); i++ {
				w.U32(uint32(v.Index(i).Uint()), true)
			}
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			n := int(r.U8())
			var c CList
			for i := 0; i < n && r.Err == nil; i++ {
				c = append(c, r.U32(true))
			}
			out.Set(reflect.ValueOf(c))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			var c CList
			for i := s.N(4); i > 0; i-- {
				c = append(c, uint32(GenUint(s, 32)))
			}
			return reflect.ValueOf(c)
		},
		Eq: func(a, b reflect.Value) bool {
			return a.Len() == b.Len() && (a.Len() == 0 || deepEq(a, b))
		},
	})
	reg(Custom{Name: "CKey", RT: reflect.TypeOf(CKey{}), MinSize: 5,
		Enc: func(w *W, v reflect.Value, _ bool) {
			c := v.Interface().(CKey)
			w.Raw([]byte{0x4B, c[3], c[2], c[1], c[0]})
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			b := r.Take(5)
			if b == nil {
				return
			}
			if b[0] != 0x4B {
				r.fail("magic")
				return
			}
			out.Set(reflect.ValueOf(CKey{b[4], b[3], b[2], b[1]}))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			return reflect.ValueOf(CKey{uint8(GenUint(s, 8)), uint8(GenUint(s, 8)), uint8(GenUint(s, 8)), uint8(GenUint(s, 8))})
		},
	})
	reg(Custom{Name: "CMap", RT: reflect.TypeOf(CMap(nil)), MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U8(uint8(v.Len()))
			for i := 0; i < 256; i++ {
				if v.MapIndex(reflect.ValueOf(uint8(i))).IsValid() {
					w.U8(uint8(i))
				}
			}
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			n := int(r.U8())
			c := CMap{}
			for i := 0; i < n && r.Err == nil; i++ {
				c[r.U8()] = true
			}
			out.Set(reflect.ValueOf(c))
		},
		Gen: func(s Src, _ Enc) reflect.Value {
			c := CMap{}
			for i := s.N(4); i > 0; i-- {
				c[uint8(GenUint(s, 8))] = true
			}
			return reflect.ValueOf(c)
		},
		Eq: func(a, b reflect.Value) bool { return a.Len() == b.Len() && (a.Len() == 0 || deepEq(a, b)) },
	})
	reg(Custom{Name: "CPtr", RT: reflect.TypeOf(CPtr{}), PtrRecv: true, MinSize: 2,
		Enc: func(w *W, v reflect.Value, _ bool) { w.Raw([]byte{0x70, ^uint8(v.Field(0).Uint())}) },
		Dec: func(r *R, out reflect.Value, _ bool) {
			b := r.Take(2)
			if b == nil {
				return
			}
			if b[0] != 0x70 {
				r.fail("magic")
				return
			}
			out.Field(0).SetUint(uint64(^b[1]))
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CPtr{V: uint8(GenUint(s, 8))}) },
	})
	reg(Custom{Name: "CText", RT: reflect.TypeOf(CText("")), Key: true, MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) { w.U8(uint8(v.Len())); w.Raw([]byte(v.String())) },
		Dec: func(r *R, out reflect.Value, _ bool) { n := r.U8(); out.SetString(string(r.Take(int(n)))) },
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CText(GenString(s, smallLen(s)))) },
	})
	oddGen := func(s Src) int32 { return int32(uint32(GenUint(s, 32))) }
	odd := func(name string, rt reflect.Type, key bool, m byte, get func(reflect.Value) int32, set func(reflect.Value, int32)) {
		reg(Custom{Name: name, RT: rt, Key: key, MinSize: 5,
			Enc: func(w *W, v reflect.Value, _ bool) { w.U8(m); w.U32(uint32(get(v)), true) },
			Dec: func(r *R, out reflect.Value, _ bool) {
				b := r.U8()
				if r.Err != nil {
					return
				}
				if b != m {
					r.fail("magic")
					return
				}
				if u := r.U32(true); r.Err == nil {
					set(out, int32(u))
				}
			},
			Gen: func(s Src, _ Enc) reflect.Value {
				v := reflect.New(rt).Elem()
				set(v, oddGen(s))
				return v
			},
		})
	}
	odd("COInt", reflect.TypeOf(COInt(0)), true, 0x1a, func(v reflect.Value) int32 { return int32(v.Int()) }, func(v reflect.Value, i int32) { v.SetInt(int64(i)) })
	odd("CUint", reflect.TypeOf(CUint(0)), true, 0x1b, func(v reflect.Value) int32 { return int32(v.Uint()) }, func(v reflect.Value, i int32) { v.SetUint(uint64(uint32(i))) })
	odd("CComplex", reflect.TypeOf(CComplex(0)), false, 0x1c, func(v reflect.Value) int32 { return int32(real(v.Complex())) }, func(v reflect.Value, i int32) { v.SetComplex(complex(float64(i), 0)) })
	reg(Custom{Name: "CU16", RT: reflect.TypeOf(CU16(0)), Key: true, MinSize: 3,
		Enc: func(w *W, v reflect.Value, _ bool) { u := v.Uint(); w.Raw([]byte{0x16, byte(u >> 8), byte(u)}) },
		Dec: func(r *R, out reflect.Value, _ bool) {
			b := r.Take(3)
			if b == nil {
				return
			}
			if b[0] != 0x16 {
				r.fail("magic")
				return
			}
			out.SetUint(uint64(b[1])<<8 | uint64(b[2]))
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CU16(GenUint(s, 16))) },
	})
	magic := func(r *R, m byte) {
		if r.U8() != m && r.Err == nil {
			r.fail("magic")
		}
	}
	reg(Custom{Name: "CBool", RT: reflect.TypeOf(CBool(false)), Key: true, MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) {
			if v.Bool() {
				w.U8('y')
			} else {
				w.U8('n')
			}
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			switch b := r.U8(); {
			case r.Err != nil:
			case b == 'y':
				out.SetBool(true)
			case b == 'n':
				out.SetBool(false)
			default:
				r.fail("magic")
			}
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CBool(s.N(2) == 1)) },
	})
	reg(Custom{Name: "CI8", RT: reflect.TypeOf(CI8(0)), Key: true, MinSize: 2,
		Enc: func(w *W, v reflect.Value, _ bool) { w.Raw([]byte{0x18, ^byte(v.Int())}) },
		Dec: func(r *R, out reflect.Value, _ bool) {
			magic(r, 0x18)
			out.SetInt(int64(int8(^r.U8())))
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CI8(GenInt(s, 8))) },
	})
	reg(Custom{Name: "CF32", RT: reflect.TypeOf(CF32(0)), MinSize: 5,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U8(0x32)
			w.U32(^math.Float32bits(float32(v.Float())), false)
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			magic(r, 0x32)
			out.SetFloat(float64(math.Float32frombits(^r.U32(false))))
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CF32(GenF32(s, false))) },
		Eq: func(a, b reflect.Value) bool {
			x, y := float32(a.Float()), float32(b.Float())
			return (x != x && y != y) || math.Float32bits(x) == math.Float32bits(y)
		},
	})
	reg(Custom{Name: "CF64", RT: reflect.TypeOf(CF64(0)), MinSize: 9,
		Enc: func(w *W, v reflect.Value, _ bool) {
			w.U8(0x64)
			w.U64(^math.Float64bits(v.Float()), false)
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			magic(r, 0x64)
			out.SetFloat(math.Float64frombits(^r.U64(false)))
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CF64(GenF64(s, false))) },
		Eq: func(a, b reflect.Value) bool {
			x, y := a.Float(), b.Float()
			return (x != x && y != y) || math.Float64bits(x) == math.Float64bits(y)
		},
	})
	reg(Custom{Name: "CI64", RT: reflect.TypeOf(CI64(0)), Key: true, MinSize: 1,
		Enc: func(w *W, v reflect.Value, _ bool) {
			d := strconv.FormatInt(v.Int(), 10)
			w.U8(uint8(len(d)))
			w.Raw([]byte(d))
		},
		Dec: func(r *R, out reflect.Value, _ bool) {
			n := r.U8()
			b := r.Take(int(n))
			if r.Err != nil {
				return
			}
			v, err := strconv.ParseInt(string(b), 10, 64)
			if err != nil {
				r.fail("not a number")
				return
			}
			out.SetInt(v)
		},
		Gen: func(s Src, _ Enc) reflect.Value { return reflect.ValueOf(CI64(GenInt(s, 64))) },
	})
}

// SafeUTF8 is the reference for safe strings: valid sequences are kept, every
// byte that is not part of one becomes U+FFFD.
func SafeUTF8(b []byte) string {
	var sb strings.Builder
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		sb.WriteRune(r) // RuneError is U+FFFD
		b = b[n:]
	}
	return sb.String()
}
