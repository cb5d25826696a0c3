package harness

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Src is a source of choices: rapid's bit stream, or (for bulk data) a PRNG
// seeded from one rapid draw, so that every case stays a function of the draws.
type Src interface {
	N(n int) int // 0 <= result < n
	U64() uint64
}

// RS draws from rapid.
type RS struct{ T *rapid.T }

func (s RS) N(n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(s.T, "n")
}
func (s RS) U64() uint64 { return rapid.Uint64().Draw(s.T, "u") }

// PR is splitmix64.
type PR struct{ X uint64 }

func (p *PR) U64() uint64 {
	p.X += 0x9e3779b97f4a7c15
	z := p.X
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *PR) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}

func chance(s Src, num, den int) bool { return s.N(den) >= den-num }

// rare is true about once in n times. (The draws of rapid prefer the ends of
// their range, so that chance(s, 1, n) is much more frequent for a large n.)
func rare(s Src, n int) bool {
	x := s.U64()
	return x > 1<<16 && (&PR{X: x}).N(n) == 0
}

// GenUint draws an unsigned value of at most the given width, with boundary bias.
func GenUint(s Src, bits int) uint64 {
	mask := ^uint64(0)
	if bits < 64 {
		mask = 1<<uint(bits) - 1
	}
	switch s.N(6) {
	case 0:
		return uint64(s.N(3)) // 0..2
	case 1:
		return mask - uint64(s.N(3))
	case 2: // around a power of two
		p := uint64(1) << uint(s.N(bits))
		return (p + uint64(s.N(3)) - 1) & mask
	case 3: // distinct bytes, so that byte order shows
		return 0x0807060504030201 & mask
	default:
		return s.U64() & mask
	}
}

func GenInt(s Src, bits int) int64 {
	u := GenUint(s, bits)
	sh := uint(64 - bits)
	return int64(u<<sh) >> sh
}

func GenF64(s Src, nan bool) float64 {
	sp := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, -math.MaxFloat64}
	if nan && chance(s, 1, 10) {
		return math.NaN()
	}
	if s.N(2) == 0 {
		return sp[s.N(len(sp))]
	}
	f := math.Float64frombits(s.U64())
	if f != f {
		return 0.1
	}
	return f
}

func GenF32(s Src, nan bool) float32 {
	sp := []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi}
	if nan && chance(s, 1, 10) {
		return float32(math.NaN())
	}
	if s.N(2) == 0 {
		return sp[s.N(len(sp))]
	}
	f := math.Float32frombits(uint32(s.U64()))
	if f != f {
		return 0.1
	}
	return f
}

func smallLen(s Src) int {
	switch s.N(8) {
	case 0:
		return 0
	case 1:
		return 5 + s.N(20)
	default:
		return 1 + s.N(4)
	}
}

// logLen draws a length up to max: mostly short, every magnitude likely, with
// powers of two and their neighbours; and the source for so many elements.
func logLen(s Src, max int) (int, Src) {
	n := smallLen(s)
	if chance(s, 1, 12) {
		k := s.N(bits.Len(uint(max)) + 1)
		if n = s.N(1 << uint(k)); s.N(2) == 0 {
			n = 1<<uint(k) + s.N(5) - 2
		}
	}
	if n = min(n, max); n < 0 {
		n = 0
	}
	if n > 40 {
		return n, &PR{X: s.U64()}
	}
	return n, s
}

// genText draws a string of about logLen.
func genText(s Src, max int) string {
	n, src := logLen(s, max)
	return GenString(src, n)
}

var stringAtoms = []string{"a", "Z", "0", "_", " ", "\x00", "é", "ß", "世", "😀", "\xff", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\ufffd", "\u202e", "\ufeff", "\U0010ffff", "\xed\xa0\x80", "Σ", "\"", "\\", "\n"}

// GenString draws roughly n bytes of text, including invalid UTF-8.
func GenString(s Src, n int) string {
	if n == 0 {
		return ""
	}
	if n > 64 {
		b := make([]byte, n)
		p := &PR{X: s.U64()}
		for i := range b {
			b[i] = byte(p.U64())
		}
		return string(b)
	}
	out := ""
	for len(out) < n {
		out += stringAtoms[s.N(len(stringAtoms))]
	}
	return out[:n]
}

// ---------------------------------------------------------------------------
// Schemas
// ---------------------------------------------------------------------------

// TyCfg says which shapes to generate.
type TyCfg struct {
	E          Enc
	Depth      int
	MaxFields  int
	NoCustom   bool
	NoNilQuirk bool // no fast-path quirks: no custom types of unsigned kind inside sequences
	NoTags     bool
	NoOptional bool
	NoSizeOf   bool
	NoSkip     bool
	NoBig      bool
	NoMap      bool
	NoEnum     bool
	NoRec      bool
	NoPtr      bool
	NoIface    bool
	ZeroSized  bool // allow sequences of zero-sized elements, empty structs anywhere
	OrderedBig bool // allow `big` on library types even in Borsh (round trip only)
	BoolKeys   bool
}

type tyGen struct {
	cfg  TyCfg
	s    Src
	next int
	wide int    // wide structs so far
	pend string // the next field name, close to the last one
}

func newTyGen(s Src, cfg TyCfg) *tyGen {
	if cfg.Depth == 0 {
		cfg.Depth = 4
	}
	if cfg.MaxFields == 0 {
		cfg.MaxFields = 6
	}
	return &tyGen{cfg: cfg, s: s}
}

// GenTy draws a schema.
func GenTy(s Src, cfg TyCfg) *Ty {
	g := newTyGen(s, cfg)
	cfg = g.cfg
	if cfg.Depth >= 4 && chance(s, 1, 50) {
		return g.tower()
	}
	// most cases are structs: that is what users encode
	if chance(s, 2, 3) {
		return g.structTy(cfg.Depth)
	}
	return g.ty(cfg.Depth, false)
}

func (g *tyGen) prim() *Ty {
	if chance(g.s, 1, 4) {
		return StaticPrims[g.s.N(len(StaticPrims))]
	}
	return Prim(K(g.s.N(int(KStr) + 1)))
}

// ty draws any type; inSeq says that it is an element of an array or slice.
func (g *tyGen) ty(depth int, inSeq bool) *Ty {
	s := g.s
	if depth <= 1 {
		return g.leaf(inSeq)
	}
	for {
		switch s.N(14) {
		case 0, 1, 2:
			return g.leaf(inSeq)
		case 3:
			n := s.N(5)
			if chance(s, 1, 8) {
				switch n = []int{32, 64, 255}[s.N(3)]; s.N(4) {
				case 0:
					return ArrTy(5+s.N(130), Prim(KU8+K(s.N(4))))
				case 1:
					return ArrTy(5+s.N(40), g.prim())
				case 2:
					return ArrTy([]int{127, 128, 129, 256, 257, 300}[s.N(6)], Prim(KU8+K(s.N(4))))
				}
				return ArrTy(n, Prim(KU8+K(s.N(4))))
			}
			if n == 0 && inSeq && !g.cfg.ZeroSized {
				n = 1
			}
			el := g.ty(depth-1, true)
			return ArrTy(n, el)
		case 4, 5, 6:
			return SliceTy(g.elem(depth - 1))
		case 7:
			if g.cfg.NoMap {
				continue
			}
			return MapTy(g.key(depth-1), g.ty(depth-1, false))
		case 8, 9, 10:
			t := g.structTy(depth - 1)
			if inSeq && t.MinSize() == 0 && !g.cfg.ZeroSized {
				t.Fields = append(t.Fields, &Fld{Name: fmt.Sprintf("Pad%d", len(t.Fields)), Ty: Prim(KU8)})
			}
			return t
		case 11:
			if g.cfg.NoPtr {
				continue
			}
			return PtrTy(g.pointee(depth-1, inSeq))
		case 12:
			if g.cfg.E != Borsh || g.cfg.NoEnum {
				continue
			}
			return g.enumTy(depth - 1)
		case 13:
			if !g.cfg.NoRec && chance(s, 1, 3) && !g.cfg.NoOptional && !g.cfg.NoPtr {
				return StaticRecursive[s.N(len(StaticRecursive))]
			}
			if t := StaticComposite[s.N(len(StaticComposite))]; g.allowed(t) {
				return t
			}
		}
	}
}

// allowed: does a declared type keep to the configuration?
func (g *tyGen) allowed(t *Ty) bool {
	ok := true
	c := &g.cfg
	t.Walk(func(x *Ty) {
		if c.NoMap && x.K == KMap || c.NoPtr && x.K == KPtr || c.NoCustom && x.K == KCustom {
			ok = false
		}
		for _, f := range x.Fields {
			if c.NoTags && f.Tag() != "" || c.NoOptional && (f.Opt || f.COpt) || c.NoSizeOf && f.SizeOf != "" ||
				c.NoBig && f.Big || c.NoSkip && !f.OnWire() {
				ok = false
			}
		}
	})
	return ok
}

// tower draws a deeply nested type.
func (g *tyGen) tower() *Ty {
	s := g.s
	t := g.elem(2)
	for n := 5 + s.N(30); n > 0; n-- {
		switch s.N(6) {
		case 0, 1:
			if t.K == KCustom && g.cfg.NoNilQuirk && t.IsUintKind() {
				continue
			}
			t = SliceTy(t)
		case 2:
			if t.K == KCustom && g.cfg.NoNilQuirk && t.IsUintKind() {
				continue
			}
			t = ArrTy(1, t)
		case 3:
			if g.cfg.NoMap {
				continue
			}
			t = MapTy([]*Ty{Prim(KU8), Prim(KStr), Prim(KI32)}[s.N(3)], t)
		case 4:
			if g.cfg.NoPtr {
				continue
			}
			t = PtrTy(t)
		default:
			f := &Fld{Name: g.fieldName(), Ty: t}
			g.fieldTags(f)
			t = StructTy(f)
			if f.Ty.MinSize() == 0 || chance(s, 1, 4) {
				t.Fields = append(t.Fields, &Fld{Name: g.fieldName(), Ty: g.prim()})
			}
		}
	}
	return t
}

func (g *tyGen) elem(depth int) *Ty {
	t := g.ty(depth, true)
	if t.MinSize() == 0 && !g.cfg.ZeroSized {
		return Prim(KU16)
	}
	return t
}

func (g *tyGen) pointee(depth int, inSeq bool) *Ty {
	if !g.cfg.NoCustom && chance(g.s, 1, 6) {
		return CustomTy(CustomByName["CPtr"])
	}
	for {
		t := g.ty(depth, inSeq)
		if t.K != KPtr || chance(g.s, 1, 4) {
			return t
		}
	}
}

func (g *tyGen) leaf(inSeq bool) *Ty {
	if g.cfg.NoCustom || !chance(g.s, 1, 3) {
		return g.prim()
	}
	for {
		c := Customs[g.s.N(len(Customs))]
		if c.PtrRecv {
			if g.cfg.NoPtr {
				continue
			}
			return PtrTy(CustomTy(c))
		}
		t := CustomTy(c)
		if inSeq && g.cfg.NoNilQuirk && t.IsUintKind() {
			continue
		}
		return t
	}
}

func (g *tyGen) key(depth int) *Ty {
	s := g.s
	for {
		var t *Ty
		switch s.N(8) {
		case 0:
			if g.cfg.NoCustom {
				continue
			}
			c := Customs[s.N(len(Customs))]
			if !c.Key {
				continue
			}
			t = CustomTy(c)
		case 1:
			switch s.N(5) {
			case 0:
				t = ArrTy(1+s.N(3), Prim(KU8+K(s.N(4))))
			case 1:
				if g.cfg.E == Borsh { // structs as keys are left open there
					continue
				}
				t = StaticByName["MyPoint"]
			case 2: // like a public key
				t = ArrTy(20+s.N(20), Prim(KU8))
			case 3:
				t = ArrTy(1+s.N(3), g.prim())
				if s.N(3) == 0 {
					t = ArrTy(1+s.N(2), t)
				}
			default:
				t = Prim(KBool)
			}
		default:
			t = g.prim()
		}
		return t
	}
}

func (g *tyGen) fieldName() string {
	if g.pend != "" {
		n := g.pend
		g.pend = ""
		return n
	}
	g.next++
	if g.next < 60 && chance(g.s, 1, 12) {
		switch g.s.N(4) {
		case 0: // differ only in case
			g.pend = fmt.Sprintf("FA%d", g.next)
			return fmt.Sprintf("Fa%d", g.next)
		case 1: // one a prefix of the other
			g.pend = fmt.Sprintf("F%dx", g.next)
		case 2:
			return fmt.Sprintf("Ünïcode_%d", g.next)
		case 3:
			g.pend = fmt.Sprintf("%s%dB", strings.Repeat("Long", 20), g.next)
			return fmt.Sprintf("%s%dA", strings.Repeat("Long", 20), g.next)
		}
	}
	return fmt.Sprintf("F%d", g.next)
}

func (g *tyGen) structTy(depth int) *Ty {
	s := g.s
	t := &Ty{K: KStruct}
	n := s.N(g.cfg.MaxFields + 1)
	if depth >= 3 && g.wide == 0 && chance(s, 1, 50) { // a wide one
		g.wide++
		n = 8 + s.N(70)
		depth = 2
	}
	for i := 0; i < n; i++ {
		if !g.cfg.NoSizeOf && !g.cfg.NoTags && chance(s, 1, 9) {
			g.sized(t, depth)
			continue
		}
		f := &Fld{Name: g.fieldName()}
		if !g.cfg.NoSkip && !g.cfg.NoTags && chance(s, 1, 9) {
			f.Ty = g.ty(min(depth, 2), false)
			switch s.N(5) {
			case 0:
				f.Skip = 1
			case 1:
				f.Skip = 2
			case 2:
				f.Skip = 3
			case 3:
				f.Unexp = true
				f.Name = "u" + f.Name
			default:
				if g.cfg.NoIface {
					f.Skip = 1
				} else {
					f.Ty = &Ty{K: KIface}
				}
			}
			t.Fields = append(t.Fields, f)
			continue
		}
		f.Ty = g.ty(depth, false)
		g.fieldTags(f)
		t.Fields = append(t.Fields, f)
	}
	return t
}

func (g *tyGen) fieldTags(f *Fld) {
	s := g.s
	if g.cfg.NoTags {
		return
	}
	if chance(s, 1, 6) {
		f.TagVar = 1 + s.N(7)
	}
	if !g.cfg.NoOptional && chance(s, 1, 4) && !(f.Ty.K == KPtr && f.Ty.Elem.K == KPtr) {
		if g.cfg.E == Borsh && chance(s, 2, 5) {
			f.COpt = true
		} else {
			f.Opt = true
			f.OptTag = []string{"optional", "option"}[s.N(2)]
		}
		if !g.cfg.NoPtr && f.Ty.K != KPtr && chance(s, 2, 3) {
			f.Ty = PtrTy(f.Ty)
		}
	}
	if !g.cfg.NoBig && chance(s, 1, 4) {
		base := f.Ty
		for base.K == KPtr {
			base = base.Elem
		}
		if g.cfg.E != Borsh || g.cfg.OrderedBig || !(base.K == KCustom && base.C.Ordered) {
			f.Big = true
		}
	} else if chance(s, 1, 12) {
		f.Little = true
	}
}

var countKinds = []K{KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64}

// sized appends a count field, perhaps something in between, and its slice.
func (g *tyGen) sized(t *Ty, depth int) {
	s := g.s
	cnt := &Fld{Name: g.fieldName()}
	cnt.Ty = Prim(countKinds[s.N(len(countKinds))])
	if chance(s, 1, 5) {
		cnt.Ty = StaticPrims[1+s.N(8)] // MyU8..MyI64
	} else if !g.cfg.NoCustom && chance(s, 1, 6) {
		cnt.Ty = CustomTy(CustomByName[[]string{"bin.Varuint16", "bin.Varuint32", "bin.Varint32", "bin.Uint64", "CInt"}[s.N(5)]])
	}
	sl := &Fld{Name: g.fieldName(), Sized: cnt.Name}
	sl.Ty = SliceTy(g.elem(max(1, depth-1)))
	cnt.SizeOf = sl.Name
	if !g.cfg.NoBig && chance(s, 1, 4) && !(g.cfg.E == Borsh && cnt.Ty.K == KCustom) {
		cnt.Big = true
	}
	t.Fields = append(t.Fields, cnt)
	if chance(s, 1, 3) {
		f := &Fld{Name: g.fieldName(), Ty: g.ty(1, false)}
		g.fieldTags(f)
		t.Fields = append(t.Fields, f)
	}
	if chance(s, 1, 6) {
		cnt.TagVar, sl.TagVar = s.N(8), s.N(8)
	}
	if !g.cfg.NoOptional && chance(s, 1, 6) {
		sl.Opt = true
	}
	if !g.cfg.NoPtr && chance(s, 1, 8) {
		sl.Ty = PtrTy(sl.Ty)
	}
	t.Fields = append(t.Fields, sl)
}

func (g *tyGen) enumTy(depth int) *Ty {
	s := g.s
	t := &Ty{K: KEnum, N: s.N(2)}
	if s.N(4) == 0 {
		t.N = s.N(len(enumTags))
	}
	n := 1 + s.N(5)
	for i := 0; i < n; i++ {
		f := &Fld{Name: g.fieldName()}
		switch s.N(5) {
		case 0:
			f.Ty = EmptyTy
		case 1:
			if g.cfg.NoPtr {
				f.Ty = g.ty(depth, false)
			} else {
				f.Ty = PtrTy(g.pointee(depth, false))
			}
		default:
			f.Ty = g.ty(depth, false)
		}
		t.Fields = append(t.Fields, f)
	}
	return t
}

// EmptyTy is the payload of a unit variant.
var EmptyTy = &Ty{K: KStruct, Name: "bin.EmptyVariant", rt: emptyVariantRT}

func init() { StaticByName["bin.EmptyVariant"] = EmptyTy }

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------

// VCtx is the state of value generation.
type VCtx struct {
	E     Enc
	S     Src
	Bulk  int  // how many long sequences may still be generated
	NoNaN bool // never NaN, in any encoding
	depth int
	// FillUnselected fills the unselected variants of enums too.
	FillUnselected bool
	// FillSkipped fills the fields that are not encoded.
	FillSkipped bool
	// HugeMaps allows maps of more than 2000 entries.
	HugeMaps bool
	// Giant makes the first sequence longer than 16 bits can count.
	Giant bool
}

// genCase draws a type and a value of it; now and then a giant.
func genCase(s Src, cfg TyCfg, set func(*VCtx)) (*Ty, reflect.Value) {
	giant := rare(s, 800)
	var ty *Ty
	var c *VCtx
	if giant {
		ty = giantTy(s)
		S.Class("more entries than 16 bits can count")
		c = &VCtx{E: cfg.E, S: s, Bulk: 1, Giant: true}
	} else {
		ty = GenTy(s, cfg)
		c = NewVCtx(s, cfg.E)
	}
	set(c)
	return ty, GenVal(c, ty)
}

// giantTy draws a cheap type with a sequence.
func giantTy(s Src) *Ty {
	elem := func() *Ty {
		switch s.N(12) {
		case 0:
			return Prim(KStr)
		case 1:
			return StructTy(&Fld{Name: "A", Ty: Prim(KU8)}, &Fld{Name: "B", Ty: Prim(KI16), Opt: true})
		case 2:
			return SliceTy(Prim(KU8))
		case 3:
			return PtrTy(Prim(KU16))
		case 4:
			return ArrTy(2, Prim(KI8))
		case 5:
			return MapTy(Prim(KU8), Prim(KU8))
		default:
			return Prim([]K{KBool, KU8, KU16, KU32, KU64, KI8, KI16, KI32, KI64, KF32, KF64}[s.N(11)])
		}
	}
	var t *Ty
	if s.N(2) == 0 {
		t = MapTy(Prim([]K{KU32, KU64, KStr}[s.N(3)]), elem())
	} else {
		t = SliceTy(elem())
	}
	switch s.N(4) {
	case 0:
		t = StructTy(&Fld{Name: "X", Ty: t}, &Fld{Name: "Y", Ty: Prim(KU16)})
	case 1:
		t = StructTy(&Fld{Name: "X", Ty: PtrTy(t), Opt: true}, &Fld{Name: "Y", Ty: Prim(KU16)})
	}
	return t
}

var giantLens = []int{65535, 65536, 65537, 65540, 66000, 70000, 131072, 131080}

// NewVCtx decides whether the case may have long sequences.
func NewVCtx(s Src, e Enc) *VCtx {
	c := &VCtx{E: e, S: s, FillSkipped: true}
	if chance(s, 1, 8) {
		c.Bulk = 1
	}
	return c
}

var bulkLens = []int{127, 128, 129, 255, 256, 257, 300, 1000, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071}

// bulkLen draws the length of a long sequence: around the limits of the length
// prefixes, around a power of two, or any.
func bulkLen(s Src) int {
	switch s.N(8) {
	case 0, 1, 2:
		return bulkLens[s.N(len(bulkLens))]
	case 3, 4:
		return 20 + s.N(110)
	case 5:
		return 130 + s.N(6000)
	case 6:
		return 1<<uint(5+s.N(13)) + s.N(3) - 1
	default:
		if chance(s, 1, 12) {
			return 1<<20 + s.N(3) - 1
		}
		return 6000 + s.N(80000)
	}
}

func (c *VCtx) seqLen(ty *Ty) (int, Src) {
	if c.Giant && c.Bulk > 0 {
		c.Bulk--
		n := giantLens[c.S.N(len(giantLens))]
		if c.E == Compact {
			n = 65535 - c.S.N(3)
		}
		return n, &PR{X: c.S.U64()}
	}
	if c.Bulk > 0 && chance(c.S, 1, 2) {
		c.Bulk--
		n := bulkLen(c.S)
		if c.E == Compact && n > 65535 {
			n = 65535
		}
		// bound the work by what an element costs
		cost := 1
		if ty != nil {
			ty.Walk(func(x *Ty) {
				cost++
				if x.K == KArr {
					cost += x.N
				}
				if x.K == KMap || x.K == KSlice || (x.K == KStruct && x.Name != "") {
					cost += 5
				}
			})
		}
		if n > 200000 && ty != nil && ty.K != KU8 {
			n = 70000
		}
		if cost > 3 && n > 2000 {
			if cost < 12 && chance(c.S, 1, 10) {
				n = 1000 + n%12000
			} else {
				n = 130 + n%900
			}
		}
		if cost > 20 && n > 300 {
			n = 20 + n%110
		}
		return n, &PR{X: c.S.U64()}
	}
	return smallLen(c.S), c.S
}

// Val draws a value; v must be settable and zero.
func (c *VCtx) Val(ty *Ty, v reflect.Value) {
	c.depth++
	defer func() { c.depth-- }()
	s := c.S
	nan := c.E != Borsh && !c.NoNaN
	switch ty.K {
	case KBool:
		v.SetBool(s.N(2) == 1)
	case KU8, KU16, KU32, KU64:
		v.SetUint(GenUint(s, 8<<uint(ty.K-KU8)))
	case KI8, KI16, KI32, KI64:
		v.SetInt(GenInt(s, 8<<uint(ty.K-KI8)))
	case KF32:
		v.SetFloat(float64(GenF32(s, nan)))
	case KF64:
		v.SetFloat(GenF64(s, nan))
	case KStr:
		n, src := c.seqLen(nil)
		v.SetString(GenString(src, n))
	case KArr:
		for i := 0; i < ty.N; i++ {
			c.Val(ty.Elem, v.Index(i))
		}
	case KSlice:
		n, src := c.seqLen(ty.Elem)
		c.slice(ty, v, n, src)
	case KMap:
		n, src := c.seqLen(ty.Elem)
		huge := false
		if n > 2000 {
			if huge = c.Giant; huge {
			} else if huge = c.HugeMaps && hugeKey(ty.Key) && chance(src, 1, 3); huge {
				n = []int{16383, 16384, 16385, 16385, 20000, 65535, 65536}[src.N(7)]
				if c.E == Compact {
					n = min(n, 65535)
				}
			} else {
				n = 2000
			}
		}
		if c.depth > 6 {
			n = min(n, 1)
		}
		if n == 0 && s.N(2) == 0 {
			return // nil map
		}
		m := reflect.MakeMap(ty.RT())
		prefix := ""
		if ty.Key.K == KStr && n >= 2 && n <= 200 && chance(src, 1, 6) { // keys that differ late
			prefix = strings.Repeat(string(rune('a'+src.N(3))), []int{3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 255, 256, 1000}[src.N(14)])
		}
		c.with(src, func() {
			saved := c.NoNaN
			for i := 0; i < n; i++ {
				k := reflect.New(ty.Key.RT()).Elem()
				c.NoNaN = true
				switch {
				case huge && ty.Key.K == KStr:
					k.SetString(strconv.Itoa(i))
				case huge:
					k.SetUint(uint64(i))
				default:
					c.Val(ty.Key, k)
					if prefix != "" && k.Len() < 60000 {
						k.SetString(prefix + k.String())
					}
				}
				c.NoNaN = saved
				e := reflect.New(ty.Elem.RT()).Elem()
				c.Val(ty.Elem, e)
				m.SetMapIndex(k, e)
			}
		})
		v.Set(m)
	case KPtr:
		if c.E == Borsh && nilOK(ty.Elem) && chance(s, 1, 5) {
			return
		}
		p := reflect.New(ty.Elem.RT())
		c.Val(ty.Elem, p.Elem())
		v.Set(p)
	case KCustom:
		v.Set(ty.C.Gen(s, c.E))
	case KIface:
		// anything that is not a marshaler
		if c.FillSkipped && s.N(2) == 0 {
			v.Set(reflect.ValueOf(uint16(7)))
		}
	case KStruct:
		c.fields(ty, v)
		if ty.Name == "MyList" && c.depth < 4 && chance(s, 1, 6) {
			c.longList(v)
		}
	case KEnum:
		if c.E != Borsh {
			v.Field(0).SetUint(GenUint(s, 8))
			c.fields(ty, v)
			return
		}
		d := s.N(len(ty.Fields))
		v.Field(0).SetUint(uint64(d))
		for i, f := range ty.Fields {
			if i == d || (c.FillUnselected && s.N(2) == 0) {
				c.Val(f.Ty, v.Field(i+1))
			}
		}
	}
}

// longList appends to a list.
func (c *VCtx) longList(v reflect.Value) {
	src := &PR{X: c.S.U64()}
	n := []int{10 + src.N(30), 62 + src.N(5), 98 + src.N(5), 126 + src.N(5), 254 + src.N(4), 1000}[c.S.N(6)]
	l := v.Addr().Interface().(*MyList)
	for l.Next != nil {
		l = l.Next
	}
	for ; n > 0; n-- {
		l.Next = &MyList{V: uint16(GenUint(src, 16))}
		l = l.Next
	}
}

// hugeKey: can maps with this key have many entries?
func hugeKey(ty *Ty) bool { return ty.K == KStr || ty.K == KU16 || ty.K == KU32 || ty.K == KU64 }

func (c *VCtx) with(src Src, fn func()) {
	old := c.S
	c.S = src
	fn()
	c.S = old
}

func (c *VCtx) slice(ty *Ty, v reflect.Value, n int, src Src) {
	if c.depth > 6 {
		n = min(n, 1)
	}
	if c.depth > 8 && ty.Elem.K == KPtr {
		n = 0 // recursive
	}
	if n == 0 && c.S.N(2) == 0 {
		return // nil
	}
	s := reflect.MakeSlice(ty.RT(), n, n)
	c.with(src, func() {
		runs := n >= 2 && ty.Elem.flat() && chance(src, 1, 10)
		for i := 0; i < n; i++ {
			if runs && i > 0 && src.N(4) > 0 { // runs of equal elements
				s.Index(i).Set(s.Index(i - 1))
				continue
			}
			c.Val(ty.Elem, s.Index(i))
		}
	})
	v.Set(s)
}

func (c *VCtx) fields(ty *Ty, v reflect.Value) {
	for i, f := range ty.Fields {
		fv := ty.FieldValue(v, i)
		if f.Unexp {
			continue
		}
		if !f.OnWire() {
			if c.FillSkipped && c.S.N(2) == 0 {
				c.Val(f.Ty, fv)
			}
			continue
		}
		if f.SizeOf != "" {
			continue // set with its slice
		}
		if f.Opt || f.COpt {
			absent := chance(c.S, 2, 5)
			if c.E != Borsh && !f.Opt {
				absent = false
			}
			if c.depth > 100 || (f.Ty.K == KPtr && f.Ty.Elem == ty && c.depth > 8) {
				absent = true
			}
			if absent {
				if f.Sized != "" {
					setCount(ty.FieldValue(v, ty.FieldIndex(f.Sized)), c.S.N(5))
				}
				continue
			}
			if f.Ty.K == KPtr {
				p := reflect.New(f.Ty.Elem.RT())
				c.fieldVal(ty, v, f, f.Ty.Elem, p.Elem())
				fv.Set(p)
				continue
			}
		}
		c.fieldVal(ty, v, f, f.Ty, fv)
	}
}

func (c *VCtx) fieldVal(ty *Ty, v reflect.Value, f *Fld, fty *Ty, fv reflect.Value) {
	if f.Sized == "" {
		c.Val(fty, fv)
		return
	}
	cf := ty.Fields[ty.FieldIndex(f.Sized)]
	cv := ty.FieldValue(v, ty.FieldIndex(f.Sized))
	n, src := c.seqLen(fty.Elem)
	if fty.K == KPtr { // non-optional pointer to the slice
		p := reflect.New(fty.Elem.RT())
		fv.Set(p)
		fty, fv = fty.Elem, p.Elem()
	}
	lim := 1 << 30
	switch cf.Ty.RT().Kind() {
	case reflect.Uint8:
		lim = 255
	case reflect.Int8:
		lim = 127
	case reflect.Uint16:
		lim = 65535
	case reflect.Int16:
		lim = 32767
	}
	if n > lim {
		n = lim
	}
	c.slice(fty, fv, n, src)
	setCount(cv, fv.Len())
}

func setCount(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(n))
	default:
		v.SetUint(uint64(n))
	}
}

// nilOK: may a nil *T stand for the zero value of T (Borsh)? Not when T, or a
// pointer reachable from its zero value, has a custom form.
func nilOK(ty *Ty) bool { return nilOKRec(ty, map[*Ty]bool{}) }

func nilOKRec(ty *Ty, seen map[*Ty]bool) bool {
	if seen[ty] {
		return false // infinite zero value
	}
	seen[ty] = true
	defer delete(seen, ty)
	switch ty.K {
	case KCustom:
		return false
	case KPtr:
		return nilOKRec(ty.Elem, seen)
	case KArr:
		return ty.N == 0 || zeroOK(ty.Elem, seen)
	case KStruct:
		for _, f := range ty.Fields {
			if f.OnWire() && !f.Opt && !f.COpt && !zeroOK(f.Ty, seen) {
				return false
			}
		}
	case KEnum:
		return zeroOK(ty.Fields[0].Ty, seen)
	}
	return true
}

// zeroOK: can the zero value of ty be encoded? (A custom value can; a nil
// pointer to one cannot.)
func zeroOK(ty *Ty, seen map[*Ty]bool) bool {
	if ty.K == KCustom {
		return !ty.C.PtrRecv
	}
	return nilOKRec(ty, seen)
}

// GenVal draws a fresh addressable value of ty.
func GenVal(c *VCtx, ty *Ty) reflect.Value {
	v := reflect.New(ty.RT()).Elem()
	c.Val(ty, v)
	return v
}
