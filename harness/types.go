package harness

import (
	"fmt"
	"reflect"
	"strings"

	bin "github.com/gagliardetto/binary"
)

// K is the kind of a schema node.
type K uint8

const (
	KBool K = iota
	KU8
	KU16
	KU32
	KU64
	KI8
	KI16
	KI32
	KI64
	KF32
	KF64
	KStr
	KArr
	KSlice
	KMap
	KStruct
	KPtr
	KCustom
	KEnum  // Borsh "complex enum" struct
	KIface // interface{}: never on the wire
)

// Ty is a node of the schema language. A Ty describes both a Go type and,
// independently of the library, what its values look like on the wire.
type Ty struct {
	K      K
	Name   string // static (declared) Go type, "" when built with reflect
	Elem   *Ty
	Key    *Ty
	N      int
	Fields []*Fld
	C      *Custom
	rt     reflect.Type
}

// Fld is a struct field (or an enum variant).
type Fld struct {
	Name   string
	Ty     *Ty
	Opt    bool
	OptTag string // "optional" or "option"
	COpt   bool
	Big    bool
	Little bool
	Skip   int // 0: no; 1: bin:"-"; 2: bin:"skip"; 3: borsh_skip:"true"
	Unexp  bool
	Ext    bool
	SizeOf string // names the later slice this field counts
	Sized  string // for the slice: the name of the field that counts it
	TagVar int    // ways to write the same tag: 1: other order; 2: after a json tag; 4: before a false borsh_skip
}

func (f *Fld) OnWire() bool { return f.Skip == 0 && !f.Unexp && f.Ty.K != KIface }

func (f *Fld) Tag() reflect.StructTag {
	var parts []string
	if f.SizeOf != "" {
		parts = append(parts, "sizeof="+f.SizeOf)
	}
	if f.Big {
		parts = append(parts, "big")
	}
	if f.Little {
		parts = append(parts, "little")
	}
	if f.Opt {
		if f.OptTag == "" {
			parts = append(parts, "optional")
		} else {
			parts = append(parts, f.OptTag)
		}
	}
	if f.COpt {
		parts = append(parts, "coption")
	}
	if f.Ext {
		parts = append(parts, "binary_extension")
	}
	switch f.Skip {
	case 1:
		parts = append(parts, "-")
	case 2:
		parts = append(parts, "skip")
	}
	if f.TagVar&1 != 0 {
		for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	s := ""
	if len(parts) > 0 {
		sep := " "
		if f.TagVar == 7 {
			sep = "  "
		}
		s = fmt.Sprintf("bin:%q", strings.Join(parts, sep))
	}
	if f.Skip == 3 {
		if s != "" {
			s += " "
		}
		s += `borsh_skip:"true"`
	} else if f.TagVar&4 != 0 {
		if s != "" {
			s += " "
		}
		s += `borsh_skip:"false"`
	}
	if f.TagVar&2 != 0 {
		s = strings.TrimSpace(`json:"big,omitempty" ` + s)
	}
	return reflect.StructTag(s)
}

const pkgPath = "verif/harness"

var primRT = map[K]reflect.Type{
	KBool: reflect.TypeOf(false),
	KU8:   reflect.TypeOf(uint8(0)),
	KU16:  reflect.TypeOf(uint16(0)),
	KU32:  reflect.TypeOf(uint32(0)),
	KU64:  reflect.TypeOf(uint64(0)),
	KI8:   reflect.TypeOf(int8(0)),
	KI16:  reflect.TypeOf(int16(0)),
	KI32:  reflect.TypeOf(int32(0)),
	KI64:  reflect.TypeOf(int64(0)),
	KF32:  reflect.TypeOf(float32(0)),
	KF64:  reflect.TypeOf(float64(0)),
	KStr:  reflect.TypeOf(""),
}

var ifaceRT = reflect.TypeOf((*interface{})(nil)).Elem()
var borshEnumRT = reflect.TypeOf(bin.BorshEnum(0))
var emptyVariantRT = reflect.TypeOf(bin.EmptyVariant{})

// RT returns the Go type of the schema node.
func (ty *Ty) RT() reflect.Type {
	if ty.rt != nil {
		return ty.rt
	}
	switch ty.K {
	case KArr:
		ty.rt = reflect.ArrayOf(ty.N, ty.Elem.RT())
	case KSlice:
		ty.rt = reflect.SliceOf(ty.Elem.RT())
	case KMap:
		ty.rt = reflect.MapOf(ty.Key.RT(), ty.Elem.RT())
	case KPtr:
		ty.rt = reflect.PointerTo(ty.Elem.RT())
	case KIface:
		ty.rt = ifaceRT
	case KCustom:
		ty.rt = ty.C.RT
	case KStruct, KEnum:
		var sf []reflect.StructField
		if ty.K == KEnum {
			tag := enumTags[ty.N%len(enumTags)]
			sf = append(sf, reflect.StructField{Name: "Enum", Type: borshEnumRT, Tag: tag})
		}
		for _, f := range ty.Fields {
			x := reflect.StructField{Name: f.Name, Type: f.Ty.RT(), Tag: f.Tag()}
			if f.Unexp {
				x.PkgPath = pkgPath
			}
			sf = append(sf, x)
		}
		ty.rt = reflect.StructOf(sf)
	default:
		ty.rt = primRT[ty.K]
	}
	return ty.rt
}

func (ty *Ty) IsUintKind() bool {
	switch ty.RT().Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// enumTags are the ways to mark the selector of an enum.
var enumTags = []reflect.StructTag{
	`borsh_enum:"true"`,
	`bin:"enum"`,
	`borsh_enum:"true" bin:"little"`,
	`bin:"enum" borsh_enum:"false"`,
	`json:"kind" borsh_enum:"true"`,
	`json:"enum" bin:"enum"`,
	`borsh_enum:" true" borsh_skip:"false"`,
	`bin:"little enum"`,
}

// FieldValue returns the struct field value for Fields[i].
func (ty *Ty) FieldValue(v reflect.Value, i int) reflect.Value {
	if ty.K == KEnum {
		return v.Field(i + 1)
	}
	return v.Field(i)
}

func (ty *Ty) FieldIndex(name string) int {
	for i, f := range ty.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// Walk visits every node once.
func (ty *Ty) Walk(fn func(*Ty)) { ty.walk(fn, map[*Ty]bool{}) }

func (ty *Ty) walk(fn func(*Ty), seen map[*Ty]bool) {
	if seen[ty] {
		return
	}
	seen[ty] = true
	fn(ty)
	if ty.Elem != nil {
		ty.Elem.walk(fn, seen)
	}
	if ty.Key != nil {
		ty.Key.walk(fn, seen)
	}
	for _, f := range ty.Fields {
		f.Ty.walk(fn, seen)
	}
}

// MinSize is a lower bound on the number of encoded bytes of any value; what
// matters is whether it is zero.
func (ty *Ty) MinSize() int { return ty.minSize(map[*Ty]bool{}) }

func (ty *Ty) minSize(seen map[*Ty]bool) int {
	switch ty.K {
	case KArr:
		if ty.N == 0 {
			return 0
		}
		return ty.N * ty.Elem.minSize(seen)
	case KStruct:
		if seen[ty] {
			return 0
		}
		seen[ty] = true
		n := 0
		for _, f := range ty.Fields {
			if !f.OnWire() || f.Ext {
				continue
			}
			if f.Opt {
				n++
			} else if f.COpt { // a flag in Borsh only
				n += min(1, f.Ty.minSize(seen))
			} else if f.Sized != "" {
			} else {
				n += f.Ty.minSize(seen)
			}
		}
		delete(seen, ty)
		return n
	case KPtr:
		return ty.Elem.minSize(seen)
	case KCustom:
		return ty.C.MinSize
	case KIface:
		return 0
	}
	return 1
}

func (ty *Ty) String() string {
	if ty.Name != "" {
		return ty.Name
	}
	switch ty.K {
	case KArr:
		return fmt.Sprintf("[%d]%s", ty.N, ty.Elem)
	case KSlice:
		return "[]" + ty.Elem.String()
	case KMap:
		return fmt.Sprintf("map[%s]%s", ty.Key, ty.Elem)
	case KPtr:
		return "*" + ty.Elem.String()
	case KIface:
		return "interface{}"
	case KCustom:
		return ty.C.Name
	case KStruct, KEnum:
		var p []string
		if ty.K == KEnum {
			p = append(p, "Enum bin.BorshEnum")
		}
		for _, f := range ty.Fields {
			s := f.Name + " " + f.Ty.String()
			if t := f.Tag(); t != "" {
				s += " `" + string(t) + "`"
			}
			p = append(p, s)
		}
		return "struct{" + strings.Join(p, "; ") + "}"
	}
	return primRT[ty.K].String()
}

func Prim(k K) *Ty           { return &Ty{K: k} }
func SliceTy(e *Ty) *Ty      { return &Ty{K: KSlice, Elem: e} }
func PtrTy(e *Ty) *Ty        { return &Ty{K: KPtr, Elem: e} }
func ArrTy(n int, e *Ty) *Ty { return &Ty{K: KArr, N: n, Elem: e} }
func MapTy(k, e *Ty) *Ty     { return &Ty{K: KMap, Key: k, Elem: e} }
func StructTy(f ...*Fld) *Ty { return &Ty{K: KStruct, Fields: f} }
func CustomTy(c *Custom) *Ty { return &Ty{K: KCustom, C: c} }

// flat: no part of a value is shared by assigning it.
func (ty *Ty) flat() bool {
	switch ty.K {
	case KArr:
		return ty.Elem.flat()
	case KStruct:
		for _, f := range ty.Fields {
			if f.Unexp || !f.Ty.flat() {
				return false
			}
		}
		return ty.Name == ""
	}
	return ty.K <= KStr
}
