// Package harness holds the generators, reference models and property checks
// for go-amino. Everything goes through the exported API of go-amino.
package harness

import (
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- named types

type (
	MyBool bool
	MyInt  int
	MyI8   int8
	MyI16  int16
	MyI32  int32
	MyI64  int64
	MyUint uint
	MyU8   uint8
	MyU16  uint16
	MyU32  uint32
	MyU64  uint64
	MyF32  float32
	MyF64  float64
	MyStr  string

	MyBytes    []byte
	MyByteList []MyU8
	MyArr4     [4]byte
	MyU8Arr    [5]MyU8
	MyInts     []int32
	MyStrs     []string
	MyStrArr   [2]string
	MyTimes    []time.Time
	MyBB       [][]byte
	MyI64s     []int64
)

// Inner is used by value, pointer and embedded.
type Inner struct {
	A     int32
	B     string
	unexp int //nolint
	T     time.Time
}

type lowerEmb struct{ Q int }

// Emb embeds structs; exported embedded structs are ordinary fields.
type Emb struct {
	Inner
	lowerEmb
	*Leaf
	X int
}

// Leaf is small.
type Leaf struct {
	N  int64
	By []byte
}

// Empty has no encodable fields.
type Empty struct {
	hidden int    //nolint
	Ex     string `json:"-"`
}

// Tree is recursive through pointers, slices of pointers and slices.
type Tree struct {
	V    int16
	Name string
	Kids []*Tree
	Next *Tree
	M    []Tree
}

// MutA and MutB are mutually recursive.
type MutA struct {
	B  *MutB
	Bs []MutB `json:"bs,omitempty"`
	F  uint32 `binary:"fixed32"`
}
type MutB struct {
	A *MutA
	S string `json:"s,omitempty"`
}

// Tagged uses every tag.
type Tagged struct {
	F64   int64   `binary:"fixed64" json:"f64"`
	U64   uint64  `binary:"fixed64" json:"u64,omitempty"`
	F32   int32   `binary:"fixed32"`
	U32   uint32  `binary:"fixed32"`
	L64   []int64 `binary:"fixed64"`
	P64   *uint64 `binary:"fixed64"`
	Skip  int     `json:"-"`
	Dash  int     `json:"-,"`
	Fl    float64 `amino:"unsafe"`
	Fs    float32 `amino:"unsafe" json:"fs,omitempty"`
	WE    int     `amino:"write_empty"`
	WEB   []byte  `amino:"write_empty"`
	WEP   *string `amino:"write_empty"`
	WES   Leaf    `amino:"write_empty"`
	EE    []*Leaf `amino:"empty_elements"`
	Arr   [2]*int64
	Bools []bool
	U     uint `json:"u with \"quotes\" <&>"`
}

// Wide has more than 15 fields, so its last keys take two bytes.
type Wide struct {
	A1, A2, A3, A4, A5, A6, A7, A8 int8
	B1, B2, B3, B4, B5, B6, B7     string
	C16                            int32
	C17                            []string
	C18                            *Inner
	C19                            time.Time
	C20                            []int16
	C21                            [][]byte
}

// ---------------------------------------------------------------- AminoMarshalers
// The representation of each is the default value exactly when the value is,
// and has the same wire type.

type RInt int64

func (r RInt) MarshalAmino() (int64, error)  { return int64(bits.ReverseBytes64(uint64(r))), nil }
func (r *RInt) UnmarshalAmino(x int64) error { *r = RInt(bits.ReverseBytes64(uint64(x))); return nil }
func revBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}
func revRunes(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

type RStr string // only valid UTF-8

func (r RStr) MarshalAmino() (string, error)  { return revRunes(string(r)), nil }
func (r *RStr) UnmarshalAmino(x string) error { *r = RStr(revRunes(x)); return nil }

type RBytes []byte

func (r RBytes) MarshalAmino() ([]byte, error)  { return revBytes(r), nil }
func (r *RBytes) UnmarshalAmino(x []byte) error { *r = revBytes(x); return nil }

type RPair struct {
	A int32
	B string
	L []uint16
}

// RStruct keeps its state unexported.
type RStruct struct {
	a int32
	b string
	l []uint16
}

func cloneU16(l []uint16) []uint16 {
	if l == nil {
		return nil
	}
	return append([]uint16{}, l...)
}
func (r RStruct) MarshalAmino() (RPair, error) { return RPair{r.a, r.b, cloneU16(r.l)}, nil }
func (r *RStruct) UnmarshalAmino(x RPair) error {
	*r = RStruct{x.A, x.B, cloneU16(x.L)}
	return nil
}

// RNest is represented by a type with a representation of its own.
type RNest int64

func (r RNest) MarshalAmino() (RInt, error)  { return RInt(-r), nil }
func (r *RNest) UnmarshalAmino(x RInt) error { *r = RNest(-x); return nil }

type RArr [2]int32

func (r RArr) MarshalAmino() ([2]int32, error)  { return [2]int32{r[1], r[0]}, nil }
func (r *RArr) UnmarshalAmino(x [2]int32) error { *r = RArr{x[1], x[0]}; return nil }

type RList []string

func (r RList) MarshalAmino() ([]string, error) {
	var o []string
	for i := len(r) - 1; i >= 0; i-- {
		o = append(o, r[i])
	}
	if r != nil && o == nil {
		o = []string{}
	}
	return o, nil
}
func (r *RList) UnmarshalAmino(x []string) error {
	*r = nil
	for i := len(x) - 1; i >= 0; i-- {
		*r = append(*r, x[i])
	}
	if x != nil && *r == nil {
		*r = RList{}
	}
	return nil
}

// RMid has encodable neighbours of types with representations.
type RMid struct {
	P *RInt
	L []RStruct
	S RStr
	M []*RStruct
	A [2]RInt
}

func (r RMid) repr() RMidRepr { return RMidRepr{r.P, r.L, r.S, r.M, r.A} }

type RMidRepr struct {
	P *RInt
	L []RStruct
	S RStr
	M []*RStruct
	A [2]RInt
}

// errRepr is what failing representations return; checks may vary it.
var errRepr = errors.New("custom representation error 7f3a")

type (
	strErr    string
	intErr    int
	structErr struct{ Code int }
	ptrErr    struct{ Code int }
	listErr   []error
)

func (e strErr) Error() string    { return string(e) }
func (e intErr) Error() string    { return fmt.Sprintf("int error %d 7f3a", int(e)) }
func (e structErr) Error() string { return fmt.Sprintf("struct error %d 7f3a", e.Code) }
func (e *ptrErr) Error() string   { return "pointer error 7f3a" }
func (e listErr) Error() string   { return fmt.Sprintf("%d errors 7f3a", len(e)) }

var errKinds = []error{errRepr, strErr("string error 7f3a"), intErr(0), intErr(7), structErr{}, structErr{3}, &ptrErr{1}, (*ptrErr)(nil), listErr(nil), listErr{errRepr},
	fmt.Errorf("wrapped: %w", errRepr), errors.New("EOF 7f3a"), strErr("%d %s 100% 7f3a")}

// drawErrRepr picks what failing representations return in this case.
func drawErrRepr(t *rapid.T) func() {
	old := errRepr
	errRepr = pickFrom(t, errKinds, "errkind")
	return func() { errRepr = old }
}

// RFail fails to marshal when 13 and to unmarshal when 17.
type RFail int32

func (r RFail) MarshalAmino() (int32, error) {
	if r == 13 {
		return 0, errRepr
	}
	return int32(r), nil
}
func (r *RFail) UnmarshalAmino(x int32) error {
	if x == 17 {
		return errRepr
	}
	*r = RFail(x)
	return nil
}

// RFailS is a struct version of RFail.
type RFailS struct{ v int32 }
type RFailRepr struct{ V int32 }

func (r RFailS) MarshalAmino() (RFailRepr, error) {
	if r.v == 13 {
		return RFailRepr{}, errRepr
	}
	return RFailRepr{r.v}, nil
}
func (r *RFailS) UnmarshalAmino(x RFailRepr) error {
	if x.V == 17 {
		return errRepr
	}
	r.v = x.V
	return nil
}

// ---------------------------------------------------------------- interfaces and concretes

type (
	Any interface{}
	IA  interface{ A() }
	IB  interface{ B() }
	IAB interface {
		A()
		B()
	}
	// INone is implemented by no registered type.
	INone interface{ None() }
)

type CStruct struct {
	X int64
	S string
	P *int16
}

func (CStruct) A() {}
func (CStruct) B() {}

type CPtr struct {
	V  uint32
	Bs []byte
	Ks []CSmall
}

func (*CPtr) A() {}
func (*CPtr) B() {}

type CSmall struct{ N int8 }

func (CSmall) B() {}

type CInt int64

func (CInt) A() {}

type CStr string

func (CStr) A() {}
func (CStr) B() {}

type CBytes []byte

func (CBytes) A() {}

type CArr [4]byte

func (CArr) B() {}

type CList []int32

func (CList) A() {}
func (CList) B() {}

type CStrs []string

func (CStrs) A() {}

type CStructs []CSmall

func (CStructs) B() {}

type CBool bool

func (CBool) A() {}

type CU uint64

func (*CU) B() {}

type CNested struct {
	X IA
	Y []IB
	Z Any
	W [2]IAB
}

func (CNested) A() {}

type CTime struct {
	T  time.Time
	TP *time.Time
}

func (*CTime) A() {}

type CRepr RStruct

func (CRepr) B()                              {}
func (r CRepr) MarshalAmino() (RPair, error)  { return RStruct(r).MarshalAmino() }
func (r *CRepr) UnmarshalAmino(x RPair) error { return (*RStruct)(r).UnmarshalAmino(x) }

// CJson and CJsonP have a JSON form of their own.
type CJson int64

func (CJson) B()                              {}
func (j CJson) MarshalJSON() ([]byte, error)  { return JHex(j).MarshalJSON() }
func (j *CJson) UnmarshalJSON(b []byte) error { return (*JHex)(j).UnmarshalJSON(b) }

type CJsonP CSmall

func (*CJsonP) A()                            {}
func (*CJsonP) B()                            {}
func (j CJsonP) MarshalJSON() ([]byte, error) { return JHex(j.N).MarshalJSON() }
func (j *CJsonP) UnmarshalJSON(b []byte) error {
	var h JHex
	if err := h.UnmarshalJSON(b); err != nil || h != JHex(int8(h)) {
		return errJSONForm
	}
	j.N = int8(h)
	return nil
}

type CEmpty struct{}

func (CEmpty) A() {}
func (CEmpty) B() {}

func tof(x interface{}) reflect.Type { return reflect.TypeOf(x) }

var (
	timeType = tof(time.Time{})
	anyType  = tof((*Any)(nil)).Elem()
	iaType   = tof((*IA)(nil)).Elem()
	ibType   = tof((*IB)(nil)).Elem()
	iabType  = tof((*IAB)(nil)).Elem()
	inoneTyp = tof((*INone)(nil)).Elem()

	ifaceTypes = []reflect.Type{anyType, iaType, ibType, iabType}

	// concreteTypes can be registered; onlyPtr ones have pointer receivers.
	concreteTypes = []reflect.Type{tof(CStruct{}), tof(CPtr{}), tof(CSmall{}), tof(CInt(0)), tof(CStr("")),
		tof(CBytes{}), tof(CArr{}), tof(CList{}), tof(CStrs{}), tof(CStructs{}), tof(CBool(false)), tof(CU(0)),
		tof(CNested{}), tof(CTime{}), tof(CRepr{}), tof(CEmpty{}), timeType,
		tof(int(0)), tof(""), tof([]byte{}), tof(Inner{}), tof(Tagged{}), tof(MyI64s{}), tof(CJson(0)), tof(CJsonP{})}
	onlyPtr = map[reflect.Type]bool{tof(CPtr{}): true, tof(CU(0)): true, tof(CTime{}): true, tof(CJsonP{}): true}

	namedScalars = map[reflect.Kind]reflect.Type{reflect.Bool: tof(MyBool(false)), reflect.Int: tof(MyInt(0)),
		reflect.Int8: tof(MyI8(0)), reflect.Int16: tof(MyI16(0)), reflect.Int32: tof(MyI32(0)), reflect.Int64: tof(MyI64(0)),
		reflect.Uint: tof(MyUint(0)), reflect.Uint8: tof(MyU8(0)), reflect.Uint16: tof(MyU16(0)), reflect.Uint32: tof(MyU32(0)),
		reflect.Uint64: tof(MyU64(0)), reflect.Float32: tof(MyF32(0)), reflect.Float64: tof(MyF64(0)), reflect.String: tof(MyStr(""))}
	plainScalars = map[reflect.Kind]reflect.Type{reflect.Bool: tof(false), reflect.Int: tof(int(0)),
		reflect.Int8: tof(int8(0)), reflect.Int16: tof(int16(0)), reflect.Int32: tof(int32(0)), reflect.Int64: tof(int64(0)),
		reflect.Uint: tof(uint(0)), reflect.Uint8: tof(uint8(0)), reflect.Uint16: tof(uint16(0)), reflect.Uint32: tof(uint32(0)),
		reflect.Uint64: tof(uint64(0)), reflect.Float32: tof(float32(0)), reflect.Float64: tof(float64(0)), reflect.String: tof("")}

	staticStructs = []reflect.Type{tof(Inner{}), tof(Leaf{}), tof(Emb{}), tof(Empty{}), tof(Tree{}), tof(MutA{}), tof(Tagged{}), tof(Wide{})}
	// Types with a representation of their own, usable anywhere.
	reprTypes = []reflect.Type{tof(RInt(0)), tof(RStr("")), tof(RBytes{}), tof(RStruct{}), tof(RNest(0)), tof(RArr{})}
	// Named list types (one level).
	namedLists = []reflect.Type{tof(MyInts{}), tof(MyStrs{}), tof(MyStrArr{}), tof(MyTimes{}), tof(MyI64s{}), tof(RList{})}
	byteLists  = []reflect.Type{tof([]byte{}), tof(MyBytes{}), tof(MyByteList{}), tof(MyArr4{}), tof(MyU8Arr{}), tof([]MyU8{}),
		tof([0]byte{}), tof([1]byte{}), tof([20]byte{}), tof([130]byte{})}
)
