package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Types with a JSON form of their own (json.Marshaler and json.Unmarshaler).
// In binary they are like any other type.  What UnmarshalJSON does with a text
// depends on its tokens only, not on the white space.

var (
	errJSONForm   = errors.New("own JSON form error 51c9")
	marshalerType = tof((*json.Marshaler)(nil)).Elem()
	unmarshalType = tof((*json.Unmarshaler)(nil)).Elem()
)

// JHex is a number written as an object.
type JHex int64

func (j JHex) MarshalJSON() ([]byte, error) {
	return []byte(`{"hex":["` + strconv.FormatInt(int64(j), 16) + `"]}`), nil
}
func (j *JHex) UnmarshalJSON(b []byte) error {
	n, ok := parseJSON(b)
	if !ok || n.kind != 'o' || len(n.kids) != 1 || n.keys[0] != `"hex"` || n.kids[0].kind != 'a' || len(n.kids[0].kids) != 1 {
		return errJSONForm
	}
	s := n.kids[0].kids[0].raw
	if len(s) < 3 || s[0] != '"' {
		return errJSONForm
	}
	i, err := strconv.ParseInt(s[1:len(s)-1], 16, 64)
	if err != nil {
		return errJSONForm
	}
	*j = JHex(i)
	return nil
}

// JPair is a struct written as an array.
type JPair struct {
	A int32
	B string
}

func (j JPair) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%d,%s]", j.A, quoteName(j.B))), nil
}
func (j *JPair) UnmarshalJSON(b []byte) error {
	var l []json.RawMessage
	if json.Unmarshal(b, &l) != nil || len(l) != 2 || l[0][0] == 'n' || l[1][0] != '"' {
		return errJSONForm
	}
	var p JPair
	if json.Unmarshal(l[0], &p.A) != nil || json.Unmarshal(l[1], &p.B) != nil {
		return errJSONForm
	}
	*j = p
	return nil
}

// JList is a list written as one string; the nil list as any other.
type JList []int32

func (j JList) MarshalJSON() ([]byte, error) {
	var s []string
	for _, x := range j {
		s = append(s, strconv.Itoa(int(x)))
	}
	return []byte(`"` + strings.Join(s, " ") + `"`), nil
}
func (j *JList) UnmarshalJSON(b []byte) error {
	n, ok := parseJSON(b)
	if !ok || n.kind != 's' || n.raw[0] != '"' {
		return errJSONForm
	}
	var l JList
	if n.raw != `""` {
		for _, x := range strings.Split(n.raw[1:len(n.raw)-1], " ") {
			i, err := strconv.ParseInt(x, 10, 32)
			if err != nil {
				return errJSONForm
			}
			l = append(l, int32(i))
		}
	}
	*j = l
	return nil
}

// JStr is a string written as a number, or as null when it is empty.
type JStr string

func (j JStr) MarshalJSON() ([]byte, error) {
	if j == "" {
		return []byte("null"), nil
	}
	b := []byte{'1'}
	for i := 0; i < len(j); i++ {
		b = append(b, fmt.Sprintf("%03d", j[i])...)
	}
	return b, nil
}
func (j *JStr) UnmarshalJSON(b []byte) error {
	s := strings.TrimSpace(string(b))
	if len(s)%3 != 1 || s[0] != '1' || len(s) == 1 || strings.Trim(s, "0123456789") != "" {
		return errJSONForm
	}
	var out []byte
	for s = s[1:]; s != ""; s = s[3:] {
		i, err := strconv.ParseUint(s[:3], 10, 8)
		if err != nil {
			return errJSONForm
		}
		out = append(out, byte(i))
	}
	*j = JStr(out)
	return nil
}

// JBoth has a representation, too, which is used in binary only.
type JBoth struct{ n int64 }

type JBothRepr struct{ V int64 }

func (j JBoth) MarshalAmino() (JBothRepr, error)  { return JBothRepr{j.n}, nil }
func (j *JBoth) UnmarshalAmino(x JBothRepr) error { j.n = x.V; return nil }
func (j JBoth) MarshalJSON() ([]byte, error)      { return []byte(fmt.Sprintf(`"both %d"`, j.n)), nil }
func (j *JBoth) UnmarshalJSON(b []byte) error {
	n, ok := parseJSON(b)
	if !ok || n.kind != 's' || !strings.HasPrefix(n.raw, `"both `) {
		return errJSONForm
	}
	i, err := strconv.ParseInt(n.raw[6:len(n.raw)-1], 10, 64)
	if err != nil {
		return errJSONForm
	}
	j.n = i
	return nil
}

// JRaw takes any text but null as it is. The zero value is the empty object.
type JRaw struct{ Doc string }

func (j JRaw) MarshalJSON() ([]byte, error) {
	if j.Doc == "" {
		return []byte("{}"), nil
	}
	return []byte(j.Doc), nil
}
func (j *JRaw) UnmarshalJSON(b []byte) error {
	n, ok := parseJSON(b)
	if !ok {
		return errJSONForm
	}
	j.Doc = ""
	if s := string(n.bytes()); s != "{}" {
		j.Doc = s
	}
	return nil
}

// JFail fails to marshal when 13 and to unmarshal when 17.
type JFail int32

func (j JFail) MarshalJSON() ([]byte, error) {
	if j == 13 {
		return []byte("13"), errJSONForm
	}
	return []byte(strconv.Itoa(int(j))), nil
}
func (j *JFail) UnmarshalJSON(b []byte) error {
	n, ok := parseJSON(b)
	if !ok {
		return errJSONForm
	}
	i, err := strconv.ParseInt(n.raw, 10, 32)
	if err != nil || i == 17 {
		return errJSONForm
	}
	*j = JFail(i)
	return nil
}

// JHolder has them as fields and promoted methods nowhere.
type JHolder struct {
	H  JHex
	P  *JPair
	L  []JList
	S  JStr `json:"s,omitempty"`
	HP []*JHex
	O  *JBoth `json:"o,omitempty"`
	LO JList  `json:",omitempty"`
}

// JEmb gets the methods of its embedded field: the number isn't written.
type JEmb struct {
	JHex
	N int8
}

var jsonTypes = []reflect.Type{tof(JHex(0)), tof(JPair{}), tof(JList{}), tof(JStr("")), tof(JHolder{}), tof(JEmb{}), tof(JBoth{})}

// ownJSON returns the text of MarshalJSON, if the type has one.
func ownJSON(rv reflect.Value) (n *jnode, ok bool) {
	if rv.Type() == timeType || !rv.Type().Implements(marshalerType) || rv.Kind() == reflect.Interface {
		return nil, false
	}
	b, err := rv.Interface().(json.Marshaler).MarshalJSON()
	if err != nil {
		panic(err)
	}
	if n, ok = parseJSON(b); !ok {
		panic(fmt.Sprintf("MarshalJSON of %v returned %s", rv.Type(), b))
	}
	return n, true
}

// setOwnJSON calls UnmarshalJSON, if the type has one.
func setOwnJSON(n *jnode, dst reflect.Value) bool {
	if dst.Type() == timeType || !dst.Addr().Type().Implements(unmarshalType) {
		return false
	}
	if err := dst.Addr().Interface().(json.Unmarshaler).UnmarshalJSON(n.bytes()); err != nil {
		bad("%v", err)
	}
	return true
}
