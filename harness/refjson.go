package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// ---------------------------------------------------------------- JSON documents as trees of raw tokens

type jnode struct {
	kind      byte // 's'calar, 'o'bject, 'a'rray
	raw       string
	keys      []string // raw, with quotes
	kids      []*jnode
	unordered bool
}

func scalar(raw string) *jnode { return &jnode{kind: 's', raw: raw} }

func (n *jnode) write(b *bytes.Buffer) {
	switch n.kind {
	case 's':
		b.WriteString(n.raw)
	case 'a':
		b.WriteByte('[')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			k.write(b)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('{')
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(n.keys[i])
			b.WriteByte(':')
			k.write(b)
		}
		b.WriteByte('}')
	}
}

func (n *jnode) bytes() []byte {
	var b bytes.Buffer
	n.write(&b)
	return b.Bytes()
}

// sameAs compares with a document that was parsed; n says which objects have
// no order.
func (n *jnode) sameAs(m *jnode) bool {
	if n.kind != m.kind || n.raw != m.raw || len(n.kids) != len(m.kids) {
		return false
	}
	if n.unordered {
		at := map[string]*jnode{}
		for i, k := range m.keys {
			if at[k] != nil {
				return false
			}
			at[k] = m.kids[i]
		}
		for i, k := range n.keys {
			if at[k] == nil || !n.kids[i].sameAs(at[k]) {
				return false
			}
		}
		return true
	}
	for i := range n.kids {
		if n.kind == 'o' && n.keys[i] != m.keys[i] {
			return false
		}
		if !n.kids[i].sameAs(m.kids[i]) {
			return false
		}
	}
	return true
}

// parseJSON parses a valid document; whitespace is dropped.
func parseJSON(bz []byte) (*jnode, bool) {
	if !json.Valid(bz) {
		return nil, false
	}
	p := &jparser{bz, 0}
	return p.value(), true
}

type jparser struct {
	b []byte
	i int
}

func (p *jparser) ws() {
	for p.i < len(p.b) && strings.IndexByte(" \t\r\n", p.b[p.i]) >= 0 {
		p.i++
	}
}

func (p *jparser) str() string {
	s := p.i
	p.i++
	for p.b[p.i] != '"' {
		if p.b[p.i] == '\\' {
			p.i++
		}
		p.i++
	}
	p.i++
	return string(p.b[s:p.i])
}

func (p *jparser) value() *jnode {
	p.ws()
	n := &jnode{}
	switch c := p.b[p.i]; c {
	case '{', '[':
		n.kind = 'a'
		end := byte(']')
		if c == '{' {
			n.kind, end = 'o', '}'
		}
		p.i++
		for p.ws(); p.b[p.i] != end; p.ws() {
			if p.b[p.i] == ',' {
				p.i++
				p.ws()
			}
			if c == '{' {
				n.keys = append(n.keys, p.str())
				p.ws()
				p.i++ // colon
			}
			n.kids = append(n.kids, p.value())
		}
		p.i++
	case '"':
		n.kind, n.raw = 's', p.str()
	default:
		s := p.i
		for p.i < len(p.b) && strings.IndexByte(" \t\r\n,]}", p.b[p.i]) < 0 {
			p.i++
		}
		n.kind, n.raw = 's', string(p.b[s:p.i])
	}
	return n
}

// ---------------------------------------------------------------- reference JSON encoder

func stdJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// quoteName: a JSON string, with <, > and & as they are.
func quoteName(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(s))
	return strings.TrimSpace(b.String())
}

func (w *World) encTopJSON(rv reflect.Value) (n *jnode, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(error)
			if !ok || e != errUnsupported && e != errRepr {
				panic(r)
			}
			err = e
		}
	}()
	n = w.encJSON(rv, opts{})
	if c := w.byT[derefT(rv.Type())]; c != nil {
		n = wrapJSON(c, n)
	}
	return n, nil
}

func wrapJSON(c *Conc, n *jnode) *jnode {
	return &jnode{kind: 'o', keys: []string{`"type"`, `"value"`}, kids: []*jnode{scalar(quoteName(c.Name)), n}}
}

func (w *World) encJSON(rv reflect.Value, o opts) *jnode {
	rv, isNil := deref(rv)
	if isNil {
		return scalar("null")
	}
	rt := rv.Type()
	if rt == timeType {
		t := rv.Interface().(time.Time).UTC()
		if t.Year() < 0 || t.Year() > 9999 {
			panic(errUnsupported)
		}
		return scalar(`"` + t.Format("2006-01-02T15:04:05.999999999") + `Z"`)
	}
	if n, ok := ownJSON(rv); ok {
		return n
	}
	if rep, ok, err := reprOf(rv); err != nil {
		panic(err)
	} else if ok {
		return w.encJSON(rep, o)
	}
	switch rt.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return scalar("null")
		}
		cv, isNil := deref(rv.Elem())
		if isNil {
			panic(errUnsupported)
		}
		c := w.byT[cv.Type()]
		if c == nil {
			panic(errUnsupported)
		}
		return wrapJSON(c, w.encJSON(cv, o))
	case reflect.Slice, reflect.Array:
		if rt.Kind() == reflect.Slice && rv.IsNil() {
			return scalar("null")
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, rv.Len())
			for i := range b {
				b[i] = byte(rv.Index(i).Uint())
			}
			return scalar(`"` + base64.StdEncoding.EncodeToString(b) + `"`)
		}
		n := &jnode{kind: 'a'}
		for i := 0; i < rv.Len(); i++ {
			n.kids = append(n.kids, w.encJSON(rv.Index(i), o))
		}
		return n
	case reflect.Struct:
		n := &jnode{kind: 'o'}
		for _, f := range fieldsOf(rt) {
			fv := rv.Field(f.idx)
			if f.omit && emptyJSON(fv) {
				continue
			}
			n.keys = append(n.keys, stdJSON(f.jname))
			n.kids = append(n.kids, w.encJSON(fv, f.o))
		}
		return n
	case reflect.Map:
		n := &jnode{kind: 'o', unordered: true}
		for _, k := range rv.MapKeys() {
			n.keys = append(n.keys, stdJSON(k.String()))
			n.kids = append(n.kids, w.encJSON(rv.MapIndex(k), o))
		}
		return n
	case reflect.Int64, reflect.Int:
		return scalar(`"` + strconv.FormatInt(rv.Int(), 10) + `"`)
	case reflect.Uint64, reflect.Uint:
		return scalar(`"` + strconv.FormatUint(rv.Uint(), 10) + `"`)
	case reflect.Int32, reflect.Int16, reflect.Int8:
		return scalar(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return scalar(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float64, reflect.Float32:
		if !o.unsafe {
			panic(errUnsupported)
		}
		if rt.Kind() == reflect.Float32 {
			return scalar(stdJSON(float32(rv.Float())))
		}
		return scalar(stdJSON(rv.Float()))
	case reflect.Bool:
		return scalar(strconv.FormatBool(rv.Bool()))
	case reflect.String:
		return scalar(stdJSON(rv.String()))
	}
	panic(errUnsupported)
}

// emptyJSON: what omitempty omits.
func emptyJSON(fv reflect.Value) bool {
	dv, isNil := deref(fv)
	if isNil {
		return true
	}
	switch dv.Kind() {
	case reflect.Slice, reflect.Array, reflect.String:
		if dv.Len() == 0 {
			return true
		}
	case reflect.Interface:
		return dv.IsNil()
	}
	return fv.Kind() != reflect.Ptr && reflect.DeepEqual(dv.Interface(), reflect.Zero(dv.Type()).Interface())
}

// ---------------------------------------------------------------- normal form after a JSON round trip

func (w *World) normTopJSON(rv reflect.Value, rt reflect.Type) reflect.Value {
	out := reflect.New(rt).Elem()
	dv, isNil := deref(rv)
	if !isNil {
		w.normJSON(dv, out, opts{})
	}
	return out
}

// isNull: does the value encode as null?
func (w *World) isNull(rv reflect.Value) bool {
	rv, isNil := deref(rv)
	if isNil {
		return true
	}
	if n, ok := ownJSON(rv); ok {
		return n.raw == "null"
	}
	if rv.Type() != timeType {
		if rep, ok, err := reprOf(rv); err != nil {
			panic(err)
		} else if ok {
			return w.isNull(rep)
		}
	}
	switch rv.Kind() {
	case reflect.Slice, reflect.Interface:
		return rv.IsNil()
	}
	return false
}

func (w *World) normJSON(src, dst reflect.Value, o opts) {
	if w.isNull(src) {
		dst.Set(reflect.Zero(dst.Type()))
		return
	}
	src, _ = deref(src)
	dst = alloc(dst)
	rt := src.Type()
	if rt == timeType {
		dst.Set(reflect.ValueOf(src.Interface().(time.Time).Round(0).UTC()))
		return
	}
	if n, ok := ownJSON(src); ok && setOwnJSON(n, dst) {
		return
	}
	if rep, ok, err := reprOf(src); err != nil {
		panic(err)
	} else if ok {
		nrep := reflect.New(rep.Type()).Elem()
		w.normJSON(rep, nrep, o)
		if e := dst.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{nrep})[0]; !e.IsNil() {
			panic(e.Interface().(error))
		}
		return
	}
	switch rt.Kind() {
	case reflect.Struct:
		for _, f := range fieldsOf(rt) {
			if f.omit && emptyJSON(src.Field(f.idx)) {
				continue
			}
			w.normJSON(src.Field(f.idx), dst.Field(f.idx), f.o)
		}
	case reflect.Slice:
		if src.Len() == 0 {
			return
		}
		s := reflect.MakeSlice(rt, src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			w.normJSON(src.Index(i), s.Index(i), o)
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			w.normJSON(src.Index(i), dst.Index(i), o)
		}
	case reflect.Map:
		m := reflect.MakeMap(rt)
		for _, k := range src.MapKeys() {
			v := reflect.New(rt.Elem()).Elem()
			w.normJSON(src.MapIndex(k), v, o)
			m.SetMapIndex(k, v)
		}
		dst.Set(m)
	case reflect.Interface:
		cv, _ := deref(src.Elem())
		c := w.byT[cv.Type()]
		n := reflect.New(c.T)
		w.normJSON(cv, n.Elem(), o)
		if c.Ptr {
			dst.Set(n)
		} else {
			dst.Set(n.Elem())
		}
	default:
		dst.Set(src)
	}
}

// ---------------------------------------------------------------- reference JSON decoder

// unsure is for documents about which the documentation says nothing.
var errUnsure = decErr("unsure")

func (w *World) decTopJSON(bz []byte, rt reflect.Type) (out reflect.Value, err error) {
	out = reflect.New(rt).Elem()
	defer func() {
		switch e := recover().(type) {
		case nil:
		case decErr:
			err = e
		case error:
			if e != errRepr {
				panic(e)
			}
			err = e
		default:
			panic(e)
		}
	}()
	n, ok := parseJSON(bz)
	if !ok {
		bad("not JSON")
	}
	if len(bz) > 0 && (strings.IndexByte(" \t\r\n", bz[0]) >= 0 || strings.IndexByte(" \t\r\n", bz[len(bz)-1]) >= 0) {
		panic(errUnsure)
	}
	if c := w.byT[derefT(rt)]; c != nil {
		name, v := unwrapJSON(n)
		if name != c.Name {
			bad("name")
		}
		n = v
	}
	w.decJSON(n, out, opts{})
	return out, nil
}

func unquote(raw string) string {
	var s string
	if err := json.Unmarshal([]byte(raw), &s); err != nil {
		bad("%v", err)
	}
	return s
}

func unwrapJSON(n *jnode) (name string, v *jnode) {
	if n.kind == 's' && n.raw == "null" {
		bad("null for a registered type")
	}
	if n.kind != 'o' {
		bad("want an object")
	}
	for i, k := range n.keys {
		switch u := unquote(k); {
		case u == "type":
			if name != "" {
				panic(errUnsure)
			}
			if n.kids[i].kind != 's' || n.kids[i].raw[0] != '"' {
				if n.kids[i].raw == "null" {
					continue
				}
				bad("type is not a string")
			}
			name = unquote(n.kids[i].raw)
		case u == "value":
			if v != nil {
				panic(errUnsure)
			}
			v = n.kids[i]
		case strings.EqualFold(u, "type") || strings.EqualFold(u, "value"):
			panic(errUnsure)
		}
	}
	if name == "" || v == nil {
		bad("no type or value")
	}
	return
}

func (w *World) decJSON(n *jnode, dst reflect.Value, o opts) {
	if n.kind == 's' && n.raw == "null" {
		dst.Set(reflect.Zero(dst.Type()))
		return
	}
	dst = alloc(dst)
	rt := dst.Type()
	want := func(kind byte) {
		if n.kind != kind {
			bad("want %c", kind)
		}
	}
	if rt == timeType {
		want('s')
		var t time.Time
		if n.raw[0] != '"' || !strings.HasSuffix(n.raw, `Z"`) || t.UnmarshalJSON([]byte(n.raw)) != nil {
			bad("time")
		}
		dst.Set(reflect.ValueOf(t))
		return
	}
	if setOwnJSON(n, dst) {
		return
	}
	if hasUnmarshalAmino(rt) {
		m := dst.Addr().MethodByName("UnmarshalAmino")
		rep := reflect.New(m.Type().In(0)).Elem()
		w.decJSON(n, rep, o)
		if e := m.Call([]reflect.Value{rep})[0]; !e.IsNil() {
			panic(e.Interface().(error))
		}
		return
	}
	switch rt.Kind() {
	case reflect.Interface:
		name, v := unwrapJSON(n)
		var c *Conc
		for _, x := range w.concs {
			if x.Name == name {
				c = x
			}
		}
		if c == nil || !c.form().Implements(rt) {
			bad("unknown type %q", name)
		}
		cv := reflect.New(c.T)
		w.decJSON(v, cv.Elem(), o)
		if c.Ptr {
			dst.Set(cv)
		} else {
			dst.Set(cv.Elem())
		}
	case reflect.Slice, reflect.Array:
		if rt.Elem().Kind() == reflect.Uint8 {
			if n.kind == 'a' {
				panic(errUnsure) // encoding/json takes numbers, too
			}
			want('s')
			if n.raw[0] != '"' {
				bad("want a string")
			}
			b, err := base64.StdEncoding.DecodeString(unquote(n.raw))
			if err != nil {
				bad("base64")
			}
			if rt.Kind() == reflect.Array {
				if len(b) != rt.Len() {
					bad("length")
				}
				for i, x := range b {
					dst.Index(i).SetUint(uint64(x))
				}
			} else if len(b) > 0 {
				s := reflect.MakeSlice(rt, len(b), len(b))
				copy(s.Bytes(), b)
				dst.Set(s)
			}
			return
		}
		want('a')
		if rt.Kind() == reflect.Array {
			if len(n.kids) != rt.Len() {
				bad("length")
			}
		} else if len(n.kids) > 0 {
			dst.Set(reflect.MakeSlice(rt, len(n.kids), len(n.kids)))
		}
		for i, k := range n.kids {
			w.decJSON(k, dst.Index(i), o)
		}
	case reflect.Struct:
		want('o')
		at := map[string]*jnode{}
		for i, k := range n.keys {
			at[unquote(k)] = n.kids[i]
		}
		for _, f := range fieldsOf(rt) {
			if k := at[f.jname]; k != nil {
				w.decJSON(k, dst.Field(f.idx), f.o)
			}
		}
	case reflect.Map:
		want('o')
		m := reflect.MakeMap(rt)
		at := map[string]*jnode{}
		for i, k := range n.keys {
			at[unquote(k)] = n.kids[i]
		}
		for k, kid := range at {
			kv := reflect.New(rt.Key()).Elem()
			kv.SetString(k)
			v := reflect.New(rt.Elem()).Elem()
			w.decJSON(kid, v, o)
			m.SetMapIndex(kv, v)
		}
		dst.Set(m)
	case reflect.Int64, reflect.Int, reflect.Uint64, reflect.Uint:
		want('s')
		if len(n.raw) < 3 || n.raw[0] != '"' {
			bad("want a quoted integer")
		}
		decInt(n.raw[1:len(n.raw)-1], dst)
	case reflect.Int32, reflect.Int16, reflect.Int8, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		want('s')
		decInt(n.raw, dst)
	case reflect.Bool:
		want('s')
		if n.raw != "true" && n.raw != "false" {
			bad("want a boolean")
		}
		dst.SetBool(n.raw == "true")
	case reflect.String:
		want('s')
		if n.raw[0] != '"' {
			bad("want a string")
		}
		dst.SetString(unquote(n.raw))
	case reflect.Float64, reflect.Float32:
		want('s')
		if !o.unsafe {
			bad("float")
		}
		if c := n.raw[0]; c != '-' && (c < '0' || c > '9') {
			bad("want a number")
		}
		f, err := strconv.ParseFloat(n.raw, rt.Bits())
		if err != nil {
			bad("float")
		}
		dst.SetFloat(f)
	default:
		panic(fmt.Sprintf("no reference for %v", rt))
	}
}

// decInt takes decimal integers without superfluous zeros.
func decInt(s string, dst reflect.Value) {
	d := strings.TrimPrefix(s, "-")
	if d == "" || strings.Trim(d, "0123456789") != "" || d[0] == '0' && len(d) > 1 {
		bad("want a decimal integer")
	}
	var err error
	if dst.CanInt() {
		var i int64
		i, err = strconv.ParseInt(s, 10, dst.Type().Bits())
		dst.SetInt(i)
	} else {
		var u uint64
		u, err = strconv.ParseUint(s, 10, dst.Type().Bits())
		dst.SetUint(u)
	}
	if err != nil {
		bad("%v", err)
	}
}
