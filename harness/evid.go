package harness

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"strings"
	"sync"
)

// Counters for the evidence file. They are measured on this run.
type evidence struct {
	mu      sync.Mutex
	Evals   int64            `json:"evaluations"`
	Nontriv int64            `json:"nontrivial"`
	Classes map[string]int64 `json:"classes"`
	Subs    map[string]int64 `json:"sub_checks"`
	Samples []string         `json:"samples"`
	Known   []string         `json:"known"`
	hashes  map[uint64]bool
	sub     string
	perSub  map[string]int
	quiet   bool
}

var ev = &evidence{Classes: map[string]int64{}, Subs: map[string]int64{}, hashes: map[uint64]bool{}, perSub: map[string]int{}}

// count records one evaluated case. fp identifies the case (distinctness).
func (e *evidence) count(nontrivial bool, fp []byte, sample func() string, classes ...string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.quiet {
		return
	}
	e.Evals++
	e.Subs[e.sub]++
	for _, c := range classes {
		if c != "" {
			e.Classes[c]++
		}
	}
	if !nontrivial {
		return
	}
	e.Nontriv++
	h := fnv.New64a()
	h.Write([]byte(e.sub))
	h.Write(fp)
	k := h.Sum64()
	if e.hashes[k] {
		return
	}
	if len(e.hashes) < 2000000 {
		e.hashes[k] = true
	}
	n := len(e.hashes)
	if e.perSub[e.sub] < 2 && (n%37 == 5 || n > 200) {
		e.perSub[e.sub]++
		s := sample()
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		e.Samples = append(e.Samples, e.sub+": "+s)
	}
}

func (e *evidence) class(c string, n int64) {
	e.mu.Lock()
	e.Classes[c] += n
	e.mu.Unlock()
}

func (e *evidence) write(path string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	b, _ := json.Marshal(e)
	os.WriteFile(path, b, 0644)
	hb := make([]byte, 0, 8*len(e.hashes))
	for k := range e.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, k)
	}
	os.WriteFile(path+".hashes", hb, 0644)
}

// known prints a known finding once.
func known(prop, what string) {
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
	ev.mu.Lock()
	ev.Known = append(ev.Known, what)
	ev.mu.Unlock()
}

// ---------------------------------------------------------------- printing values

// dump prints a value without addresses.
func dump(rv reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, rv, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, rv reflect.Value, depth int) {
	if b.Len() > 3000 {
		b.WriteString("…")
		return
	}
	if !rv.IsValid() {
		b.WriteString("invalid")
		return
	}
	rt := rv.Type()
	if rt == timeType {
		fmt.Fprintf(b, "time(%d,%d)", getTime(rv).Unix(), getTime(rv).Nanosecond())
		return
	}
	switch rt.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpTo(b, rv.Elem(), depth+1)
	case reflect.Interface:
		if rv.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%v(", rv.Elem().Type())
		dumpTo(b, rv.Elem(), depth+1)
		b.WriteString(")")
	case reflect.Slice, reflect.Array:
		if rt.Kind() == reflect.Slice && rv.IsNil() {
			b.WriteString("nil")
			return
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			n := rv.Len()
			b.WriteString("0x")
			for i := 0; i < n && i < 40; i++ {
				fmt.Fprintf(b, "%02x", rv.Index(i).Uint())
			}
			if n > 40 {
				fmt.Fprintf(b, "…(%d)", n)
			}
			return
		}
		b.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			if i > 20 {
				fmt.Fprintf(b, "…(%d)", rv.Len())
				break
			}
			dumpTo(b, rv.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < rv.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			if i > 30 {
				b.WriteString("…")
				break
			}
			b.WriteString(rt.Field(i).Name + ":")
			dumpTo(b, rv.Field(i), depth+1)
		}
		b.WriteString("}")
	case reflect.Map:
		if rv.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "map(%d)[", rv.Len())
		for i, k := range rv.MapKeys() {
			if i > 0 {
				b.WriteString(" ")
			}
			dumpTo(b, k, depth+1)
			b.WriteString(":")
			dumpTo(b, rv.MapIndex(k), depth+1)
		}
		b.WriteString("]")
	case reflect.String:
		s := rv.String()
		if len(s) > 60 {
			fmt.Fprintf(b, "%q…(%d)", s[:60], len(s))
		} else {
			fmt.Fprintf(b, "%q", s)
		}
	case reflect.Bool:
		fmt.Fprintf(b, "%v", rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", rv.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", rv.Float())
	default:
		b.WriteString(rt.String())
	}
}

func (w *World) String() string {
	var b strings.Builder
	b.WriteString("world[")
	for _, s := range w.ord {
		if s.i != nil {
			fmt.Fprintf(&b, "I %v always=%v prio=%d; ", s.i.T, s.i.Always, len(s.i.Priority))
		} else {
			fmt.Fprintf(&b, "C %v %q; ", s.c.form(), s.c.Name)
		}
	}
	b.WriteString("]")
	return b.String()
}

func typeStr(rt reflect.Type) string {
	s := rt.String()
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}
