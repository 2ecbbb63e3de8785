package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	ansi     = regexp.MustCompile("\x1b\\[[0-9;]*m")
	keyLine  = regexp.MustCompile(`^ *([0-9A-F]+) @(\d+) (\S.*)$`)
	varLine  = regexp.MustCompile(`^ *([0-9A-F]+) \(i64:(-?\d+) u64:(\d+)\)$`)
	lenLine  = regexp.MustCompile(`^ *([0-9A-F]+) \((\d+) bytes\)$`)
	hexLine  = regexp.MustCompile(`^ *([0-9A-F]+)$`)
	lastLine = regexp.MustCompile(`^([0-9A-F]*) (\d+) (.*)$`)
	wtNames  = map[int]string{wVarint: "(U)Varint", w8: "8Byte", wBytes: "ByteLength", w4: "4Byte"}
)

// aminoscan runs the tool.
func aminoscan(args ...string) (out string, err string) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_AMINOSCAN"), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	rerr := cmd.Run()
	switch {
	case ctx.Err() != nil:
		return o.String(), "didn't end within 120 s"
	case strings.Contains(e.String(), "panic") || strings.Contains(e.String(), "goroutine "):
		return o.String(), "crashed: " + clipStr(e.String(), 500)
	case rerr != nil:
		if _, ok := rerr.(*exec.ExitError); !ok {
			panic(rerr)
		}
	}
	return o.String(), ""
}

type scanned struct {
	off, val, end int // where the key, the value and the next field start
	num           uint64
	wt            int
}

// scanRef takes a message apart. at is where it stops: at the key or the
// value of the first field that isn't well-formed.
func scanRef(bz []byte) (fs []scanned, at int, ok bool, inKey bool) {
	i := 0
	for i < len(bz) {
		k, n := binary.Uvarint(bz[i:])
		if n <= 0 {
			return fs, i, false, true
		}
		f := scanned{off: i, val: i + n, num: k >> 3, wt: int(k & 7)}
		rest := bz[f.val:]
		l := 0
		switch f.wt {
		case wVarint:
			_, l = binary.Uvarint(rest)
		case w8:
			l = 8
		case w4:
			l = 4
		case wBytes:
			u, m := binary.Uvarint(rest)
			if m > 0 && u <= uint64(len(rest)-m) {
				l = m + int(u)
			}
		}
		if l <= 0 || l > len(rest) {
			return fs, f.val, false, false
		}
		f.end = f.val + l
		fs = append(fs, f)
		i = f.end
	}
	return fs, i, true, false
}

// checkScan runs the tool on a message and accounts for all it prints.
func checkScan(bz []byte) string {
	arg := hex.EncodeToString(bz)
	raw, e := aminoscan(arg)
	if e != "" {
		return e
	}
	fs, at, ok, _ := scanRef(bz)
	lines := strings.Split(strings.TrimRight(ansi.ReplaceAllString(raw, ""), "\n"), "\n")
	var body []string
	for _, l := range lines {
		if !strings.HasPrefix(strings.TrimSpace(l), "##") {
			body = append(body, l)
		}
	}
	if len(body) == 0 {
		return fmt.Sprintf("no output: %q", raw)
	}
	last := lastLine.FindStringSubmatch(body[len(body)-1])
	body = body[:len(body)-1]
	if last == nil {
		return fmt.Sprintf("last line isn't bytes, count and error: %q", raw)
	}
	if !strings.EqualFold(last[1], arg) {
		return fmt.Sprintf("the bytes reported are %s", last[1])
	}
	n, _ := strconv.Atoi(last[2])
	if ok != (last[3] == "<nil>") {
		return fmt.Sprintf("reported error %q", last[3])
	}
	if ok && n != len(bz) {
		return fmt.Sprintf("reported %d bytes of %d", n, len(bz))
	}
	if !ok {
		lo := 0
		if len(fs) > 0 {
			lo = fs[len(fs)-1].end
		}
		if n != at && n != lo {
			return fmt.Sprintf("stopped after %d bytes, should after %d", n, at)
		}
		// The rest is marked.
		rest := strings.ToUpper(hex.EncodeToString(bz[n:]))
		if rest != "" && !strings.Contains(raw, "\x1b[31m"+rest+"\x1b[0m") {
			return fmt.Sprintf("the bytes that couldn't be parsed, %s, aren't marked", rest)
		}
	}
	next := func() string {
		if len(body) == 0 {
			return ""
		}
		l := body[0]
		body = body[1:]
		return l
	}
	up := func(b []byte) string { return strings.ToUpper(hex.EncodeToString(b)) }
	for _, f := range fs {
		l := next()
		m := keyLine.FindStringSubmatch(l)
		if m == nil || m[1] != up(bz[f.off:f.val]) || m[2] != fmt.Sprint(f.num) || m[3] != wtNames[f.wt] {
			return fmt.Sprintf("field key %q, want %s @%d %s", l, up(bz[f.off:f.val]), f.num, wtNames[f.wt])
		}
		l = next()
		val := bz[f.val:f.end]
		good := false
		switch f.wt {
		case wVarint:
			u, _ := binary.Uvarint(val)
			i, _ := binary.Varint(val)
			m := varLine.FindStringSubmatch(l)
			good = m != nil && m[1] == up(val) && m[2] == fmt.Sprint(i) && m[3] == fmt.Sprint(u)
		case wBytes:
			u, _ := binary.Uvarint(val)
			m := lenLine.FindStringSubmatch(l)
			good = m != nil && m[1] == up(val) && m[2] == fmt.Sprint(u)
		default:
			m := hexLine.FindStringSubmatch(l)
			good = m != nil && m[1] == up(val)
		}
		if !good {
			return fmt.Sprintf("value %q of field %d, bytes %s", l, f.num, up(val))
		}
	}
	if ok && len(body) > 0 {
		return fmt.Sprintf("output after the last field: %q", body)
	}
	return ""
}

func drawScanMsg(t *rapid.T) (bz []byte, how string) {
	switch pick(t, 4, "msg") {
	case 0, 1: // something amino wrote
		w := drawWorld(t)
		rt := drawStruct(t, tctx{w: w, depth: 3})
		if pick(t, 4, "static") == 3 {
			rt = pickFrom(t, []reflect.Type{tof(Tree{}), tof(Wide{}), tof(Tagged{}), tof(Inner{}), tof(MutA{})}, "st")
		}
		o := marshalBin(w.cdc, drawValue(t, rt, newV(w, false)).Interface())
		if o.failed() {
			t.Fatalf("encoding failed: %v", o)
		}
		return o.bz, "encoded"
	case 2: // fields of every kind and number
		for i, n := 0, pick(t, 7, "nf"); i < n; i++ {
			wt := pickFrom(t, []int{wVarint, w8, wBytes, w4}, "wt")
			num := pickFrom(t, []uint64{1, 2, 15, 16, 2047, 2048, 262143, 262144, 1<<29 - 1, 19000}, "num")
			bz = append(bz, key(num, wt)...)
			switch wt {
			case wVarint:
				bz = append(bz, uvarint(drawUint(t, 64))...)
			case w8:
				bz = append(bz, drawBytes(t, 8)...)
			case w4:
				bz = append(bz, drawBytes(t, 4)...)
			default:
				bz = append(bz, wrap(drawBytes(t, drawLen(t)))...)
			}
		}
		return bz, "fields"
	default:
		return soup(t), "soup"
	}
}

func checkAminoscan(t *rapid.T) {
	bz, how := drawScanMsg(t)
	switch pick(t, 3, "bad") {
	case 0:
		bz, _ = corrupt(t, bz)
		how += ", corrupted"
	case 1:
		if len(bz) > 0 && pick(t, 2, "cut") == 1 {
			bz = bz[:pick(t, len(bz), "at")]
			how += ", cut"
		}
	}
	if len(bz) > 30000 {
		bz = bz[:30000]
	}
	// Field numbers of a message have at most 29 bits.
	fs, _, ok, _ := scanRef(bz)
	for _, f := range fs {
		if f.num >= 1<<29 {
			return
		}
	}
	ev.count(len(bz) > 1, bz, func() string { return how + fmt.Sprintf(" %x", clip(bz)) }, "ok:"+fmt.Sprint(ok), how)
	if s := checkScan(bz); s != "" {
		t.Fatalf("aminoscan %x (%s): %s", bz, how, s)
	}
	if pick(t, 4, "color") == 0 && len(bz) > 0 {
		raw, e := aminoscan("--color", hex.EncodeToString(bz))
		want := ""
		for _, b := range bz {
			if b >= 0x21 && b < 0x7f {
				want += string(rune(b))
			} else {
				want += fmt.Sprintf("%02X", b)
			}
		}
		if e != "" || ansi.ReplaceAllString(raw, "") != want+"\n" {
			t.Fatalf("aminoscan --color %x: %s %q, want %q", bz, e, raw, want)
		}
	}
}

func checkScanName(t *rapid.T) {
	var name string
	if pick(t, 2, "ascii") == 0 {
		name = strings.ReplaceAll(drawString(t, true), "\x00", "0")
	} else {
		name = fmt.Sprintf("com.tendermint/%d", drawUint(t, 32))
	}
	if name == "" || len(name) > 5000 {
		name = "x"
	}
	db, pb := disfix(name)
	ev.count(true, []byte(name), func() string { return name }, "name")
	raw, e := aminoscan(pickFrom(t, [][]string{{"--concrete-name", name}, {"-concrete-name=" + name}}, "args")...)
	if want := fmt.Sprintf("Disamb bytes: %X\nPrefix bytes: %X\n", db, pb); e != "" || raw != want {
		t.Fatalf("aminoscan --concrete-name %q: %s %q, want %q", name, e, raw, want)
	}
}

func TestC23(t *testing.T) {
	run(t, "scan", 4, checkAminoscan)
	run(t, "name", 0.5, checkScanName)
}
