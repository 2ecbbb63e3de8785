package harness

import (
	"bytes"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

var (
	scale    = envInt("VERIF_SCALE", 100) // cases per unit of weight
	baseSeed = uint64(envInt("VERIF_SHARD_SEED", 1))
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	shard    = envInt("VERIF_SHARD", 0)
	shards   = envInt("VERIF_SHARDS", 1)
	replay   = os.Getenv("VERIF_REPLAY") != ""
)

func envInt(name string, def int) int {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return int(v)
	}
	return def
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	go watchdog()
	rc := m.Run()
	if p := os.Getenv("VERIF_EVID_OUT"); p != "" {
		ev.write(p)
	}
	os.Exit(rc)
}

// run is one sub-check of a property: weight*scale generated cases.
func run(t *testing.T, name string, weight float64, f func(t *rapid.T)) {
	if collect != nil {
		collect[name] = f
		return
	}
	t.Helper()
	t.Run(name, func(t *testing.T) {
		n := int(weight * float64(scale))
		if n < 1 {
			n = 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s", baseSeed, t.Name())
		s := h.Sum64()>>2 | 1
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		if !replay {
			must(flag.Set("rapid.seed", strconv.FormatUint(s, 10)))
		}
		ev.sub = name
		subName.Store(t.Name())
		rapid.Check(t, func(rt *rapid.T) {
			caseNo.Add(1)
			inCase.Store(true)
			defer inCase.Store(false)
			f(rt)
		})
	})
}

// once is a sub-check that enumerates its cases itself.
func once(t *testing.T, name string, f func(t *testing.T)) {
	if collect != nil {
		return
	}
	t.Run(name, func(t *testing.T) {
		ev.sub = name
		subName.Store(t.Name())
		caseNo.Add(1)
		inCase.Store(true)
		defer inCase.Store(false)
		f(t)
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// tick tells the watchdog that a long enumeration advances.
func tick() { caseNo.Add(1) }

var (
	caseNo   atomic.Int64
	inCase   atomic.Bool
	subName  atomic.Value
	cpuLimit = 120 * time.Second
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var goroHead = regexp.MustCompile(`^goroutine \d+ \[([^\],]+)`)

// lockedUp reports whether there are goroutines inside go-amino, and all of
// them wait for a lock.
func lockedUp() (bool, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		if !bytes.Contains(g, []byte("github.com/tendermint/go-amino.")) {
			continue
		}
		m := goroHead.FindSubmatch(g)
		if m == nil {
			return false, ""
		}
		st := string(m[1])
		if !strings.HasPrefix(st, "sync.") && !strings.HasPrefix(st, "semacquire") {
			return false, ""
		}
		n++
	}
	return n > 0, string(buf)
}

// watchdog turns a case that burns CPU without end, or is deadlocked inside
// go-amino, into a reported failure. Neither criterion is wall-clock time: the
// first is CPU time used by this process during one case, the second the state
// of the goroutines.
func watchdog() {
	last, start, locked := int64(-1), time.Duration(0), 0
	for {
		time.Sleep(500 * time.Millisecond)
		n := caseNo.Load()
		if !inCase.Load() {
			last = -1
			continue
		}
		if n != last {
			last, start, locked = n, cpuTime(), 0
			continue
		}
		if cpuTime()-start > cpuLimit {
			fatalViolation("endless loop: one case used more than " + cpuLimit.String() + " of CPU time")
		}
		if ok, _ := lockedUp(); ok {
			locked++
			if locked >= 6 {
				fatalViolation("deadlock: every call into go-amino waits for a lock")
			}
		} else {
			locked = 0
		}
	}
}

func fatalViolation(msg string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("VERIF-FATAL %s in %v case %d\n%s\n", msg, subName.Load(), caseNo.Load(), buf)
	os.Exit(1)
}

// ---------------------------------------------------------------- calls with panics caught

type outcome struct {
	bz    []byte
	err   error
	panik interface{}
}

func (o outcome) failed() bool { return o.err != nil || o.panik != nil }

func (o outcome) String() string {
	switch {
	case o.panik != nil:
		return fmt.Sprintf("panic: %v", o.panik)
	case o.err != nil:
		return "error: " + o.err.Error()
	}
	return fmt.Sprintf("ok %x", clip(o.bz))
}

func try(f func() ([]byte, error)) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.panik = r
		}
	}()
	o.bz, o.err = f()
	return
}

func marshalBin(cdc *amino.Codec, v interface{}) outcome {
	return try(func() ([]byte, error) { return cdc.MarshalBinaryBare(v) })
}

func unmarshalBin(cdc *amino.Codec, bz []byte, rt reflect.Type) (reflect.Value, outcome) {
	p := reflect.New(rt)
	o := try(func() ([]byte, error) { return nil, cdc.UnmarshalBinaryBare(bz, p.Interface()) })
	return p.Elem(), o
}

func marshalJSON(cdc *amino.Codec, v interface{}) outcome {
	return try(func() ([]byte, error) { return cdc.MarshalJSON(v) })
}

func unmarshalJSON(cdc *amino.Codec, bz []byte, rt reflect.Type) (reflect.Value, outcome) {
	p := reflect.New(rt)
	o := try(func() ([]byte, error) { return nil, cdc.UnmarshalJSON(bz, p.Interface()) })
	return p.Elem(), o
}
