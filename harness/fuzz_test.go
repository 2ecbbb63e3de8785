package harness

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// allTests: the property tests, for coverage-guided fuzzing of their sub-checks.
var allTests = map[string]func(*testing.T){
	"C01": TestC01, "C02": TestC02, "C03": TestC03, "C04": TestC04, "C05": TestC05, "C06": TestC06, "C07": TestC07, "C08": TestC08,
	"C09": TestC09, "C10": TestC10, "C11": TestC11, "C12": TestC12, "C13": TestC13, "C14": TestC14, "C15": TestC15, "C16": TestC16,
	"C17": TestC17, "C19": TestC19, "C20": TestC20, "C21": TestC21, "C22": TestC22, "C24": TestC24, "C25": TestC25, "C26": TestC26,
}

// collect, when set, gathers the sub-checks instead of running them.
var collect map[string]func(*rapid.T)

// fuzzSubs returns the sub-checks of a property that can be fuzzed.
func fuzzSubs(id string) (names []string, subs map[string]func(*rapid.T)) {
	test := allTests[id]
	if test == nil {
		return nil, nil
	}
	collect = map[string]func(*rapid.T){}
	test(nil)
	subs, collect = collect, nil
	for n := range subs {
		if !strings.Contains(n, "size") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return names, subs
}

func fuzzOne(t *testing.T, id, name string, f func(*rapid.T), input []byte) {
	ev.sub = name
	subName.Store(id + "/" + name)
	rapid.MakeFuzz(func(rt *rapid.T) {
		caseNo.Add(1)
		inCase.Store(true)
		defer inCase.Store(false)
		f(rt)
	})(t, input)
}

const fuzzSeeds = 24

func fuzzSeed(i, j int) []byte { return noise(baseSeed+uint64(i*100+j), 8192) }

// FuzzProp feeds the generators from bytes that the Go fuzzer mutates under
// the guidance of the coverage of go-amino.
func FuzzProp(f *testing.F) {
	id := os.Getenv("VERIF_FUZZ")
	names, subs := fuzzSubs(id)
	if len(names) == 0 {
		f.Skip("nothing to fuzz")
	}
	for i := range names {
		for j := 0; j < fuzzSeeds; j++ {
			f.Add(byte(i), fuzzSeed(i, j))
		}
	}
	f.Fuzz(func(t *testing.T, sub byte, input []byte) {
		n := names[int(sub)%len(names)]
		fuzzOne(t, id, n, subs[n], input)
	})
}

// TestFuzzShrink makes a failing input of FuzzProp smaller: VERIF_SHRINK is a
// file with the number of the sub-check and the input. It is rewritten.
func TestFuzzShrink(t *testing.T) {
	file, id := os.Getenv("VERIF_SHRINK"), os.Getenv("VERIF_FUZZ")
	if file == "" {
		t.Skip("nothing to shrink")
	}
	data, err := os.ReadFile(file)
	must(err)
	names, subs := fuzzSubs(id)
	if n := 0; bytes.HasPrefix(data, []byte("seed#")) {
		_, err := fmt.Sscanf(string(data), "seed#%d", &n)
		must(err)
		data = append([]byte{byte(n / fuzzSeeds)}, fuzzSeed(n/fuzzSeeds, n%fuzzSeeds)...)
		must(os.WriteFile(file, data, 0o666))
	}
	name := names[int(data[0])%len(names)]
	fails := func(in []byte) bool {
		return !t.Run("try", func(t *testing.T) { fuzzOne(t, id, name, subs[name], in) })
	}
	best := data[1:]
	if !fails(best) {
		return
	}
	tries, end := 0, time.Now().Add(20*time.Second)
	better := func(in []byte) bool {
		tries++
		if tries > 3000 || time.Now().After(end) || !fails(in) {
			return false
		}
		best = append([]byte{}, in...)
		must(os.WriteFile(file, append([]byte{data[0]}, best...), 0o666))
		return true
	}
	if replay {
		return
	}
	for n := len(best) / 2; n >= 8; n /= 2 { // cut the end off
		for len(best) > n && better(best[:len(best)-n]) {
		}
	}
	for progress := true; progress; {
		progress = false
		for n := 64; n >= 8; n /= 2 { // leave pieces out
			for i := 0; i+n <= len(best); {
				if better(append(append([]byte{}, best[:i]...), best[i+n:]...)) {
					progress = true
				} else {
					i += n
				}
			}
		}
		for i := 0; i+8 <= len(best); i += 8 { // make words zero
			if w := best[i : i+8]; !bytes.Equal(w, make([]byte, 8)) {
				c := append([]byte{}, best...)
				copy(c[i:], make([]byte, 8))
				if better(c) {
					progress = true
				}
			}
		}
		if time.Now().After(end) {
			break
		}
	}
	t.Logf("VERIF-SHRUNK to %d words in %d tries", len(best)/8, tries)
	t.Run("smallest", func(t *testing.T) { fuzzOne(t, id, name, subs[name], best) })
}
