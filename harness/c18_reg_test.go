package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"

	amino "github.com/tendermint/go-amino"
	"pgregory.net/rapid"
)

// Types that are registered while the codec is in use.
type (
	IReg    interface{ Reg() }
	IRegNew interface{ Reg() }
	rg0     struct{ N int }
	rg1     struct{ N int }
	rg2     struct{ N int }
	rg3     struct{ N int }
	rg4     struct{ N int }
	rg5     struct{ N int }
	rgB     struct{ N int } // registered before
	regHold struct{ X, Y IReg }
)

func (rg0) Reg() {}
func (rg1) Reg() {}
func (rg2) Reg() {}
func (rg3) Reg() {}
func (rg4) Reg() {}
func (rg5) Reg() {}
func (rgB) Reg() {}
func (rg0) A()   {}
func (rg1) A()   {}
func (rg2) A()   {}
func (rg3) B()   {}
func (rg4) B()   {}
func (rgB) A()   {}

type regTry struct {
	proto interface{} // nil: IRegNew
	name  string
	out   outcome
}

// checkRegistering: registering and sealing while other goroutines use the
// codec and register as well.
func checkRegistering(t *rapid.T) {
	w := richWorld(t)
	ops := drawOps(t, w, 3+pick(t, 6, "nops"), false)
	for i := 0; i < len(ops); { // their table grows
		if ops[i].kind == "print" {
			ops = append(ops[:i], ops[i+1:]...)
		} else {
			i++
		}
	}
	shared := w.fresh(nil)
	shared.RegisterInterface((*IReg)(nil), nil)
	shared.RegisterConcrete(rgB{}, "rg/before", nil)
	protos := []interface{}{rg0{}, rg1{}, rg2{}, rg3{}, rg4{}, rg5{}}
	g := 2 + pick(t, 5, "goroutines")
	plans := make([][]*regTry, g)
	ntypes := 1 + pick(t, len(protos), "types")
	names := []string{"rg/0", "rg/1", "rg/2", "rg/3", "rg/4", "rg/5"}[:ntypes]
	collide := false // all names have one prefix: the first takes it
	if chance(t, 4, "collide") {
		tr := pickFrom(t, collideTriples, "triple")
		collide = true
		for _, c := range w.concs {
			collide = collide && !bytes.Equal(prefixOf(c.Name), prefixOf(tr[0]))
		}
		if collide {
			names = tr
		}
	}
	for i := range plans {
		for k, n := 0, pick(t, 6, "tries"); k < n; k++ {
			if chance(t, 10, "iface") {
				plans[i] = append(plans[i], &regTry{})
				continue
			}
			plans[i] = append(plans[i], &regTry{proto: protos[pick(t, ntypes, "type")], name: pickFrom(t, names, "name")})
		}
	}
	sealer := -1
	if pick(t, 2, "seal") == 1 {
		sealer = pick(t, g, "sealer")
	}
	sealAt := pick(t, 4, "at")
	bef := prefixOf("rg/before")
	held := regHold{rgB{1}, rgB{2}}
	want := append(append(append(append([]byte{0x0a, 6}, bef...), 8, 1), append([]byte{0x12, 6}, bef...)...), 8, 2)
	ev.count(true, []byte(fmt.Sprint(plans, ops, sealer)), func() string {
		return fmt.Sprintf("%d goroutines, %d operations each, registering %v", g, len(ops), clipStr(describe(plans), 300))
	}, fmt.Sprintf("goroutines:%d", g), fmt.Sprintf("seal:%v", sealer >= 0), fmt.Sprintf("collide:%v", collide))
	var wg sync.WaitGroup
	start := make(chan struct{})
	fails := make([]string, g)
	var atSeal string
	for i := range plans {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			fail := func(f string, args ...interface{}) {
				fails[i] = fmt.Sprintf("goroutine %d: ", i) + fmt.Sprintf(f, args...)
			}
			for k := 0; k < len(ops) || k < len(plans[i]) || k <= sealAt; k++ {
				if i == sealer && k == sealAt {
					shared.Seal()
					atSeal = table(shared)
				}
				if k < len(plans[i]) {
					r := plans[i][k]
					r.out = try(func() ([]byte, error) {
						if r.proto == nil {
							shared.RegisterInterface((*IRegNew)(nil), nil)
						} else {
							shared.RegisterConcrete(r.proto, r.name, nil)
						}
						return nil, nil
					})
					if i == sealer && k >= sealAt && r.out.panik == nil {
						fail("registered after Seal")
					}
				}
				if o := marshalBin(shared, held); o.failed() || !bytes.Equal(o.bz, want) {
					fail("%v is encoded as %v, want %x", held, o, want)
				}
				var back regHold
				if o := try(func() ([]byte, error) { return nil, shared.UnmarshalBinaryBare(want, &back) }); o.failed() || back != held {
					fail("%x is decoded as %v, %v", want, back, o)
				}
				if k < len(ops) {
					out, v := ops[k].eval(shared)
					if s := ops[k].check(out, v); s != "" {
						fail("call %d: %s", k, s)
					}
				}
				if k%3 == 2 {
					runtime.Gosched()
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, s := range fails {
		if s != "" {
			t.Fatalf("%s\n registering %s\n%v", s, describe(plans), w)
		}
	}
	// What has been registered is what the calls said.
	byType, byName, nif := map[reflect.Type]string{}, map[string]reflect.Type{}, 0
	after := table(shared)
	tried := map[reflect.Type]map[string]bool{}
	for _, p := range plans {
		for _, r := range p {
			if r.proto == nil {
				if r.out.panik == nil {
					nif++
				}
				continue
			}
			rt := reflect.TypeOf(r.proto)
			if tried[rt] == nil {
				tried[rt] = map[string]bool{}
			}
			tried[rt][r.name] = true
			if r.out.panik != nil {
				continue
			}
			if byType[rt] != "" || byName[r.name] != nil {
				t.Fatalf("%v and %q were registered twice: %s\n%v", rt, r.name, describe(plans), w)
			}
			byType[rt], byName[r.name] = r.name, rt
		}
	}
	if nif > 1 {
		t.Fatalf("one interface was registered %d times: %s\n%v", nif, describe(plans), w)
	}
	if collide && len(byType) > 1 {
		t.Fatalf("names with the same prefix were registered without a priority: %s\n%v", describe(plans), w)
	}
	if sealer >= 0 {
		if atSeal != after {
			t.Fatalf("registered types when Seal returned:\n%s and at the end:\n%s registering %s", atSeal, after, describe(plans))
		}
	} else {
		// Nothing but another's success stands in the way.
		for rt, names := range tried {
			for name := range names {
				if byType[rt] == "" && byName[name] == nil && !(collide && len(byType) == 1) {
					t.Fatalf("neither %v nor %q is registered, though they were tried: %s\n%v", rt, name, describe(plans), w)
				}
			}
		}
	}
	if n, rows := strings.Count(table(w.fresh(nil)), "\n")+1+len(byType), strings.Count(after, "\n"); n != rows {
		t.Fatalf("%d types are registered, PrintTypes has\n%s registering %s", n-2, after, describe(plans))
	}
	for _, pr := range protos {
		rt := reflect.TypeOf(pr)
		v := reflect.New(rt).Elem()
		v.Field(0).SetInt(7)
		h := regHold{X: v.Interface().(IReg)}
		o, oj := marshalBin(shared, h), marshalJSON(shared, h)
		name := byType[rt]
		if name == "" {
			if !o.failed() || !oj.failed() {
				t.Fatalf("%v isn't registered, but is encoded as %v, %v: %s\n%v", rt, o, oj, describe(plans), w)
			}
			continue
		}
		want := append(append([]byte{0x0a, 6}, prefixOf(name)...), 8, 7)
		wantj := fmt.Sprintf(`{"X":{"type":"%s","value":{"N":"7"}},"Y":null}`, name)
		if o.failed() || !bytes.Equal(o.bz, want) || oj.failed() || string(oj.bz) != wantj {
			t.Fatalf("%v (%q) is encoded as %v and %v, want %x and %s: %s\n%v", rt, name, o, oj, want, wantj, describe(plans), w)
		}
		for _, js := range []bool{false, true} {
			var back regHold
			o := try(func() ([]byte, error) {
				if js {
					return nil, shared.UnmarshalJSON(oj.bz, &back)
				}
				return nil, shared.UnmarshalBinaryBare(o.bz, &back)
			})
			if o.failed() || back != h {
				t.Fatalf("%v (%q) is decoded as %v, %v: %s\n%v", rt, name, back, o, describe(plans), w)
			}
		}
	}
}

func prefixOf(name string) []byte {
	_, pb := disfix(name)
	return pb[:]
}

func table(cdc *amino.Codec) string {
	var b bytes.Buffer
	must(cdc.PrintTypes(&b))
	return b.String()
}

func describe(plans [][]*regTry) string {
	var s []string
	for i, p := range plans {
		for _, r := range p {
			s = append(s, fmt.Sprintf("%d: %T %q %v", i, r.proto, r.name, r.out))
		}
	}
	return strings.Join(s, "; ")
}
