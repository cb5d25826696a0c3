package harness

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"

	bin "github.com/gagliardetto/binary"
	"pgregory.net/rapid"
)

// A cjob is a piece of work with a result that depends on its shared, read-only
// inputs alone.
type cjob struct {
	name string
	run  func() string
}

func sharedInputs(s Src, e Enc) []cjob {
	var jobs []cjob
	res := func(err error, f string, a ...interface{}) string {
		if err != nil {
			return "error"
		}
		return fmt.Sprintf(f, a...)
	}
	switch s.N(6) {
	case 0, 1, 2, 3:
		// one value, one buffer, one (fresh) type
		ty := GenTy(s, TyCfg{E: e, Depth: 3})
		v := GenVal(&VCtx{E: e, S: s, FillSkipped: true}, ty)
		in := v.Interface()
		if s.N(2) == 1 || needsAddr(ty) {
			in = v.Addr().Interface()
		}
		want, werr := RefEncode(e, ty, v)
		if werr != nil {
			panic("harness: " + werr.Error())
		}
		name := ty.String()
		data, how := append([]byte(nil), want...), "valid"
		if s.N(3) == 0 {
			data, how = genInput(s, e, ty)
		}
		hasMap := false
		ty.Walk(func(x *Ty) { hasMap = hasMap || x.K == KMap })
		show := func(b []byte) string {
			if e != Borsh && hasMap {
				b = sortedBytes(b)
			}
			return fmt.Sprintf("%x", b)
		}
		jobs = append(jobs, cjob{e.String() + " encode " + name, func() string {
			b, err := e.Marshal(in)
			r := res(err, "%s", show(b))
			if err == nil && r != show(want) {
				r += " (want " + show(want) + ")"
			}
			return r
		}}, cjob{e.String() + " count " + name, func() string {
			n, err := e.ByteCount(in)
			return res(err, "%d", n)
		}}, cjob{e.String() + " decode " + how + " " + name, func() string {
			dst := reflect.New(ty.RT())
			err := e.Unmarshal(dst.Interface(), data)
			return res(err, "%s", lazyDump(dst, err))
		}}, cjob{e.String() + " encode to writer " + name, func() string {
			b, n, err := e.EncodeVia(in)
			return res(err, "%d %s", n, show(b))
		}})
	case 4:
		// one registry of variants
		names := []string{"InitializeAccount", "transfer", "close_account", "SetX"}
		encs := idEncs[s.N(len(idEncs)-1)]
		def := bin.NewVariantDefinition(encs, []bin.VariantType{
			{Name: names[0], Type: (*MyPoint)(nil)}, {Name: names[1], Type: (*MyInner)(nil)},
			{Name: names[2], Type: (*MyList)(nil)}, {Name: names[3], Type: (*MyMix)(nil)},
		})
		ids := make([][]byte, len(names))
		for i, n := range names {
			_, ids[i] = refID(encs, i, n)
		}
		for i, n := range names {
			jobs = append(jobs, cjob{"variant " + n, func() string {
				id := def.TypeID(n)
				data := append(append([]byte(nil), ids[i]...), make([]byte, 64)...)
				var out bin.BaseVariant
				err := out.UnmarshalBinaryVariant(e.NewDecoder(data), def)
				ti, nm, impl := out.Obtain(def)
				if err == nil && nm != n {
					return "(want " + n + ")"
				}
				return res(err, "%v %v %s %s", id, ti, nm, dump(reflect.ValueOf(impl)))
			}})
		}
	default:
		// names, discriminators, text forms
		n := nameAtoms[s.N(len(nameAtoms))] + nameAtoms[s.N(len(nameAtoms))] + nameAtoms[s.N(len(nameAtoms))]
		x := bin.Uint128{Lo: GenUint(s, 64), Hi: GenUint(s, 64)}
		raw := []byte(GenString(s, s.N(30)))
		jobs = append(jobs, cjob{fmt.Sprintf("names %q", n), func() string {
			return fmt.Sprintf("%s|%s|%x|%x", bin.ToPascalCase(n), bin.ToSnakeForSighash(n), bin.SighashTypeID(bin.SIGHASH_GLOBAL_NAMESPACE, n), bin.Sighash(bin.SIGHASH_ACCOUNT_NAMESPACE, n))
		}}, cjob{"text forms", func() string {
			j, err := x.MarshalJSON()
			return res(err, "%s %s %s", x.DecimalString(), x.String(), j)
		}}, cjob{"compact-u16", func() string {
			var b []byte
			err := bin.EncodeCompactU16Length(&b, len(raw)*100)
			n, sz, err2 := bin.DecodeCompactU16(b)
			return res(err, "%x %d %d %v", b, n, sz, err2)
		}}, cjob{"safe string", func() string {
			var ss bin.SafeString
			w := &W{E: e}
			w.LenBytes(raw)
			err := e.Unmarshal(&ss, w.B)
			return res(err, "%q", string(ss))
		}})
	}
	return jobs
}

type dumpLater struct {
	v   reflect.Value
	err error
}

func lazyDump(v reflect.Value, err error) dumpLater { return dumpLater{v, err} }
func (d dumpLater) String() string                  { return dump(d.v) }

// TestC28: goroutines with coders of their own, sharing only inputs they read,
// do not disturb each other (run under the race detector).
func TestC28(t *testing.T) {
	check(t, 100, func(t *rapid.T) {
		s := RS{t}
		var jobs []cjob
		for i := 1 + s.N(3); i > 0; i-- {
			jobs = append(jobs, sharedInputs(s, AllEncs[s.N(3)])...)
		}
		g := 2 + s.N(6)
		plan := make([][]int, g)
		for i := range plan {
			for k := 1 + s.N(6); k > 0; k-- {
				plan[i] = append(plan[i], s.N(len(jobs)))
			}
			if s.N(2) == 0 { // everyone begins with the same job
				plan[i] = append([]int{0}, plan[i]...)
			}
		}
		yield := s.N(2) == 1
		var names []string
		for _, j := range jobs {
			names = append(names, j.name)
		}
		t.Logf("%d goroutines, plan %v, jobs %s", g, plan, strings.Join(names, "; "))
		S.Case(true, func() string {
			return fmt.Sprintf("%d goroutines | %v | %s", g, plan, strings.Join(names, "; "))
		})
		S.Class(fmt.Sprintf("%d goroutines", g))
		results := make([][]string, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range plan {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, j := range plan[i] {
					var r string
					if msg := catch(func() { r = jobs[j].run() }); msg != "" {
						r = msg
					}
					results[i] = append(results[i], r)
					if yield {
						runtime.Gosched()
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		// afterwards, alone
		alone := map[int]string{}
		for j := range jobs {
			var r string
			if msg := catch(func() { r = jobs[j].run() }); msg != "" {
				r = msg
			}
			alone[j] = r
			if strings.Contains(r, "(want ") {
				t.Fatalf("%s: %s", jobs[j].name, r)
			}
		}
		for i := range plan {
			for k, j := range plan[i] {
				if results[i][k] != alone[j] {
					t.Fatalf("goroutine %d, %s: with other goroutines running the result was\n%s\nalone it is\n%s", i, jobs[j].name, results[i][k], alone[j])
				}
			}
		}
	})
}
