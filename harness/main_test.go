package harness

import (
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_HELPER") == "trace" {
		traceHelperMain()
		return
	}
	flag.Parse()
	debug.SetGCPercent(200)
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		if err := S.Write(p); err != nil {
			fmt.Fprintln(os.Stderr, "stats:", err)
			os.Exit(3)
		}
	}
	os.Exit(code)
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var (
	shard  = envInt("VERIF_SHARD", 0)
	shards = envInt("VERIF_SHARDS", 1)
)

// check runs a rapid property with pct percent of the process's case budget.
func check(t *testing.T, pct int, prop func(*rapid.T)) {
	t.Helper()
	n := envInt("VERIF_CHECKS", 200) * pct / 100
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	stop := make(chan struct{})
	defer close(stop)
	var started atomic.Int64
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			if at := started.Load(); at != 0 && time.Since(time.Unix(0, at)) > hangLimit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("VERIF-HANG: one generated case ran for more than %s\n%s\n", hangLimit, buf)
				os.Exit(67)
			}
		}
	}()
	rapid.Check(t, func(t *rapid.T) {
		started.Store(time.Now().UnixNano())
		defer started.Store(0)
		prop(t)
	})
}

// hangLimit is how long one case (a millisecond's work) may take.
var hangLimit = time.Duration(envInt("VERIF_HANG", 60)) * time.Second

// catch turns a panic of the code under test into a string.
func catch(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	fn()
	return ""
}

// lazy formats a value only when the log is printed.
type lazy struct{ v reflect.Value }

func (l lazy) String() string { return short(l.v) }

func iface(v reflect.Value) interface{} { return v.Interface() }

func caseKey(e Enc, ty *Ty, enc []byte) string {
	return fmt.Sprintf("%s | %s | %s", e, ty, hexs(enc))
}

// classify records the shape distribution of a schema-based case.
func classify(ty *Ty, enc []byte) {
	has := map[string]bool{}
	ty.Walk(func(x *Ty) {
		switch x.K {
		case KMap:
			has["map"] = true
		case KEnum:
			has["enum"] = true
		case KCustom:
			has["custom"] = true
			if x.C.Lib {
				has["lib-custom"] = true
			}
		case KPtr:
			has["pointer"] = true
		case KSlice:
			has["slice"] = true
		case KArr:
			has["array"] = true
		case KStruct:
			has["struct"] = true
			for _, f := range x.Fields {
				if f.Opt {
					has["optional"] = true
				}
				if f.COpt {
					has["coption"] = true
				}
				if f.SizeOf != "" {
					has["sizeof"] = true
				}
				if f.Big {
					has["big"] = true
				}
				if !f.OnWire() {
					has["skipped-field"] = true
				}
			}
			if x.Name == "MyList" || x.Name == "MyTree" {
				has["recursive"] = true
			}
		}
	})
	for k := range has {
		S.Class("type has " + k)
	}
	switch {
	case len(enc) == 0:
		S.Class("encoding: 0 bytes")
	case len(enc) < 16:
		S.Class("encoding: 1-15 bytes")
	case len(enc) < 256:
		S.Class("encoding: 16-255 bytes")
	case len(enc) < 16384:
		S.Class("encoding: 256-16383 bytes")
	default:
		S.Class("encoding: >=16384 bytes")
	}
}

func isComposite(ty *Ty) bool {
	switch ty.K {
	case KStruct, KSlice, KArr, KMap, KPtr, KEnum, KCustom:
		return true
	}
	return false
}
