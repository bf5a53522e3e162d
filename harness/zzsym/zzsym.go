// Package zzsym is the interface between harnesses and the symbolic engine.
// Under the engine the functions marked "intrinsic" are replaced; natively
// (replay) they return the recorded values.
package zzsym

import (
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"time"
)

type caseFile struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Values  map[string]uint64 `json:"values"`
}

type result struct {
	Observes []string `json:"observes"`
	Failed   []string `json:"failed"`
	Assumed  bool     `json:"assumed"`
	Done     bool     `json:"done"`
}

var (
	nat      caseFile
	natNames = map[string]int{}
	natRes   result
	harness  = map[string]func(){}
)

type stopRun struct{}

// Reg registers a harness for native replay.
func Reg(name string, f func()) bool { harness[name] = f; return true }

func save() {
	b, _ := json.Marshal(natRes)
	if natFull {
		DiskFull(false)
		defer DiskFull(true)
	}
	_ = os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o600)
}

// NativeMain replays the case named by VERIF_CASE, if any.
func NativeMain() {
	cf := os.Getenv("VERIF_CASE")
	if cf == "" {
		return
	}
	b, err := os.ReadFile(cf)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &nat); err != nil {
		panic(err)
	}
	f := harness[nat.Harness]
	if f == nil {
		panic("no harness " + nat.Harness)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stopRun); ok {
					return
				}
				save()
				panic(x)
			}
		}()
		f()
	}()
	natRes.Done = true
	save()
	os.Exit(0)
}

func lookup(name string) uint64 {
	full := name
	if n := natNames[name]; n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	natNames[name]++
	return nat.Values[full]
}

// Byte is a fresh symbolic byte (intrinsic).
func Byte(name string) byte { return byte(lookup(name)) }

// Bool is a fresh symbolic bool (intrinsic).
func Bool(name string) bool { return lookup(name) != 0 }

func rawInt(name string) int { return int(lookup(name)) }

// Choice is a value in [0,n), explored case by case (intrinsic).
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(lookup(name))
	if v >= n {
		natRes.Assumed = true
		panic(stopRun{})
	}
	return v
}

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := rawInt(name)
	Assume(v <= hi-lo)
	return v + lo
}

// Flag is a bool explored case by case.
func Flag(name string) bool { return Choice(name, 2) == 1 }

// Str is a string of n bytes from the alphabet.
func Str(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		c := Byte(name)
		Assume(inSet(c, alphabet))
		b[i] = c
	}
	return string(b)
}

// StrUpTo is a string of min..max bytes from the alphabet (length explored case by case).
func StrUpTo(name string, lo, hi int, alphabet string) string {
	return Str(name, lo+Choice(name+".len", hi-lo+1), alphabet)
}

func inSet(c byte, alphabet string) bool {
	r := false
	for i := 0; i < len(alphabet); i++ {
		r = Or(r, c == alphabet[i])
	}
	return r
}

// Pick chooses one of the given strings case by case.
func Pick(name string, opts ...string) string { return opts[Choice(name, len(opts))] }

// Assume restricts the inputs (intrinsic).
func Assume(b bool) {
	if !b {
		natRes.Assumed = true
		panic(stopRun{})
	}
}

// Assert is the property (intrinsic).
func Assert(b bool, msg string) {
	if !b {
		natRes.Failed = append(natRes.Failed, msg)
		save()
	}
}

// Observe records something to be compared between engine and real code (intrinsic).
func Observe(s string) { natRes.Observes = append(natRes.Observes, s) }

// Reach counts a situation reached (intrinsic).
func Reach(string) {}

// Tier is 0 for quick and 1 for thorough (intrinsic).
func Tier() int { return nat.Tier }

// Env sets a variable of the environment before the program starts: it has to come before
// everything else of a harness. Natively the process is started again.
func Env(name, value string) {
	if os.Getenv(name) == value {
		return
	}
	if err := os.Setenv(name, value); err != nil {
		panic(stopRun{}) // no such environment
	}
	exe, err := os.Executable()
	if err == nil {
		err = syscall.Exec(exe, os.Args, os.Environ())
	}
	panic(err)
}

// Symbolic reports whether the engine is executing (intrinsic).
func Symbolic() bool { return false }

// Schedules, MapOrders and Races switch exploration of schedules, map
// iteration orders, and data-race detection on or off (intrinsic).
func Schedules(bool) {}
func MapOrders(bool) {}
func Races(bool)     {}
func Yield()         {}

// Delay lets n units of time pass: virtual under the engine, 25 ms each natively (intrinsic).
func Delay(n int) { time.Sleep(time.Duration(n) * 25 * time.Millisecond) }

// And and Or do not branch (intrinsic).
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Not and Iff are conveniences.
func Not(a bool) bool    { return !a }
func Iff(a, b bool) bool { return a == b }

// Concrete explores all values of a string case by case (intrinsic).
func Concrete(s string) string { return s }

// Unsupported ends the path as outside the encoding (intrinsic).
func Unsupported(why string) { panic("unsupported: " + why) }
