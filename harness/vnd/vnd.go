// Package vnd is the nondeterminism interface of the harnesses. Under the
// symbolic executor every function here is intercepted; this file is the
// native implementation used to replay a concrete counterexample.
package vnd

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type input struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}

var (
	inputs []input
	pos    int
	tmpDir string
)

const (
	exitAssert = 10
	exitAssume = 11
	exitDesync = 12
)

// Setup loads the recorded inputs (native replay only).
func Setup(data []byte, dir string) {
	if err := json.Unmarshal(data, &inputs); err != nil {
		fmt.Fprintln(os.Stderr, "REPLAY-DESYNC", err)
		os.Exit(exitDesync)
	}
	tmpDir = dir
}

func next() input {
	if pos >= len(inputs) {
		fmt.Fprintln(os.Stderr, "REPLAY-DESYNC: inputs exhausted")
		os.Exit(exitDesync)
	}
	in := inputs[pos]
	pos++
	return in
}

func nextInt() int {
	in := next()
	var n int
	if err := json.Unmarshal(in.V, &n); err != nil {
		fmt.Fprintln(os.Stderr, "REPLAY-DESYNC", err)
		os.Exit(exitDesync)
	}
	return n
}

// Choice returns a value in [0,n); every value is explored.
func Choice(n int) int {
	if n <= 0 {
		return 0
	}
	return nextInt()
}

// StrOf returns a string over the alphabet with length in [min,max].
func StrOf(alphabet string, min, max int) string { return nextStr() }

// Bytes returns an arbitrary byte string with length in [min,max].
func Bytes(min, max int) string { return nextStr() }

func nextStr() string {
	in := next()
	var b []int
	if err := json.Unmarshal(in.V, &b); err != nil {
		fmt.Fprintln(os.Stderr, "REPLAY-DESYNC", err)
		os.Exit(exitDesync)
	}
	r := make([]byte, len(b))
	for i := range b {
		r[i] = byte(b[i])
	}
	return string(r)
}

func Bool() bool { return nextInt() != 0 }

// Int returns a symbolic integer in [lo,hi].
func Int(lo, hi int) int { return nextInt() }

func Assume(c bool) {
	if !c {
		fmt.Fprintln(os.Stderr, "REPLAY-ASSUME-FALSE")
		os.Exit(exitAssume)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Fprintln(os.Stderr, "REPLAY-ASSERT-FAILED: "+msg)
		os.Exit(exitAssert)
	}
}

func Reach(label string) {}

func Note(v interface{}) {
	fmt.Fprintf(os.Stderr, "REPLAY-NOTE: %s\n", describe(reflect.ValueOf(v)))
}

func describe(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Slice, reflect.Array:
		var ps []string
		for i := 0; i < v.Len(); i++ {
			ps = append(ps, describe(v.Index(i)))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case reflect.Struct:
		var ps []string
		for i := 0; i < v.NumField(); i++ {
			ps = append(ps, describe(v.Field(i)))
		}
		return "{" + strings.Join(ps, " ") + "}"
	case reflect.Map:
		var ps []string
		for _, k := range v.MapKeys() {
			ps = append(ps, describe(k)+":"+describe(v.MapIndex(k)))
		}
		sort.Strings(ps)
		return "map[" + strings.Join(ps, " ") + "]"
	}
	return "?"
}

func MapOrder(on bool) {}

// Preempt bounds the preemptive switches of the rest of the path; with a
// negative bound the schedule is fixed.
func Preempt(n int)  {}
func Symbolic() bool { return false }

// Jitter is put around the synchronisation of the code under test in native
// replays, to reach the schedules the executor explored.
func Jitter() {
	jitterOnce.Do(func() {
		seed, _ := strconv.Atoi(os.Getenv("VND_JITTER"))
		if seed > 0 {
			jitter = rand.New(rand.NewSource(int64(seed)))
		}
	})
	if jitter == nil {
		return
	}
	jitterLock.Lock()
	n := jitter.Intn(8)
	jitterLock.Unlock()
	if n < 4 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(1<<uint(n-4)) * 300 * time.Microsecond)
}

var (
	jitter     *rand.Rand
	jitterLock sync.Mutex
	jitterOnce sync.Once
)

func Yield()          { runtime.Gosched() }
func Quiesce()        { quiesce() }
func Thorough() bool  { return os.Getenv("VND_THOROUGH") == "1" }
func TempDir() string { return filepath.Clean(tmpDir) }

func IsRuntimeError(r interface{}) bool {
	_, ok := r.(runtime.Error)
	return ok
}

func PanicText(r interface{}) string { return fmt.Sprint(r) }

// OnExec gives the function that stands in for running another program under
// the executor; natively the program itself runs.
func OnExec(f func(args []string) error) {}

var onExit func(code int)

// OnExit gives the function the program ends in when the code under test
// calls os.Exit; the path ends after it.
func OnExit(f func(code int)) { onExit = f }

// Exit is os.Exit of the code under test in a native replay.
func Exit(code int) {
	if f := onExit; f != nil {
		onExit = nil
		f(code)
		os.Exit(0)
	}
	os.Exit(code)
}
