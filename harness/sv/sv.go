// Package sv is the interface between harnesses and the checking engine. The engine replaces every
// function here; natively they read the inputs of one counterexample or witness.
package sv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type bytesVal struct {
	Len uint64            `json:"len"`
	Set map[string]uint64 `json:"set"`
}

type vector struct {
	Vals  map[string]uint64    `json:"vals"`
	Bytes map[string]*bytesVal `json:"bytes"`
}

var (
	mu     sync.Mutex
	vec    vector
	seen   = map[string]int{}
	limit  uint64
	start  uint64
	base   int
	deep   = os.Getenv("SV_DEEP") != ""
	jitter = os.Getenv("SV_JITTER") != ""
	rng    uint64
)

// Main runs one harness natively; called from the generated main package.
func Main(harnesses map[string]func()) {
	b, err := os.ReadFile(os.Getenv("SV_VEC"))
	if err == nil {
		err = json.Unmarshal(b, &vec)
	}
	if err != nil {
		fmt.Println("SV-ERROR", err)
		os.Exit(9)
	}
	s, _ := strconv.Atoi(os.Getenv("SV_JITTER"))
	rng = uint64(s)*2654435761 + 88172645463325252
	f := harnesses[os.Getenv("SV_HARNESS")]
	if f == nil {
		fmt.Println("SV-ERROR no harness")
		os.Exit(9)
	}
	base = runtime.NumGoroutine()
	f()
	AllocLimit(0)
	fmt.Println("SV-DONE")
	os.Exit(0)
}

func name(n string) string {
	mu.Lock()
	defer mu.Unlock()
	k := seen[n]
	seen[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func get(n string) uint64 { return vec.Vals[name(n)] }

func U8(n string) uint8    { return uint8(get(n)) }
func U16(n string) uint16  { return uint16(get(n)) }
func U32(n string) uint32  { return uint32(get(n)) }
func U64(n string) uint64  { return get(n) }
func I8(n string) int8     { return int8(get(n)) }
func I16(n string) int16   { return int16(get(n)) }
func I32(n string) int32   { return int32(get(n)) }
func I64(n string) int64   { return int64(get(n)) }
func Int(n string) int     { return int(get(n)) }
func Bool(n string) bool   { return get(n) != 0 }
func F32(n string) float32 { return math.Float32frombits(uint32(get(n))) }
func F64(n string) float64 { return math.Float64frombits(get(n)) }

// IntRange is an arbitrary value in [lo,hi].
func IntRange(n string, lo, hi int) int { return int(get(n)) }

// Choose is an arbitrary value in [0,k), explored by case split.
func Choose(n string, k int) int { return int(get(n)) }

func mk(n string) []byte {
	v := vec.Bytes[name(n)]
	if v == nil {
		return []byte{}
	}
	b := make([]byte, v.Len)
	for i, x := range v.Set {
		k, _ := strconv.Atoi(i)
		if k < len(b) {
			b[k] = byte(x)
		}
	}
	return b
}

// Bytes is an arbitrary byte slice of any length up to max.
func Bytes(n string, max int) []byte { return mk(n) }

// BytesN is an arbitrary byte slice of length l.
func BytesN(n string, l int) []byte {
	b := mk(n)
	for len(b) < l {
		b = append(b, 0)
	}
	return b[:l:l]
}
func String(n string, max int) string { return string(mk(n)) }
func StringN(n string, l int) string  { return string(BytesN(n, l)) }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fmt.Println("SV-ASSUME")
		os.Exit(4)
	}
}

func viol(label string) {
	fmt.Println("SV-VIOLATION " + label)
	os.Exit(3)
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		viol(label)
	}
}
func Fail(label string) { viol(label) }

func SameBytes(a, b []byte, label string) {
	if string(a) != string(b) {
		viol(label)
	}
}
func SameString(a, b string, label string) {
	if a != b {
		viol(label)
	}
}

// Reach marks a point that must be reachable for the harness not to be vacuous.
func Reach(label string) {}

// Yield is a scheduling point.
func Yield() {
	if jitter {
		mu.Lock()
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		r := rng
		mu.Unlock()
		switch r % 4 {
		case 0:
			time.Sleep(time.Duration(r>>8%200) * time.Microsecond)
		case 1:
			runtime.Gosched()
		}
	}
}

// Quiesce lets every other goroutine run until it ends or blocks; it returns how many are still alive.
func Quiesce() int {
	calm := 0
	for i := 0; i < 5000 && calm < 3; i++ {
		time.Sleep(time.Millisecond)
		if busy() {
			calm = 0
		} else {
			calm++
		}
	}
	return runtime.NumGoroutine() - base
}

// busy reports whether another goroutine can run.
func busy() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	first := true
	for _, l := range bytes.Split(buf, []byte("\n")) {
		if !bytes.HasPrefix(l, []byte("goroutine ")) {
			continue
		}
		if first {
			first = false
			continue
		}
		for _, st := range []string{"[running", "[runnable", "[sleep", "[syscall", "[copystack", "[preempted"} {
			if bytes.Contains(l, []byte(st)) {
				return true
			}
		}
	}
	return false
}

// AllocLimit bounds the bytes allocated from now on; 0 ends the region.
func AllocLimit(n int) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if limit != 0 && ms.TotalAlloc-start > limit+1<<16 {
		viol("allocation")
	}
	limit = uint64(n)
	start = ms.TotalAlloc
}

// Symbolic reports whether the engine is running the harness.
func Symbolic() bool { return false }

// Deep reports whether the thorough tier is running.
func Deep() bool { return deep }

// Conc case-splits on the value of x.
func Conc(x int) int { return x }

func Observe(n string, v uint64) { fmt.Printf("SV-OBS %s %d\n", n, v) }
func ObserveBytes(n string, b []byte) {
	if len(b) > 512 {
		b = b[:512]
	}
	fmt.Printf("SV-OBS %s %x\n", n, b)
}

// Races turns on data race checking.
func Races() {}

// Preempt sets the preemption bound of this harness; a negative one fixes the schedule.
func Preempt(n int) {}

func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Hang blocks forever.
func Hang() { select {} }
