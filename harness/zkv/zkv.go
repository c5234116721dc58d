// Package zkv is the interface between the harnesses and the symbolic
// executor.  Every function below has a native implementation, used to replay
// solver assignments against the compiled code; the executor overrides the
// ones marked [sym].
package zkv

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

type replayCase struct {
	Harness string            `json:"harness"`
	Mem     uint64            `json:"mem"`
	Inputs  map[string]uint64 `json:"inputs"`
	Tier    int               `json:"tier"`
	Perturb uint64            `json:"perturb"`
}

var (
	mu      sync.Mutex
	cur     replayCase
	counts  = map[string]int{}
	ideal   = map[string][]idealRec{}
	randCtr uint64
	pert    uint64
)

type idealRec struct {
	out  []byte
	args [][]byte
}

func dummy() {}

func input(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name] = n + 1
	return cur.Inputs[fmt.Sprintf("%s#%d", name, n)]
}

// [sym] arbitrary values.
func U8(name string) uint8   { return uint8(input(name)) }
func U16(name string) uint16 { return uint16(input(name)) }
func U32(name string) uint32 { return uint32(input(name)) }
func U64(name string) uint64 { return input(name) }
func I64(name string) int64  { return int64(input(name)) }
func Bool(name string) bool  { return input(name)&1 == 1 }
func I32(name string) int32  { return int32(input(name)) }

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// [sym] Concrete splits the path over the feasible values of x.
func Concrete(x int) int { return x }

// [sym] Free reports whether s has bytes that are not fixed on this path.
func Free(s string) bool { return false }

// Range returns an arbitrary integer in lo..hi (kept symbolic).
func Range(name string, lo, hi int) int {
	x := int(I64(name))
	Assume(x >= lo && x <= hi)
	return x
}

// Choose returns an arbitrary integer in 0..n-1, one path per value.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	x := U8(name)
	Assume(int(x) < n)
	return Concrete(int(x))
}

// BytesUpTo returns between 0 and max arbitrary bytes.
func BytesUpTo(name string, max int) []byte { return Bytes(name, Choose(name+".len", max+1)) }

// Str returns a string of n arbitrary bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// StrUpTo returns a string of up to max arbitrary bytes.
func StrUpTo(name string, max int) string { return string(BytesUpTo(name, max)) }

// Fork splits on a symbolic boolean.
func Fork(b bool) bool {
	if b {
		return true
	}
	return false
}

// [sym] Assume cuts paths on which c is false.
func Assume(c bool) {
	if !c {
		fmt.Println("ZKV-ASSUME")
		os.Exit(0)
	}
}

// [sym] Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		fmt.Println("ZKV-FAIL " + msg)
		os.Exit(3)
	}
}

// AssertK is Assert with a known failing class: when the assertion fails
// and known holds, the failure is the listed finding id.
func AssertK(c bool, known bool, id, msg string) {
	if !known {
		Assert(c, msg)
		return
	}
	Assert(c, "[known "+id+"] "+msg)
	if !c {
		Stop()
	}
}

// [sym] Stop ends the path without judging it.
func Stop() {
	fmt.Println("ZKV-DONE")
	os.Exit(0)
}

// [sym] Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { fmt.Println("ZKV-REACH " + label) }

// [sym] Obs records values for the comparison of the executor with the
// compiled code.
func ObsInt(label string, x int64)    { fmt.Printf("ZKV-OBS %s %d\n", label, x) }
func ObsU(label string, x uint64)     { fmt.Printf("ZKV-OBS %s %d\n", label, x) }
func ObsBytes(label string, b []byte) { fmt.Printf("ZKV-OBS %s %s\n", label, hex.EncodeToString(b)) }

func ObsStr(label, s string) { ObsBytes(label, []byte(s)) }
func ObsBool(label string, b bool) {
	if b {
		ObsInt(label, 1)
	} else {
		ObsInt(label, 0)
	}
}
func ObsErr(label string, err error) { ObsBool(label, err != nil) }

// [sym] Tier is 0 for the quick and 1 for the thorough exploration.
func Tier() int { return cur.Tier }

// Pick returns q in the quick and t in the thorough tier.
func Pick(q, t int) int {
	if Tier() == 0 {
		return q
	}
	return t
}

// [sym] Interleave enables schedule exploration with n preemptions.
func Interleave(n int) { pert = cur.Perturb }

// [sym] Delays enables delay-bounded schedule exploration: goroutines run round
// robin until they block, and up to n times another one runs instead.
func Delays(n int) { pert = cur.Perturb }

// [sym] MemPreempt adds preemption points at accesses of the code under test
// to memory shared between goroutines.
func MemPreempt() {}

// [sym] MapOrder makes the iteration order of maps arbitrary.
func MapOrder() {}

// [sym] MapOrderOff ends that.
func MapOrderOff() {}

// [sym] Native reports whether this is the compiled replay.
func Native() bool { return true }

// [sym] Quiesce waits until every other goroutine is blocked or gone.
func Quiesce() {
	quiet := 0
	buf := make([]byte, 1<<20)
	for i := 0; i < 20000 && quiet < 4; i++ {
		time.Sleep(300 * time.Microsecond)
		s := string(buf[:runtime.Stack(buf, true)])
		busy := false
		for n, g := range strings.Split(s, "\n\n") {
			if n == 0 {
				continue // this goroutine
			}
			l := g
			if j := strings.IndexByte(g, '\n'); j >= 0 {
				l = g[:j]
			}
			if strings.Contains(l, "[running") || strings.Contains(l, "[runnable") || strings.Contains(l, "[sleep") {
				busy = true
			}
		}
		if busy {
			quiet = 0
		} else {
			quiet++
		}
	}
}

// [sym] Gate is a possible preemption point.
func Gate() {
	if pert != 0 {
		mu.Lock()
		pert = pert*6364136223846793005 + 1442695040888963407
		r := pert >> 60
		mu.Unlock()
		switch {
		case r < 5:
		case r < 12:
			runtime.Gosched()
		default:
			time.Sleep(time.Duration(r-11) * 50 * time.Microsecond)
		}
	}
}

// [sym] Ideal returns the n-byte output of an ideal (collision-free,
// one-way) function named kind on args.
func Ideal(kind string, n int, args ...[]byte) []byte {
	h := sha256.New()
	h.Write([]byte(kind))
	var l [8]byte
	for _, a := range args {
		binary.BigEndian.PutUint64(l[:], uint64(len(a)))
		h.Write(l[:])
		h.Write(a)
	}
	seed := h.Sum(nil)
	var out []byte
	for i := 0; len(out) < n; i++ {
		binary.BigEndian.PutUint64(l[:], uint64(i))
		x := sha256.Sum256(append(append([]byte{}, seed...), l[:]...))
		out = append(out, x[:]...)
	}
	out = out[:n]
	var cp [][]byte
	for _, a := range args {
		cp = append(cp, append([]byte{}, a...))
	}
	mu.Lock()
	ideal[kind] = append(ideal[kind], idealRec{append([]byte{}, out...), cp})
	mu.Unlock()
	return out
}

// [sym] IdealSym is Ideal where the first two arguments form an unordered pair.
func IdealSym(kind string, n int, a, b []byte) []byte {
	if string(a) > string(b) {
		a, b = b, a
	}
	return Ideal(kind, n, a, b)
}

// [sym] The outputs made so far, with their arguments.
func IdealN(kind string) int                { return len(ideal[kind]) }
func IdealOut(kind string, i int) []byte    { return append([]byte{}, ideal[kind][i].out...) }
func IdealArg(kind string, i, j int) []byte { return append([]byte{}, ideal[kind][i].args[j]...) }

// [sym] RandBytes returns n fresh random bytes.
func RandBytes(n int) []byte {
	mu.Lock()
	randCtr++
	c := randCtr
	mu.Unlock()
	var l [16]byte
	copy(l[:], "zkvrand!")
	binary.BigEndian.PutUint64(l[8:], c)
	var out []byte
	for i := byte(0); len(out) < n; i++ {
		x := sha256.Sum256(append(l[:], i))
		out = append(out, x[:]...)
	}
	return out[:n]
}

// [sym] BytesEq compares byte strings without splitting the path.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }

// [sym] And, Or, Not, Implies combine conditions without splitting the path.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// [sym] Ite selects without splitting the path.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Catch runs f and reports whether it panicked (FS-crash sentinels included).
func Catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Main replays one recorded case (native only).
func Main(hs map[string]func()) {
	f := os.Getenv("ZKV_CASE")
	if f == "" {
		return
	}
	b, err := readFile(f)
	if err != nil {
		fmt.Println("ZKV-ERR", err)
		os.Exit(4)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Println("ZKV-ERR", err)
		os.Exit(4)
	}
	h := hs[cur.Harness]
	if h == nil {
		fmt.Println("ZKV-ERR no harness", cur.Harness)
		os.Exit(4)
	}
	mem := uint64(8 << 30)
	if cur.Mem > 0 {
		mem = cur.Mem << 20
	}
	limit := syscall.Rlimit{Cur: mem, Max: mem}
	syscall.Setrlimit(syscall.RLIMIT_AS, &limit)
	go watchdog()
	h()
	fmt.Println("ZKV-DONE")
	os.Exit(0)
}

func watchdog() {
	<-time.After(10 * time.Second)
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Printf("ZKV-HANG\n%s\n", buf[:n])
	os.Exit(5)
}

func readFile(f string) ([]byte, error) { return os.ReadFile(f) }
