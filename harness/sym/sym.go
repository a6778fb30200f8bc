// Package sym is the interface between a harness and the symbolic executor.
// The executor intercepts every function here; compiled natively they replay
// one concrete assignment of the inputs against the real build.
package sym

import (
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type fail struct{ msg string }
type assumeFail struct{}

var in map[string]int64
var nth map[string]int
var obs map[string]string
var nobs map[string]int
var thorough bool
var scratch string
var jitter bool

func val(name string, def int64) int64 {
	k := fmt.Sprintf("in:%s#%d", name, nth[name])
	nth[name]++
	if v, ok := in[k]; ok {
		return v
	}
	return def
}

func clampDef(lo, hi int64) int64 {
	if lo > 0 || hi < 0 {
		return lo
	}
	return 0
}

// Int is an integer input in [lo, hi].
func Int(name string, lo, hi int) int { return int(val(name, clampDef(int64(lo), int64(hi)))) }

// Bool is a boolean input.
func Bool(name string) bool { return val(name, 0) == 1 }

// Grid is a float input taking every integer value in [lo, hi].
func Grid(name string, lo, hi int) float64 { return float64(Int(name, lo, hi)) }

// GridDen is a float input taking every value k/den, k in [lo, hi].
func GridDen(name string, lo, hi, den int) float64 {
	return float64(Int(name, lo, hi)) / float64(den)
}

// Choose is an input in [0, n) that the executor enumerates.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Param is a bound: quick or thorough.
func Param(quick, thor int) int {
	if thorough {
		return thor
	}
	return quick
}

// Symbolic is true under the executor.
func Symbolic() bool { return false }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(fail{msg})
	}
}

// Reach is a reachability witness.
func Reach(name string) {}

// Observe records values which the executor and the native run must agree on.
func Observe(name string, v ...int) {
	obs[fmt.Sprintf("%s#%d", name, nobs[name])] = fmt.Sprint(v)
	nobs[name]++
}

// ObserveBool records booleans as 0/1.
func ObserveBool(name string, v ...bool) {
	r := make([]int, len(v))
	for i := range v {
		r[i] = B2I(v[i])
	}
	Observe(name, r...)
}

// And without branching.
func And(v ...bool) bool {
	for _, b := range v {
		if !b {
			return false
		}
	}
	return true
}

// Or without branching.
func Or(v ...bool) bool {
	for _, b := range v {
		if b {
			return true
		}
	}
	return false
}

// Not without branching.
func Not(b bool) bool { return !b }

// Implies without branching.
func Implies(a, b bool) bool { return !a || b }

// Iff without branching.
func Iff(a, b bool) bool { return a == b }

// IteInt without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteF without branching.
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

// B2I without branching.
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ConcInt enumerates the values of v.
func ConcInt(v int) int { return v }

// ConcBool enumerates the values of v.
func ConcBool(v bool) bool { return v }

func cmp(a, b float64) int {
	if a == b {
		return 0
	}
	tol := 1e-9 * math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
	if math.Abs(a-b) <= tol {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

// FLe, FLt, FEq compare as reals (natively with a tolerance).
func FLe(a, b float64) bool { return cmp(a, b) <= 0 }
func FLt(a, b float64) bool { return cmp(a, b) < 0 }
func FEq(a, b float64) bool { return cmp(a, b) == 0 }

// NoMerge switches state merging off or on.
func NoMerge(bool) {}

// Schedules makes scheduling decisions choices from here on: all schedules that
// depart from first-come-first-served by at most the given number of delays.
func Schedules(delays int) {}

// Jitter lets time pass at random, to vary the schedules of a replay.
func Jitter() {
	if jitter && rand.Intn(3) == 0 {
		time.Sleep(time.Duration(rand.Intn(300)) * time.Microsecond)
	}
}

// SchedulesOff returns to the deterministic schedule.
func SchedulesOff() {}

// Races turns the happens-before race detector on.
func Races() {}

// SameTies makes the same comparison come out the same each time it is made,
// where exact values tie and rounding decides.
func SameTies() {}

// MapOrders makes map iteration order a choice: up to n times altogether an
// entry is passed over in favour of a later one.
func MapOrders(n int) {}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case fail, assumeFail:
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// Cross is (b-a) x (c-a).
func Cross(ax, ay, bx, by, cx, cy float64) float64 {
	return (bx-ax)*(cy-ay) - (by-ay)*(cx-ax)
}

func sgn(v float64) int {
	if v > 0 {
		return 1
	} else if v < 0 {
		return -1
	}
	return 0
}

func onSeg(ax, ay, bx, by, px, py float64) bool {
	return math.Min(ax, bx) <= px && px <= math.Max(ax, bx) && math.Min(ay, by) <= py && py <= math.Max(ay, by)
}

// SegInter: do the closed segments ab and cd share a point?
func SegInter(ax, ay, bx, by, cx, cy, dx, dy float64) bool {
	o1, o2 := sgn(Cross(ax, ay, bx, by, cx, cy)), sgn(Cross(ax, ay, bx, by, dx, dy))
	o3, o4 := sgn(Cross(cx, cy, dx, dy, ax, ay)), sgn(Cross(cx, cy, dx, dy, bx, by))
	if o1*o2 < 0 && o3*o4 < 0 {
		return true
	}
	return o1 == 0 && onSeg(ax, ay, bx, by, cx, cy) || o2 == 0 && onSeg(ax, ay, bx, by, dx, dy) ||
		o3 == 0 && onSeg(cx, cy, dx, dy, ax, ay) || o4 == 0 && onSeg(cx, cy, dx, dy, bx, by)
}

// PtSegDist2: squared distance of p to segment ab.
func PtSegDist2(px, py, ax, ay, bx, by float64) float64 {
	vx, vy, wx, wy := bx-ax, by-ay, px-ax, py-ay
	l := vx*vx + vy*vy
	t := wx*vx + wy*vy
	if l == 0 || t <= 0 {
		return wx*wx + wy*wy
	}
	if t >= l {
		return (px-bx)*(px-bx) + (py-by)*(py-by)
	}
	c := vx*wy - vy*wx
	return c * c / l
}

// SegSegDist2: squared distance of segments ab and cd.
func SegSegDist2(ax, ay, bx, by, cx, cy, dx, dy float64) float64 {
	if SegInter(ax, ay, bx, by, cx, cy, dx, dy) {
		return 0
	}
	return math.Min(math.Min(PtSegDist2(ax, ay, cx, cy, dx, dy), PtSegDist2(bx, by, cx, cy, dx, dy)),
		math.Min(PtSegDist2(cx, cy, ax, ay, bx, by), PtSegDist2(dx, dy, ax, ay, bx, by)))
}

// Path is a file name in the scratch directory of this run.
func Path(name string) string { return filepath.Join(scratch, name) }

// WriteFile writes a scratch file.
func WriteFile(path, text string) {
	if err := ioutil.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// ReadFile reads a file, if it is there.
func ReadFile(path string) (string, bool) {
	b, err := ioutil.ReadFile(path)
	return string(b), err == nil
}

// Args sets the command line.
func Args(a ...string) {
	os.Args = append([]string{"plugin"}, a...)
	flag.CommandLine = flag.NewFlagSet("plugin", flag.PanicOnError)
	log.SetOutput(ioutil.Discard)
}

// Num writes a number.
func Num(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// Str writes an integer.
func Str(i int) string { return strconv.Itoa(i) }
