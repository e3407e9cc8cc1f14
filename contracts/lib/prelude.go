package PKG

// Specification vocabulary. The verifier gives these functions their logical meaning;
// the bodies below are only used when a contract is replayed on the real code.

import (
	"math"
	"math/rand"
	rfl "reflect"
	"strconv"
	"strings"
)

type verifSkip struct{}

var verifFails []string
var verifRnd = rand.New(rand.NewSource(1))

// requires states a precondition.
func requires(c bool) {
	if !c {
		panic(verifSkip{})
	}
}

// wellposed excludes inputs that are too ill-conditioned for a floating-point replay;
// it has no logical meaning (the verifier ignores it).
func wellposed(c bool) {
	if !c {
		panic(verifSkip{})
	}
}

// wellposedf is wellposed with a condition that is costly to evaluate symbolically.
func wellposedf(f func() bool) {
	if !f() {
		panic(verifSkip{})
	}
}

// ensures states a postcondition; earlier ones may be used to prove later ones.
func ensures(name string, c bool) {
	if !c {
		verifFails = append(verifFails, name)
	}
}

// lemma is an intermediate claim, proved before it is used.
func lemma(name string, f func() bool) {
	if !f() {
		verifFails = append(verifFails, "lemma "+name)
	}
}

// loopinv offers a candidate invariant for every loop executed from here on; its
// parameters are bound by type to the values the loop carries.
func loopinv(f interface{}) {}

func forallInt(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func existsInt(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func forallReal(f func(float64) bool) bool {
	for i := 0; i < 20; i++ {
		if !f(verifRnd.NormFloat64() * 3) {
			return false
		}
	}
	return true
}

func existsReal(f func(float64) bool) bool { return true }

// eq: equality of reals (up to rounding when replayed).
func eq(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-6*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func le(a, b float64) bool { return a <= b || eq(a, b) }

// same: identical values, NaN included.
func same(a, b float64) bool { return eq(a, b) || a != a && b != b }

// eqx compares two values of the same type componentwise.
func eqx(a, b interface{}) bool { return verifEqv(rfl.ValueOf(a), rfl.ValueOf(b)) }

func samex(a, b interface{}) bool { return eqx(a, b) }

func verifEqv(a, b rfl.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case rfl.Float64:
		return same(a.Float(), b.Float())
	case rfl.Float32:
		x, y := a.Float(), b.Float()
		return same(x, y) || math.Abs(x-y) <= 1e-4*(1+math.Max(math.Abs(x), math.Abs(y)))
	case rfl.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !verifEqv(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case rfl.Array:
		for i := 0; i < a.Len(); i++ {
			if !verifEqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case rfl.Interface:
		return verifEqv(a.Elem(), b.Elem())
	case rfl.Ptr, rfl.Map, rfl.Chan, rfl.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case rfl.Func:
		return a.Pointer() == b.Pointer()
	case rfl.Slice:
		return a.Len() == b.Len() && a.Pointer() == b.Pointer()
	case rfl.Int, rfl.Int8, rfl.Int16, rfl.Int32, rfl.Int64:
		return a.Int() == b.Int()
	case rfl.Uint, rfl.Uint8, rfl.Uint16, rfl.Uint32, rfl.Uint64:
		return a.Uint() == b.Uint()
	case rfl.Bool:
		return a.Bool() == b.Bool()
	case rfl.String:
		return a.String() == b.String()
	}
	return true
}

func snapshot() int { return 0 }

// unchanged: nothing that existed at the snapshot has been modified, except *except.
func unchanged(s int, except ...interface{}) bool { return true }

// wild is an arbitrary IEEE value, including infinities and NaN.
func wild() float64 {
	switch verifRnd.Intn(8) {
	case 0:
		return math.Inf(1)
	case 1:
		return math.Inf(-1)
	case 2:
		return math.NaN()
	case 3:
		return 0
	}
	return verifRnd.NormFloat64()
}

// modifies lists what the function under contract may modify (besides new memory).
func modifies(p ...interface{}) {}

// ghost is an unknown predicate of an object and a value (true when replayed).
// define states what a ghost predicate is taken to mean.
func define(f func() bool) {}

// holds is f(), evaluated as one formula.
func holds(f func() bool) bool { return f() }

func ghost(name string, o, x interface{}) bool { return true }

// printedInt, printedString: the k-th operand in a text written by fmt.
func printedInt(b []byte, k int) int {
	n, _ := strconv.Atoi(printedString(b, k))
	return n
}
func printedString(b []byte, k int) string {
	if f := strings.Fields(string(b)); k < len(f) {
		return f[k]
	}
	return ""
}

// entryInt, entryReal: a value as it was on entry of the loop (in invariants only).
func entryInt(f func() int) int           { return f() }
func entryReal(f func() float64) float64 { return f() }

func printedCount(b []byte) int { return len(strings.Fields(string(b))) }

func roundFloat32() {}
func exactFloat32() {}
func thorough() bool { return true }

// assumeFact records an unproved assumption under a name (listed in the evidence).
func assumeFact(name string, c bool) {
	if !c {
		panic(verifSkip{})
	}
}

var _ = wild

// calcInt and calcReal prove an equation and rewrite all later obligations by it (a becomes b).
func calcInt(name string, a, b int) {
	if a != b {
		verifFails = append(verifFails, "lemma "+name)
	}
}

func calcReal(name string, a, b float64) {
	if !eq(a, b) {
		verifFails = append(verifFails, "lemma "+name)
	}
}

var _, _ = calcInt, calcReal
