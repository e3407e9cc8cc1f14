package sequence

import (
	"math"

	. "github.com/barnex/bruteray/geom"
)

// Halton numbers are in the unit interval, for every base and index.
//verif:target sequence.Halton
func C18_haltonRange(b, i int) {
	requires(b >= 2 && i >= 0)
	loopinv(func(any_f, any_r float64) bool { return 0 < any_f && 0 <= any_r && any_r+any_f <= 1 })
	loopinv(func(any_i int) bool { return any_i >= 0 })
	x := Halton(b, i)
	ensures("not negative", 0 <= x)
	ensures("below one", x < 1)
}

// They are the radical inverses of the natural numbers.
//verif:target sequence.Halton
//verif:opt cases=b:2..7
//verif:bounded bases 2 to 7
func C18_haltonValue(b, i int, phi sRadical) {
	requires(b >= 2 && i >= 0)
	n := i + 1
	sIsRadical(phi, b, n)
	invHalton(phi, b, n)
	ensures("radical inverse", eq(Halton(b, i), phi.At(b, n)))
}

// Whatever the pixel and pass, generated numbers are in the unit square, and depend on
// pixel and pass only.
//verif:target sequence.NewHalton
//verif:target (*sequence.halton).Init
//verif:target (*sequence.halton).Generate2
//verif:target util.Frac
func C18_generate(shifts []Vec2, pixel, pass, pixel2, pass2 int) {
	requires(0 <= pixel && pixel < len(shifts) && pass >= 0)
	requires(0 <= pixel2 && pixel2 < len(shifts) && pass2 >= 0)
	requires(forallInt(0, len(shifts), func(i int) bool {
		s := shifts[i]
		return 0 <= s[0] && s[0] < 1 && 0 <= s[1] && s[1] < 1
	}))
	loopinv(func(any_f, any_r float64) bool { return 0 < any_f && 0 <= any_r && any_r+any_f <= 1 })
	loopinv(func(any_i int) bool { return any_i >= 0 })
	s := NewHalton(2, 3, 1, shifts)
	s.Init(pixel2, pass2)
	s.Generate2()
	s.Init(pixel, pass)
	u, v := s.Generate2()
	ensures("u in unit interval", 0 <= u && u < 1)
	ensures("v in unit interval", 0 <= v && v < 1)
}

//verif:target sequence.NewHalton
//verif:target (*sequence.halton).Generate2
//verif:opt pure=tracer/sequence.Halton
func C18_shifted(b1, b2 int, shifts []Vec2, pixel, pass, pixel2, pass2 int) {
	requires(b1 >= 2 && b2 >= 2)
	requires(0 <= pixel && pixel < len(shifts) && pass >= 0)
	requires(0 <= pixel2 && pixel2 < len(shifts) && pass2 >= 0)
	s := NewHalton(b1, b2, 1, shifts)
	s.Init(pixel2, pass2)
	s.Generate2()
	s.Init(pixel, pass)
	u, v := s.Generate2()
	x, y := Halton(b1, pass)+shifts[pixel][0], Halton(b2, pass)+shifts[pixel][1]
	requires(!math.IsNaN(x) && !math.IsInf(x, 0) && !math.IsNaN(y) && !math.IsInf(y, 0))
	wellposed(math.Abs(x-1) > 1e-6 && math.Abs(y-1) > 1e-6)
	ensures("u is the shifted Halton number", eq(u, x-math.Floor(x)))
	ensures("v is the shifted Halton number", eq(v, y-math.Floor(y)))
}

//verif:target sequence.PseudoRandom
//verif:target (*sequence.pseudoRandom).Generate2
func C18_pseudo(pixel, pass int) {
	s := PseudoRandom()
	s.Init(pixel, pass)
	u, v := s.Generate2()
	ensures("u in unit interval", 0 <= u && u < 1)
	ensures("v in unit interval", 0 <= v && v < 1)
}

// The disk is sampled uniformly: area is preserved.
//verif:target sequence.UniformDisk
func C18_disk(u, v float64) {
	requires(0 <= u && u <= 1 && 0 <= v && v <= 1)
	x, y := UniformDisk(u, v)
	ensures("area proportional to v", eq(x*x+y*y, v))
	ensures("angle x", eq(x, math.Sqrt(v)*math.Cos(2*math.Pi*u)))
	ensures("angle y", eq(y, math.Sqrt(v)*math.Sin(2*math.Pi*u)))
}

// Directions are on the hemisphere around the normal, cosine-distributed.
//verif:target sequence.CosineSphere
//verif:target sequence.UniformDisk
func C18_hemisphere(u, v float64, n Vec) {
	requires(0 <= u && u <= 1 && 0 <= v && v <= 1)
	requires(eq(sDot(n, n), 1))
	d := CosineSphere(u, v, n)
	ensures("cosine", eq(sDot(d, n), math.Sqrt(1-v)))
	ensures("unit length", eq(sDot(d, d), 1))
}

// Directions turn uniformly around the normal with u.
//verif:target sequence.CosineSphere
func C18_around(n Vec) {
	requires(eq(sDot(n, n), 1))
	a := CosineSphere(0, 1, n)
	b := CosineSphere(0.25, 1, n)
	c := CosineSphere(0.5, 1, n)
	ensures("quarter turn", eq(sDot(a, b), 0))
	ensures("half turn", eq(sDot(a, c), -1))
}
