package media

import (
	"math"

	"github.com/barnex/bruteray/tracer"
	. "github.com/barnex/bruteray/tracer/types"
)

func sFinite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
func sDot(a, b Vec) float64  { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sAt(r *Ray, t float64) Vec {
	return Vec{r.Start[0] + t*r.Dir[0], r.Start[1] + t*r.Dir[1], r.Start[2] + t*r.Dir[2]}
}
func sEq(a, b Vec) bool      { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }
func sEqC(a, b Color) bool   { return eq(a.R, b.R) && eq(a.G, b.G) && eq(a.B, b.B) }

// sInside is the part of the ray, up to t, below the height. Kind tells the direction:
// 0 to 2 down, 3 to 5 up, 6 horizontal; and whether the height is crossed before (0, 3),
// after (1, 4) or within (2, 5) that part of the ray.
func sInside(kind int, height float64, r *Ray, t float64) (from, to float64) {
	dy := r.Dir[1]
	requires(kind < 3 && dy < 0 || 3 <= kind && kind < 6 && dy > 0 || kind == 6 && dy == 0)
	wellposed(kind == 6 || math.Abs(dy) > 1e-3)
	if kind == 6 {
		if r.Start[1] < height {
			return 0, t
		}
		return 0, 0
	}
	if kind%3 == 0 {
		requires(kind == 0 && r.Start[1] <= height || kind == 3 && r.Start[1] >= height)
		lemma("crossed before", func() bool { return (height-r.Start[1])/dy <= 0 })
		if kind == 0 {
			return 0, t
		}
		return 0, 0
	}
	cross := (height - r.Start[1]) / dy
	lemma("finite", func() bool { return sFinite(cross) })
	if kind%3 == 1 {
		requires(cross > t)
		if kind == 1 {
			return 0, 0
		}
		return 0, t
	}
	requires(0 < cross && cross < t)
	if kind == 2 {
		return cross, t
	}
	return 0, cross
}

func sCtx(depth int) *Ctx {
	requires(depth >= 1)
	loopinv(func(any_f, any_r float64) bool { return 0 < any_f && 0 <= any_r && any_r+any_f <= 1 })
	loopinv(func(any_i int) bool { return any_i >= 0 })
	ctx := tracer.NewCtx(1)
	ctx.CurrentRecursionDepth = depth
	return ctx
}
