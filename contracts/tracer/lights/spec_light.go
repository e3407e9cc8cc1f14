package lights

import (
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	. "github.com/barnex/bruteray/tracer/types"
)

func sSub(a, b Vec) Vec      { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func sDot(a, b Vec) float64  { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sEq(a, b Vec) bool      { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }
func sFinite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// sScaled: c is k times d (up to rounding of the constants involved).
func sScaled(c, d Color, k float64) bool {
	return sClose(c.R, k*d.R) && sClose(c.G, k*d.G) && sClose(c.B, k*d.B)
}
func sClose(a, b float64) bool { return math.Abs(a-b) <= 1e-9*math.Abs(b) }
func sApply(t *geom.AffineTransform, p Vec) Vec {
	return t.TransformPoint(p)
}

// sCtx is a context at any recursion depth.
func sCtx(depth int) *Ctx {
	requires(depth >= 1)
	loopinv(func(any_f, any_r float64) bool { return 0 < any_f && 0 <= any_r && any_r+any_f <= 1 })
	loopinv(func(any_i int) bool { return any_i >= 0 })
	ctx := tracer.NewCtx(1)
	ctx.CurrentRecursionDepth = depth
	return ctx
}

func sDet(m *geom.Matrix) float64 {
	return m[0][0]*(m[1][1]*m[2][2]-m[2][1]*m[1][2]) -
		m[1][0]*(m[0][1]*m[2][2]-m[2][1]*m[0][2]) +
		m[2][0]*(m[0][1]*m[1][2]-m[1][1]*m[0][2])
}
