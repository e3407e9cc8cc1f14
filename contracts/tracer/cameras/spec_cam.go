package cameras

import (
	"math"

	. "github.com/barnex/bruteray/tracer/types"
)

func sAdd(a, b Vec) Vec             { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func sMul(s float64, a Vec) Vec     { return Vec{s * a[0], s * a[1], s * a[2]} }
func sDot(a, b Vec) float64         { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sEq(a, b Vec) bool             { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }
func sFin(x float64) bool           { return !math.IsNaN(x) && !math.IsInf(x, 0) }
func sCross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// A camera provides some ray.
//verif:iface RayFrom
func contract_RayFrom(c Camera, ctx *Ctx, u, v float64) *Ray {
	r := c.RayFrom(ctx, u, v)
	ensures("not nil", r != nil)
	return r
}
