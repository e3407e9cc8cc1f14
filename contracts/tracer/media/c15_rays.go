package media

import (
	"github.com/barnex/bruteray/tracer"
	. "github.com/barnex/bruteray/tracer/types"
)

// Fog gives its ray back once, and leaves the ray given as it is.
//verif:target (*tracer/media.fog).Filter
//verif:opt pure=(geom.Vec).Normalized
func C15_fog(density, height float64, n int, lights []Light, r *Ray, t float64, orig Color) {
	requires(r != nil && t > 0)
	requires(forallInt(0, len(lights), func(i int) bool { return lights[i] != nil }))
	ctx := sCtx(1)
	r0 := *r
	Fog(density, height, n).Filter(ctx, tracer.NewScene(5, lights), r, t, orig)
	a, b, c := ctx.Ray(), ctx.Ray(), ctx.Ray()
	ensures("rays are given back once", a != b && a != c && b != c)
	ensures("the ray given is not recycled", a != r && b != r && c != r)
	ensures("the ray given is not modified", eqx(*r, r0))
}
