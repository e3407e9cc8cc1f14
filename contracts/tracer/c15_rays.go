package tracer

import (
	. "github.com/barnex/bruteray/geom"
)

// sPool: a context whose pool holds the given rays, all different.
func sPool(rays []*Ray) *Ctx {
	ctx := NewCtx(1)
	requires(forallInt(0, len(rays), func(i int) bool { return rays[i] != nil }))
	requires(forallInt(0, len(rays), func(i int) bool {
		return forallInt(0, len(rays), func(j int) bool { return i == j || rays[i] != rays[j] })
	}))
	l := make([]interface{}, len(rays))
	loopinv(func(it int) bool {
		return forallInt(0, it, func(j int) bool { return j >= len(rays) || sIsRay(l[j], rays[j]) })
	})
	for i, r := range rays {
		l[i] = r
	}
	ctx.rays.p = l
	return ctx
}

func sIsRay(x interface{}, r *Ray) bool {
	p, ok := x.(*Ray)
	return ok && p == r
}

// Rays handed out are blank and differ from each other and from those still in use,
// whatever the pool holds.
//verif:target (*tracer.Ctx).Ray
//verif:target (*tracer.pool).get
func C15_fresh(rays []*Ray, inUse *Ray) {
	ctx := sPool(rays)
	requires(forallInt(0, len(rays), func(i int) bool { return rays[i] != inUse }))
	a := ctx.Ray()
	ensures("blank", a != nil && eqx(*a, Ray{}))
	ensures("not in use", a != inUse)
	*a = Ray{Start: Vec{1, 2, 3}, Dir: Vec{4, 5, 6}}
	b := ctx.Ray()
	ensures("second blank", b != nil && eqx(*b, Ray{}))
	ensures("second differs", a != b)
	ensures("second not in use", b != inUse)
	ensures("first untouched", eqx(*a, Ray{Start: Vec{1, 2, 3}, Dir: Vec{4, 5, 6}}))
}

// Recycled rays are handed out once each.
//verif:target (*tracer.Ctx).PutRay
//verif:target (*tracer.pool).put
func C15_recycle(rays []*Ray, a, b *Ray) {
	ctx := sPool(rays)
	requires(a != b)
	requires(forallInt(0, len(rays), func(i int) bool { return rays[i] != a && rays[i] != b }))
	ctx.PutRay(a)
	ctx.PutRay(b)
	c, d, e := ctx.Ray(), ctx.Ray(), ctx.Ray()
	ensures("all different", c != d && c != e && d != e)
	ensures("blank", eqx(*c, Ray{}) && eqx(*d, Ray{}) && eqx(*e, Ray{}))
}

// Evaluating the light field leaves the ray as it was (materials and media are assumed
// to respect it, and verified to do so in their packages).
//verif:target (*tracer.Scene).LightField
//verif:opt pure=(geom.Vec).Normalized
func C15_lightField(depth int, lights []Light, objs []Object, ctx *Ctx, r *Ray) {
	requires(0 < depth && ctx.CurrentRecursionDepth == 0)
	invScene(lights, objs)
	s := NewScene(depth, lights, objs...)
	loopinv(func(front HitRecord) bool { return front.Material != nil })
	k := snapshot()
	s.LightField(ctx, r)
	ensures("only the context is modified", unchanged(k, ctx))
}

// An image function gives its ray back only after use.
//verif:target (*tracer.Scene).ImageFunc
//verif:opt pure=(geom.Vec).Normalized
func C15_image(depth int, objs []Object, u, v float64) {
	requires(0 < depth)
	ctx := NewCtx(1)
	loopinv(func(front HitRecord) bool { return front.Material != nil })
	NewScene(depth, nil, objs...).ImageFunc(&probeCam{})(ctx, u, v)
	ensures("given back", len(ctx.rays.p) == 1)
	ensures("depth restored", ctx.CurrentRecursionDepth == 0)
}

type probeCam struct{}

func (c *probeCam) RayFrom(ctx *Ctx, u, v float64) *Ray { return ctx.Ray() }
