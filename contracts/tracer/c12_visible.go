package tracer

import (
	"math"

	. "github.com/barnex/bruteray/imagef/colorf"
)

// invFirst: while scanning objects, the frontmost is either the one meant or farther.
func invFirst(objs []Object, r *Ray, i int) {
	t := objs[i].Intersect(r)
	loopinv(func(it int, front HitRecord) bool {
		if it <= i {
			return front.T > t.T
		}
		return eqx(front.T, t.T) && samex(front, t)
	})
}

// The light field is the shading of the frontmost object, at its hit coordinates.
//verif:target (*tracer.Scene).LightField
//verif:target (*tracer.Scene).lightField
//verif:target tracer.intersectFrontmost
//verif:target tracer.NewScene
//verif:opt pure=(geom.Vec).Normalized
func C12_frontmost(depth int, objs []Object, i int, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	requires(0 <= i && i < len(objs) && sFirst(objs, r, i))
	h := objs[i].Intersect(r)
	requires(sGoodNormal(h.Normal) && sFiniteV(h.Local) && sFin(h.T))
	invFirst(objs, r, i)
	s := NewScene(depth, nil, objs...)
	got := s.LightField(ctx, r)
	ctx.CurrentRecursionDepth = 1
	want := h.Material.Shade(ctx, s, r, HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	ensures("shade of frontmost", eqx(got, want))
}

// A ray that misses everything sees black.
//verif:target (*tracer.Scene).LightField
func C12_nothing(depth int, objs []Object, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	requires(sNone(objs, r))
	s := NewScene(depth, nil, objs...)
	loopinv(func(front HitRecord) bool { return front.Material == blackMat })
	got := s.LightField(ctx, r)
	ensures("black", eqx(got, Color{}))
}

// With light sources, the frontmost of objects and lights is seen.
//verif:target tracer.NewScene
//verif:target (*tracer.Scene).LightField
//verif:opt pure=(geom.Vec).Normalized
func C12_lights(depth int, lights []Light, objs []Object, i int, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	n := len(objs) + len(lights)
	requires(0 <= i && i < n)
	h := sLit(lights, objs, i).Intersect(r)
	requires(h.T > 0 && forallInt(0, n, func(j int) bool {
		tj := sLit(lights, objs, j).Intersect(r).T
		return j == i || !(tj > 0) || tj > h.T
	}))
	requires(sGoodNormal(h.Normal) && sFin(h.T))
	invScene(lights, objs)
	loopinv(func(it int, front HitRecord) bool {
		if it <= i {
			return front.T > h.T
		}
		return samex(front, h)
	})
	s := NewScene(depth, lights, objs...)
	got := s.LightField(ctx, r)
	ctx.CurrentRecursionDepth = 1
	want := h.Material.Shade(ctx, s, r, HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	ensures("shade of frontmost", eqx(got, want))
}

// sUserObjects: the scene's own wrapper is not among the objects.
func sUserObjects(lights []Light, objs []Object) {
	requires(forallInt(0, len(objs), func(j int) bool { _, ok := objs[j].(*black); return !ok }))
	requires(forallInt(0, len(lights), func(j int) bool { _, ok := lights[j].Object().(*black); return !ok }))
}

// Indirectly, objects are seen as usual.
//verif:target tracer.NewScene
//verif:target (*tracer.Scene).LightFieldIndirect
//verif:opt pure=(geom.Vec).Normalized
//verif:opt devirt=*tracer.black
func C12_indirect(depth int, lights []Light, objs []Object, i int, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	n := len(objs) + len(lights)
	sUserObjects(lights, objs)
	requires(0 <= i && i < len(objs))
	h := objs[i].Intersect(r)
	requires(h.T > 0 && forallInt(0, n, func(j int) bool {
		tj := sLit(lights, objs, j).Intersect(r).T
		return j == i || !(tj > 0) || tj > h.T
	}))
	requires(sGoodNormal(h.Normal) && sFin(h.T))
	invScene(lights, objs)
	loopinv(func(it int, front HitRecord) bool {
		if it <= i {
			return front.T > h.T
		}
		return samex(front, h)
	})
	s := NewScene(depth, lights, objs...)
	got := s.LightFieldIndirect(ctx, r)
	ctx.CurrentRecursionDepth = 1
	want := h.Material.Shade(ctx, s, r, HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	ensures("shade of frontmost", eqx(got, want))
}

// Indirectly, lights are black but still hide what is behind them.
//verif:target tracer.NewScene
//verif:target (*tracer.Scene).LightFieldIndirect
//verif:target (*tracer.black).Intersect
//verif:opt devirt=*tracer.black
func C12_indirectLight(depth int, lights []Light, objs []Object, i int, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	n := len(objs) + len(lights)
	sUserObjects(lights, objs)
	requires(len(objs) <= i && i < n)
	h := sLit(lights, objs, i).Intersect(r)
	requires(h.T > 0 && forallInt(0, n, func(j int) bool {
		tj := sLit(lights, objs, j).Intersect(r).T
		return j == i || !(tj > 0) || tj > h.T
	}))
	requires(sGoodNormal(h.Normal) && sFin(h.T))
	invScene(lights, objs)
	loopinv(func(it int, front HitRecord) bool {
		if it <= i {
			return front.T > h.T
		}
		_, ok := front.Material.(*black)
		return ok && same(front.T, h.T)
	})
	s := NewScene(depth, lights, objs...)
	got := s.LightFieldIndirect(ctx, r)
	ensures("black", eqx(got, Color{}))
}

// Media filter what the camera sees, in order, up to the distance of what is seen.
//verif:target tracer.NewSceneWithMedia
//verif:target (*tracer.Scene).lightField
//verif:opt pure=(geom.Vec).Normalized
//verif:bounded two media
func C12_media(depth int, o Object, m1, m2 Medium, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	h := o.Intersect(r)
	requires(h.T > 0 && sGoodNormal(h.Normal) && sFin(h.T))
	s := NewSceneWithMedia(depth, []Medium{m1, m2}, nil, o)
	got := s.LightField(ctx, r)
	ctx.CurrentRecursionDepth = 1
	c := h.Material.Shade(ctx, s, r, HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	c = m1.Filter(ctx, s, r, h.T, c)
	c = m2.Filter(ctx, s, r, h.T, c)
	ensures("filtered by both media", eqx(got, c))
}

// Media also fill the void.
//verif:target tracer.NewSceneWithMedia
//verif:target (*tracer.Scene).lightField
//verif:opt pure=(geom.Vec).Normalized
func C12_mediaVoid(depth int, m1 Medium, ctx *Ctx, r *Ray) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0 && sGoodNormal(r.Dir))
	s := NewSceneWithMedia(depth, []Medium{m1}, nil)
	got := s.LightField(ctx, r)
	ctx.CurrentRecursionDepth = 1
	ensures("filtered up to infinity", eqx(got, m1.Filter(ctx, s, r, math.Inf(1), Color{})))
}

// An image shows what the camera's ray for each point sees.
//verif:target (*tracer.Scene).ImageFunc
//verif:opt pure=(geom.Vec).Normalized
func C12_image(depth int, o Object, c Camera, ctx *Ctx, u, v float64) {
	requires(depth > 0 && ctx.CurrentRecursionDepth == 0)
	r := *c.RayFrom(ctx, u, v)
	h := o.Intersect(&r)
	requires(h.T > 0 && sGoodNormal(h.Normal) && sFin(h.T))
	s := NewScene(depth, nil, o)
	got := s.ImageFunc(c)(ctx, u, v)
	ctx.CurrentRecursionDepth = 1
	want := h.Material.Shade(ctx, s, &r, HitCoords{T: h.T, Normal: h.Normal.Normalized(), Local: h.Local})
	ensures("seen by the camera's ray", eqx(got, want))
}
