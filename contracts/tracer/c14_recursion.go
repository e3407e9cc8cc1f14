package tracer

import (
	. "github.com/barnex/bruteray/imagef/colorf"
)

// At the maximum recursion depth a ray sees black, and nothing is evaluated.
//verif:target (*tracer.Scene).LightField
//verif:target (*tracer.Scene).LightFieldIndirect
//verif:target (*tracer.Scene).lightField
func C14_limit(s *Scene, ctx *Ctx, r *Ray) {
	requires(ctx.CurrentRecursionDepth == s.RecursionDepth)
	rays := ctx.Stats.NumRays
	ensures("direct", eqx(s.LightField(ctx, r), Color{}))
	ensures("indirect", eqx(s.LightFieldIndirect(ctx, r), Color{}))
	ensures("nothing traced", ctx.Stats.NumRays == rays)
}

// Below it, materials are shaded one level deeper, never beyond the maximum (see the
// precondition of Shade), and the depth is as before afterwards.
//verif:target (*tracer.Scene).LightField
//verif:target (*tracer.Scene).lightField
//verif:opt pure=(geom.Vec).Normalized
func C14_depth(s *Scene, ctx *Ctx, r *Ray) {
	sSceneOK(s)
	d := ctx.CurrentRecursionDepth
	requires(0 <= d && d <= s.RecursionDepth)
	loopinv(func(front HitRecord) bool { return front.Material != nil })
	s.LightField(ctx, r)
	ensures("depth restored", ctx.CurrentRecursionDepth == d)
}

//verif:target (*tracer.Scene).LightFieldIndirect
//verif:target (*tracer.Scene).lightField
//verif:opt pure=(geom.Vec).Normalized
func C14_depthIndirect(s *Scene, ctx *Ctx, r *Ray) {
	sSceneOK(s)
	d := ctx.CurrentRecursionDepth
	requires(0 <= d && d <= s.RecursionDepth)
	loopinv(func(front HitRecord) bool { return front.Material != nil })
	s.LightFieldIndirect(ctx, r)
	ensures("depth restored", ctx.CurrentRecursionDepth == d)
}

// Shading happens exactly one level deeper.
//verif:target (*tracer.Scene).lightField
//verif:opt pure=(geom.Vec).Normalized
func C14_level(depth int, ctx *Ctx, r *Ray) {
	d := ctx.CurrentRecursionDepth
	requires(0 <= d && d < depth)
	m := &depthProbe{}
	NewScene(depth, nil, &probeObject{m}).LightField(ctx, r)
	ensures("shaded once", m.n == 1)
	ensures("one level deeper", m.depth == d+1)
	ensures("depth restored", ctx.CurrentRecursionDepth == d)
}

type depthProbe struct{ n, depth int }

func (m *depthProbe) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	m.n++
	m.depth = ctx.CurrentRecursionDepth
	return Color{}
}

type probeObject struct{ m *depthProbe }

func (o *probeObject) Intersect(r *Ray) HitRecord {
	return HitRecord{T: 1, Normal: r.Dir, Material: o.m}
}

// sSceneOK: a scene as made by NewScene.
func sSceneOK(s *Scene) {
	requires(forallInt(0, len(s.objectsAndLights), func(j int) bool { return s.objectsAndLights[j] != nil }))
	requires(forallInt(0, len(s.objectsMinusLights), func(j int) bool { return s.objectsMinusLights[j] != nil }))
	requires(forallInt(0, len(s.media), func(j int) bool { return s.media[j] != nil }))
}

// Mutually reflecting mirrors: recursion ends although every surface asks for more.
//verif:target (*tracer.Scene).LightField
//verif:opt pure=(geom.Vec).Normalized
//verif:opt cases=depth:0..2
//verif:bounded maximum depths 0 to 2
func C14_mirrors(depth int, ctx *Ctx, r *Ray) {
	requires(ctx.CurrentRecursionDepth == 0)
	m := &mirrorProbe{}
	s := NewScene(depth, nil, &mirrorObject{m})
	s.LightField(ctx, r)
	ensures("one shading per level", m.n == depth)
	ensures("depth restored", ctx.CurrentRecursionDepth == 0)
}

type mirrorProbe struct{ n int }

func (m *mirrorProbe) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	m.n++
	return s.LightField(ctx, r)
}

type mirrorObject struct{ m *mirrorProbe }

func (o *mirrorObject) Intersect(r *Ray) HitRecord {
	return HitRecord{T: 1, Normal: r.Dir, Material: o.m}
}
