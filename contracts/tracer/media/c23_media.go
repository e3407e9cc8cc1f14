package media

import (
	"github.com/barnex/bruteray/tracer"
	"math"

	. "github.com/barnex/bruteray/tracer/types"
)

// Seen through fog, colours fade exponentially into that of the fog.
//verif:target tracer/media.ExpFog
//verif:target (*tracer/media.expFog).Filter
//verif:target tracer/media.intersectHalfSpace
//verif:target tracer/media.intersectIntervals
//verif:opt cases=kind:0..6
func C23_exp(kind int, density float64, ambient, orig Color, height float64, s *Scene, r *Ray, t float64) {
	requires(density > 0 && t > 0)
	from, to := sInside(kind, height, r, t)
	got := ExpFog(density, ambient, height).Filter(sCtx(1), s, r, t, orig)
	k := math.Exp(-(to - from) * density)
	ensures("R", eq(got.R, k*orig.R+(1-k)*ambient.R))
	ensures("G", eq(got.G, k*orig.G+(1-k)*ambient.G))
	ensures("B", eq(got.B, k*orig.B+(1-k)*ambient.B))
}

// Without a limit in height, all of the ray is in the fog.
//verif:target (*tracer/media.expFog).Filter
func C23_expEverywhere(density float64, ambient, orig Color, s *Scene, r *Ray, t float64) {
	requires(density > 0 && t > 0)
	got := ExpFog(density, ambient, math.Inf(1)).Filter(sCtx(1), s, r, t, orig)
	k := math.Exp(-t * density)
	ensures("R", eq(got.R, k*orig.R+(1-k)*ambient.R))
	ensures("G", eq(got.G, k*orig.G+(1-k)*ambient.G))
	ensures("B", eq(got.B, k*orig.B+(1-k)*ambient.B))
}

// Where nothing is hit, rays that stay in the fog show nothing else.
//verif:target (*tracer/media.expFog).Filter
func C23_expInfinite(density float64, ambient, orig Color, height float64, s *Scene, r *Ray) {
	requires(density > 0)
	requires(r.Dir[1] < 0 || r.Dir[1] == 0 && r.Start[1] < height)
	wellposed(r.Dir[1] == 0 || r.Dir[1] < -1e-3)
	got := ExpFog(density, ambient, height).Filter(sCtx(1), s, r, math.Inf(1), orig)
	ensures("only fog", sEqC(got, ambient))
}

// Fog is only applied to rays from the camera.
//verif:target (*tracer/media.expFog).Filter
//verif:target (*tracer/media.fog).Filter
func C23_secondary(density float64, ambient, orig Color, height, t float64, n int, s *Scene, r *Ray, depth int) {
	requires(depth > 1)
	ensures("unaltered", eqx(ExpFog(density, ambient, height).Filter(sCtx(depth), s, r, t, orig), orig))
	ensures("also in lit fog", eqx(Fog(density, height, n).Filter(sCtx(depth), s, r, t, orig), orig))
}

// Points in fog are drawn within the interval, exponentially distributed.
//verif:target tracer/media.randExpInterval
func C23_interval(u, density, max float64) {
	requires(0 <= u && u < 1 && density > 0 && max > 0)
	wellposed(density*max > 0.01 && density*max < 10)
	t, w := randExpInterval(u, density, max)
	e := math.Exp(-density * max)
	ensures("weight", eq(w, 1-e))
	ensures("distribution", eq(math.Exp(-density*t), 1-u*(1-e)))
	ensures("not before", t >= 0)
	ensures("not beyond", le(t, max))
}

// sCloud may be in the way of light; it keeps the rays that were cast.
type sCloud struct {
	t    float64
	n    int
	rays [2]Ray
}

func (c *sCloud) Intersect(r *Ray) HitRecord {
	c.rays[c.n] = *r
	c.n++
	return HitRecord{T: c.t, Material: nil}
}

// sLamp keeps the point it was sampled for.
type sLamp struct {
	pos    Vec
	c      Color
	target Vec
	n      int
}

func (l *sLamp) Sample(ctx *Ctx, target Vec) (Vec, Color) {
	l.n++
	l.target = target
	return l.pos, l.c
}
func (l *sLamp) Object() Object           { return l }
func (l *sLamp) Intersect(*Ray) HitRecord { return HitRecord{} }

// Lit fog scatters the light that arrives at a point of the ray within the fog, in
// proportion to what it takes away.
//verif:target tracer/media.Fog
//verif:target (*tracer/media.fog).Filter
//verif:target tracer/media.randExpInterval
//verif:opt cases=kind:0..6
//verif:opt unroll=4
//verif:bounded one light
func C23_lit(kind int, density float64, orig Color, height float64, r *Ray, t float64, pos Vec, lum Color, block float64) {
	requires(density > 0 && t > 0)
	requires(lum.R > 0)
	from, to := sInside(kind, height, r, t)
	l := &sLamp{pos: pos, c: lum}
	c := &sCloud{t: block}
	s := tracer.NewScene(1, []Light{l}, c)
	got := Fog(density, height, 1).Filter(sCtx(1), s, r, t, orig)
	k := math.Exp(-(to - from) * density)
	ensures("one point", l.n == 1 && c.n == 1)
	p := l.target
	if kind < 6 {
		at := (p[1] - r.Start[1]) / r.Dir[1]
		ensures("not before the fog", at >= from-2*Tiny)
		ensures("not beyond the fog", le(at, to))
		ensures("on the ray", sEq(p, sAt(r, at)))
	}
	d := Vec{pos[0] - p[0], pos[1] - p[1], pos[2] - p[2]}
	d2 := sDot(d, d)
	requires(d2 > 0)
	wellposed(d2 > 0.01)
	ensures("shadow ray from there", sEq(c.rays[0].Start, p))
	sh := c.rays[0].Dir
	ln := math.Sqrt(d2)
	ensures("shadow ray to the light", sEq(Vec{sh[0] * ln, sh[1] * ln, sh[2] * ln}, d))
	if block > 0 && block < ln {
		lum = Color{}
	}
	ensures("R", eq(got.R, k*orig.R+(1-k)*lum.R))
	ensures("G", eq(got.G, k*orig.G+(1-k)*lum.G))
	ensures("B", eq(got.B, k*orig.B+(1-k)*lum.B))
}

// As many lights are scattered as asked for.
//verif:target (*tracer/media.fog).Filter
//verif:opt unroll=4
//verif:opt cases=n:0..3
//verif:bounded two lights
func C23_lights(n int, density float64, orig Color, r *Ray, t float64, posA, posB Vec, lumA, lumB Color) {
	requires(density > 0 && t > 0 && r.Dir[1] < 0 && r.Start[1] < 10)
	requires(lumA.R > 0 && lumB.G > 0)
	a, b := &sLamp{pos: posA, c: lumA}, &sLamp{pos: posB, c: lumB}
	s := tracer.NewScene(1, []Light{a, b})
	got := Fog(density, 10, n).Filter(sCtx(1), s, r, t, orig)
	k := math.Exp(-t * density)
	var sum Color
	if n >= 1 {
		sum = lumA
		ensures("lit by the first", a.n == 1)
	} else {
		ensures("not lit by the first", a.n == 0)
	}
	if n >= 2 {
		sum = Color{lumA.R + lumB.R, lumA.G + lumB.G, lumA.B + lumB.B}
		ensures("lit by the second", b.n == 1)
		ensures("same point", sEq(a.target, b.target))
	} else {
		ensures("not lit by the second", b.n == 0)
	}
	ensures("R", eq(got.R, k*orig.R+(1-k)*sum.R))
	ensures("G", eq(got.G, k*orig.G+(1-k)*sum.G))
	ensures("B", eq(got.B, k*orig.B+(1-k)*sum.B))
}
