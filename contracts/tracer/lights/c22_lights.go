package lights

import (
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer/objects"
	. "github.com/barnex/bruteray/tracer/types"
	"github.com/barnex/bruteray/util"
)

// A point light obeys the inverse-square law, in all directions.
//verif:target tracer/lights.PointLight
//verif:target (*tracer/lights.point).Sample
func C22_point(power Color, pos, target Vec, depth int) {
	d := sSub(target, pos)
	requires(sDot(d, d) > 0)
	wellposed(sDot(d, d) > 1e-4)
	l := PointLight(power, pos)
	p, c := l.Sample(sCtx(depth), target)
	ensures("position", sEq(p, pos))
	ensures("inverse square", sScaled(c, power, 0.25*sInvPi/sDot(d, d)))
	h := l.Object().Intersect(&Ray{Dir: Vec{0, 0, 1}})
	ensures("invisible", !(h.T > 0))
}

const sInvPi = 0.31830988618379067154

// sPlanar: light received from a point p of a flat light of given power that shines down.
func sPlanar(up int, c, power Color, p, target Vec) {
	d := sSub(target, p)
	requires(up == 0 && d[1] < 0 || up == 1 && d[1] >= 0)
	d2 := sDot(d, d)
	lemma("distance", func() bool { return d2 > 0 && math.Sqrt(d2) > 0 && 1/d2 > 0 && 1/math.Sqrt(d2) > 0 })
	if up == 1 {
		ensures("nothing upwards", eq(c.R, 0) && eq(c.G, 0) && eq(c.B, 0))
		return
	}
	k := -d[1] / math.Sqrt(d2)
	lemma("cosine", func() bool { return k > 0 && k/d2 > 0 })
	ensures("received R", sClose(c.R, sInvPi*k/d2*power.R))
	ensures("received G", sClose(c.G, sInvPi*k/d2*power.G))
	ensures("received B", sClose(c.B, sInvPi*k/d2*power.B))
}

// A rectangular light shines down from all of its surface.
//verif:target tracer/lights.RectangleLight
//verif:target tracer/lights.planarLight
//verif:target (*tracer/lights.planar).Sample
//verif:opt cases=up:0..1
func C22_rectangle(up int, bright Color, w, h float64, center, target Vec, depth int) {
	requires(w > 0 && h > 0)
	l := RectangleLight(bright, w, h, center)
	p, c := l.Sample(sCtx(depth), target)
	d := sSub(target, p)
	lemma("finite", func() bool { return sFinite(p[0]) && sFinite(p[1]) && sFinite(p[2]) })
	requires(sDot(d, d) > 0)
	wellposed(sDot(d, d) > 1e-4)
	ensures("on the surface", math.Abs(p[0]-center[0]) <= w/2 && math.Abs(p[2]-center[2]) <= h/2)
	ensures("at its height", math.Abs(p[1]-center[1]) <= 2*Tiny)
	power := Color{bright.R * (w * h), bright.G * (w * h), bright.B * (w * h)}
	sPlanar(up, c, power, p, target)
}

// So does a disk.
//verif:target tracer/lights.DiskLight
//verif:target tracer/lights.planarLight
//verif:target (*tracer/lights.planar).Sample
//verif:target tracer/sequence.UniformDisk
//verif:opt cases=up:0..1
func C22_disk(up int, bright Color, diam float64, center, target Vec, depth int) {
	requires(diam > 0)
	l := DiskLight(bright, diam, center)
	p, c := l.Sample(sCtx(depth), target)
	d := sSub(target, p)
	lemma("finite", func() bool { return sFinite(p[0]) && sFinite(p[1]) && sFinite(p[2]) })
	requires(sDot(d, d) > 0)
	wellposed(sDot(d, d) > 1e-4)
	x, z := p[0]-center[0], p[2]-center[2]
	ensures("on the surface", le(x*x+z*z, diam*diam/4))
	ensures("at its height", math.Abs(p[1]-center[1]) <= 2*Tiny)
	a := math.Pi * diam * diam / 4
	power := Color{bright.R * a, bright.G * a, bright.B * a}
	sPlanar(up, c, power, p, target)
}

// sProbe is a light that keeps the target it was sampled for.
type sProbe struct {
	pos    Vec
	c      Color
	target Vec
	n      int
}

func (p *sProbe) Sample(ctx *Ctx, target Vec) (Vec, Color) {
	p.target = target
	p.n++
	return p.pos, p.c
}
func (p *sProbe) Object() Object            { return p }
func (p *sProbe) Intersect(*Ray) HitRecord  { return HitRecord{} }
func (p *sProbe) Inside(Vec) bool           { return false }
func (p *sProbe) Bounds() objects.BoundingBox { return objects.BoundingBox{} }

// A transformed light is where the transform takes it, and lights what it lit before,
// transformed, equally.
//verif:target tracer/lights.Transformed
//verif:target (*tracer/lights.transformed).Sample
func C22_transformed(t *geom.AffineTransform, pos Vec, c Color, target Vec, depth int) {
	m := &t.A
	requires(sDet(m) != 0)
	wellposed(math.Abs(sDet(m)) > 0.1)
	o := &sProbe{pos: pos, c: c}
	l := Transformed(o, t)
	p, got := l.Sample(sCtx(depth), target)
	ensures("sampled once", o.n == 1)
	ensures("target", sEq(t.TransformPoint(o.target), target))
	ensures("position", sEq(p, t.TransformPoint(pos)))
	ensures("light received", eqx(got, c))
}

// Sines and cosines of quarter turns are exact.
//verif:contract util.Cos
func C22_cos(x float64) float64 {
	r := util.Cos(x)
	ensures("cosine", same(r, math.Cos(x)))
	return math.Cos(x)
}

//verif:contract util.Sin
func C22_sin(x float64) float64 {
	r := util.Sin(x)
	ensures("sine", same(r, math.Sin(x)))
	return math.Sin(x)
}

// The sun stands where yaw and pitch say, and is as bright as told.
//verif:target tracer/lights.SunLight
func C22_sun(bright Color, diam, yaw, pitch float64, depth int) {
	requires(0 < diam && diam <= 0.1)
	wellposed(diam > 1e-3)
	l := SunLight(bright, diam, yaw, pitch)
	p, c := l.Sample(sCtx(depth), Vec{})
	dir := Vec{-math.Sin(yaw) * math.Cos(pitch), math.Sin(pitch), -math.Cos(yaw) * math.Cos(pitch)}
	m := sDot(p, dir)
	d2 := sDot(p, p)
	lemma("m", func() bool { return math.Abs(m-1e6) <= 1e-4 })
	ensures("far away", m >= 1e5)
	ensures("angular size", d2-m*m <= m*m*diam*diam*0.25001)
	k := m * m * m / (d2 * math.Sqrt(d2))
	ensures("brightness R", math.Abs(c.R-k*bright.R) <= 1e-4*math.Abs(bright.R))
	ensures("brightness G", math.Abs(c.G-k*bright.G) <= 1e-4*math.Abs(bright.G))
	ensures("brightness B", math.Abs(c.B-k*bright.B) <= 1e-4*math.Abs(bright.B))
}

// Every light can be transformed.
//verif:target tracer/lights.Transformed
//verif:target (*tracer/lights.transformed).Sample
func C22_transformedPoint(t *geom.AffineTransform, power Color, pos, target Vec, depth int) {
	m := &t.A
	requires(sDet(m) != 0)
	wellposed(math.Abs(sDet(m)) > 0.1)
	l := Transformed(PointLight(power, pos), t)
	p, _ := l.Sample(sCtx(depth), target)
	ensures("position", sEq(p, t.TransformPoint(pos)))
}

// What a rectangular light looks like: bright from below, dark from above.
//verif:target tracer/lights.RectangleLight
//verif:target tracer/lights.planarLight
//verif:target (*tracer/lights.planar).Object
func C22_look(bright Color, w, h float64, center Vec, r *Ray) {
	requires(w > 0 && h > 0)
	o := RectangleLight(bright, w, h, center).Object()
	hit := o.Intersect(r)
	requires(hit.T > 0)
	wellposed(math.Abs(r.Dir[1]) > 1e-3)
	lemma("normal x", func() bool { return eq(hit.Normal[0], 0) })
	lemma("normal z", func() bool { return eq(hit.Normal[2], 0) })
	lemma("normal y", func() bool { return eq(hit.Normal[1], 1) })
	c := hit.Material.Shade(nil, nil, r, HitCoords{T: hit.T, Normal: hit.Normal, Local: hit.Local})
	if r.Dir[1] > 0 {
		ensures("bright from below", eqx(c, bright))
	} else {
		ensures("dark from above", eqx(c, Color{}))
	}
}

// sShape is a light that looks like some object.
type sShape struct {
	sProbe
	o sPlain
}

// What is plain of an object: no transform to be merged with another.
type sPlain struct{ objects.Interface }

func (p *sShape) Object() Object { return p.o }

// A transformed light looks like its object, transformed.
//verif:target tracer/lights.Transformed
//verif:target (*tracer/lights.transformed).Object
func C22_transformedLook(t *geom.AffineTransform, o objects.Interface, p Vec) {
	requires(o != nil)
	m := &t.A
	requires(sDet(m) != 0)
	wellposed(math.Abs(sDet(m)) > 0.1)
	x := Transformed(&sShape{o: sPlain{o}}, t).Object().(objects.Interface)
	ensures("where it is transformed to", x.Inside(t.TransformPoint(p)) == o.Inside(p))
}
