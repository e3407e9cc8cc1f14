package objects

import (
	"math"

	"github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer/types"
)

// A bounded object intersects like the original.
//verif:target tracer/objects.Bounded
//verif:target (*tracer/objects.bounded).Intersect
//verif:target (*tracer/objects.BoundingBox).intersects
//verif:target tracer/objects.intersectAABB2
//verif:opt cases=k:0..25
//verif:opt nocontracts
func C05_bounded_intersect(k int, o Interface, s, e Vec) {
	r := &Ray{Start: s, Dir: sDir(k, e)}
	ray := *r
	b := o.Bounds()
	requires(sNotInFace(b, ray))
	want := o.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	got := Bounded(o).Intersect(r)
	ensures("ray unchanged by bounded", eqx(*r, ray))
	ensures("same hit", want.T > 0 && eqx(got, want) || !(want.T > 0) && !(got.T > 0))
}

// A bounded object has the original's inside and bounds.
//verif:target (*tracer/objects.bounded).Inside
//verif:target (*tracer/objects.bounded).Bounds
func C05_bounded_inside(o Interface, p Vec) {
	ensures("same inside", Bounded(o).Inside(p) == o.Inside(p))
	ensures("same bounds", eqx(Bounded(o).Bounds(), o.Bounds()))
}

var vT float64 // ghost: parameter of a point on the ray

// A box with a point of the ray in front of its start is intersected.
//verif:contract (*tracer/objects.BoundingBox).intersects
func C05_intersects(b *BoundingBox, r *Ray) bool {
	requireFinite(*b)
	requires(sNonzero(r.Dir) && sNotInFace(*b, *r))
	res := b.intersects(r)
	ensures("not missed", !(vT > 0 && sIn(*b, sAt(*r, vT))) || res)
	return res
}

// A transformed object is hit where the original is hit by the inversely transformed ray.
//verif:target tracer/objects.Transformed
//verif:target (*tracer/objects.transformed).Intersect
//verif:opt opaque=o
func C05_transformed_intersect(o Interface, t *geom.AffineTransform, ls, ld Vec) {
	requires(sNonzero(ld))
	requires(sDot(t.A[0], sCross(t.A[1], t.A[2])) != 0)
	requireFinite(o.Bounds())
	tr := Transformed(o, t)
	r := &Ray{Start: t.TransformPoint(ls), Dir: t.TransformDir(ld)}
	ray := *r
	requires(sNonzero(ray.Dir)) // follows from the determinant
	requires(sNotInFace(tr.Bounds(), ray))
	local := &Ray{Start: ls, Dir: ld}
	want := o.Intersect(local)
	p := sAt(*local, want.T)
	if want.T > 0 {
		// lemma: a product is largest and smallest at the ends of the interval
		lo, hi := o.Bounds().Min, o.Bounds().Max
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				sEnds(t.A[j][i], lo[j], p[j], hi[j])
			}
			ensures("upper bound", le(t.TransformPoint(p)[i], tr.Bounds().Max[i]))
			ensures("lower bound", le(tr.Bounds().Min[i], t.TransformPoint(p)[i]))
		}
	}
	ensures("hit within bounds", !(want.T > 0) || sIn(tr.Bounds(), t.TransformPoint(p)))
	ensures("hit on ray", eqx(sAt(ray, want.T), t.TransformPoint(p)))
	vT = want.T
	got := tr.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	ensures("same T", eq(got.T, want.T) || !(want.T > 0) && !(got.T > 0))
	requires(got.T > 0)
	ensures("normal", eqx(got.Normal, t.TransformDir(want.Normal)))
	ensures("local", eqx(got.Local, want.Local))
	ensures("material", got.Material == want.Material)
}

// The box around a list of points contains them all.
//verif:contract tracer/objects.boundingBoxFromHull
func C05_hull(hull []Vec) BoundingBox {
	requires(len(hull) > 0)
	loopinv(func(i int, min, max Vec) bool {
		return forallInt(0, i+1, func(j int) bool { return sIn(BoundingBox{min, max}, hull[j]) })
	})
	b := boundingBoxFromHull(hull)
	ensures("contains", forallInt(0, len(hull), func(j int) bool { return sIn(b, hull[j]) }))
	return b
}

// A point is inside a transformed object when it was inside before.
//verif:target (*tracer/objects.transformed).Inside
//verif:opt opaque=o
func C05_transformed_inside(o Interface, t *geom.AffineTransform, p Vec) {
	requires(sDot(t.A[0], sCross(t.A[1], t.A[2])) != 0)
	wellposed(math.Abs(sDot(t.A[0], sCross(t.A[1], t.A[2]))) > 1e-2)
	in := o.Inside(p)
	wellposedf(func() bool { return sRobust(o, p) })
	tr := Transformed(o, t)
	ensures("same inside", tr.Inside(t.TransformPoint(p)) == in)
}

// A chain of transforms is equivalent to applying them one by one (for the family of
// non-commuting transforms that mix x,y and then y,z, with arbitrary translations).
//verif:target tracer/objects.Transformed
//verif:opt opaque=o
//verif:opt nocontracts
func C05_transformed_chain(o Interface, a, b, c, d, e, f, g, h float64, u, v, p Vec) {
	requires(a*d-b*c != 0 && e*h-f*g != 0)
	wellposed(math.Abs(a*d-b*c) > 1e-2 && math.Abs(e*h-f*g) > 1e-2)
	t1 := &geom.AffineTransform{A: geom.Matrix{{a, b, 0}, {c, d, 0}, {0, 0, 1}}, B: u}
	t2 := &geom.AffineTransform{A: geom.Matrix{{1, 0, 0}, {0, e, f}, {0, g, h}}, B: v}
	requireFinite(o.Bounds())
	wellposedf(func() bool { return sRobust(o, p) })
	chain := Transformed(Transformed(o, t1), t2)
	ensures("same inside", chain.Inside(t2.TransformPoint(t1.TransformPoint(p))) == o.Inside(p))
}

// Translating is transforming by a translation.
//verif:target tracer/objects.Translated
//verif:opt opaque=o
func C05_translated(o Interface, d Vec, r *Ray, p Vec) {
	requireFinite(o.Bounds())
	ray := *r
	tr := Translated(o, d)
	requires(sNonzero(r.Dir) && sNotInFace(tr.Bounds(), ray))
	wellposedf(func() bool { return sRobust(o, p) })
	ensures("inside", tr.Inside(sAdd(p, d)) == o.Inside(p))
	got := tr.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	r.Start = sSub(r.Start, d)
	want := o.Intersect(r)
	ensures("hit", !(got.T > 0) || eqx(got, want))
}

// Transformed unbounded objects are never culled.
//verif:target tracer/objects.Transformed
//verif:opt opaque=o
//verif:opt nocontracts
func C05_transformed_unbounded(o Interface, t *geom.AffineTransform, r *Ray) {
	inf := math.Inf(1)
	b := o.Bounds()
	requires(b.Max[0] == inf || b.Max[1] == inf || b.Max[2] == inf || b.Min[0] == -inf || b.Min[1] == -inf || b.Min[2] == -inf)
	requires(sDot(t.A[0], sCross(t.A[1], t.A[2])) != 0 && sNonzero(r.Dir))
	ray := *r
	tr := Transformed(o, t)
	got := tr.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	inv := t.Inverse()
	r.Start = inv.TransformPoint(ray.Start)
	r.Dir = inv.TransformDir(ray.Dir)
	want := o.Intersect(r)
	ensures("same T", eq(got.T, want.T))
	ensures("normal", eqx(got.Normal, t.TransformDir(want.Normal)))
	ensures("local", eqx(got.Local, want.Local))
	ensures("material", got.Material == want.Material)
}
