package objects

import (
	"github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer/types"
)

// encloses: what every object guarantees about its bounds. Parts of composed objects
// are assumed to guarantee the same (spec_iface.go), so this is a structural induction
// over all objects that can be built.
func encloses(o Interface, r *Ray, p Vec) {
	requires(sNonzero(r.Dir))
	b := o.Bounds()
	ensures("bounds are numbers", !b.Min.IsNaN() && !b.Max.IsNaN())
	ray := *r
	h := o.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	q := sAt(ray, h.T)
	for i := 0; i < 3; i++ {
		ensures("hit above lower bound", !(h.T > 0) || le(b.Min[i], q[i]))
		ensures("hit below upper bound", !(h.T > 0) || le(q[i], b.Max[i]))
	}
	ensures("inside within bounds", !o.Inside(p) || sIn2(b, p))
}

//verif:target tracer/objects.Sphere
//verif:target (*tracer/objects.quadric).Bounds
func C06_sphere(m Material, diam float64, c Vec, r *Ray, p Vec) {
	requires(diam > 0)
	encloses(Sphere(m, diam, c), r, p)
}

//verif:target tracer/objects.Cylinder
func C06_cylinder(m Material, diam, height float64, c Vec, r *Ray, p Vec) {
	requires(diam > 0 && height > 0)
	encloses(Cylinder(m, diam, height, c), r, p)
}

//verif:target tracer/objects.CylinderDir
//verif:opt cases=k:0..2
func C06_cylinderdir(k int, m Material, diam, height float64, c Vec, r *Ray, p Vec) {
	requires(diam > 0 && height > 0)
	encloses(CylinderDir(m, k, diam, height, c), r, p)
}

// The whole lateral surface lies within the bounds.
//verif:target tracer/objects.CylinderDir
//verif:target tracer/objects.Cylinder
//verif:opt cases=k:0..3
func C06_cylinder_surface(k int, m Material, height float64, c, u Vec) {
	axis := k
	if k == 3 {
		axis = 1
	}
	l := sLateral(axis, u)
	requires(height > 0 && sNonzero(l) && u[axis] <= height/2 && -height/2 <= u[axis])
	o, _ := sCyl(m, k, sqrt(4*sDot(l, l)), height, c)
	ensures("enclosed", sIn(o.Bounds(), sAdd(c, u)))
}

//verif:target tracer/objects.Sphere
func C06_sphere_surface(m Material, c, u Vec) {
	requires(sNonzero(u))
	ensures("enclosed", sIn(Sphere(m, sqrt(4*sDot(u, u)), c).Bounds(), sAdd(c, u)))
}

//verif:target tracer/objects.Box
//verif:target (*tracer/objects.box).Bounds
//verif:opt cases=k:0..25
func C06_box(k int, m Material, e, c, size, s, p Vec) {
	requires(size[0] > 0 && size[1] > 0 && size[2] > 0)
	o := Box(m, size[0], size[1], size[2], c)
	r := &Ray{Start: s, Dir: sDir(k, e)}
	requires(sNotInFace(o.Bounds(), *r))
	encloses(o, r, p)
}

//verif:target tracer/objects.Backdrop
func C06_backdrop(m Material, r *Ray, p Vec) {
	encloses(Backdrop(m), r, p)
}

//verif:target tracer/objects.Not
//verif:target (*tracer/objects.not).Intersect
func C06_not(o Interface, r *Ray, p Vec) {
	encloses(Not(o), r, p)
}

//verif:target tracer/objects.Hollow
//verif:target (*tracer/objects.hollow).Intersect
func C06_hollow(o Interface, r *Ray, p Vec) {
	encloses(Hollow(o), r, p)
}

//verif:target tracer/objects.Bounded
func C06_bounded(o Interface, r *Ray, p Vec) {
	encloses(Bounded(o), r, p)
}

//verif:target tracer/objects.WithMaterial
func C06_withmaterial(m Material, o Interface, r *Ray, p Vec) {
	encloses(WithMaterial(m, o), r, p)
}

//verif:target tracer/objects.Remap
func C06_remap(o Interface, f func(Vec) Vec, r *Ray, p Vec) {
	encloses(Remap(o, f), r, p)
}

// marchinv: invariants of loops that step along the ray from hit to hit of a (or b).
func marchinv(a, b Interface, r *Ray) {
	old := *r
	loopinv(func(tOff float64) bool { return eqx(r.Start, sAt(old, tOff)) && eqx(r.Dir, old.Dir) })
	loopinv(func(tOff float64) bool { return tOff >= 0 })
	loopinv(func(h HitRecord) bool { return eqx(h, a.Intersect(r)) })
	loopinv(func(h HitRecord) bool { return eqx(h, b.Intersect(r)) })
}

//verif:target tracer/objects.And
//verif:target (*tracer/objects.and).Intersect
//verif:target (*tracer/objects.and).Bounds
func C06_and(a, b Interface, r *Ray, p Vec) {
	marchinv(a, b, r)
	encloses(And(a, b), r, p)
}

//verif:target tracer/objects.Or
//verif:target (*tracer/objects.or).Intersect
//verif:target (*tracer/objects.or).Bounds
func C06_or(a, b Interface, r *Ray, p Vec) {
	marchinv(a, b, r)
	encloses(Or(a, b), r, p)
}

//verif:target tracer/objects.Restrict
//verif:target (*tracer/objects.restrict).Intersect
//verif:target (*tracer/objects.restrict).Bounds
func C06_restrict(a, b Interface, r *Ray, p Vec) {
	marchinv(a, b, r)
	encloses(Restrict(a, b), r, p)
}

//verif:target tracer/objects.Difference
func C06_difference(a, b Interface, r *Ray, p Vec) {
	marchinv(a, b, r)
	encloses(Difference(a, b), r, p)
}

// The image of an inside point lies strictly within the transformed bounds.
//verif:target tracer/objects.Transformed
//verif:target tracer/objects.transformBounds
//verif:opt opaque=o
func C06_transformed_inside(o Interface, t *geom.AffineTransform, p Vec) {
	requires(sDot(t.A[0], sCross(t.A[1], t.A[2])) != 0)
	requireFinite(o.Bounds())
	tr := Transformed(o, t)
	if !o.Inside(p) {
		return
	}
	lo, hi := o.Bounds().Min, o.Bounds().Max
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			sEnds2(t.A[j][i], lo[j], p[j], hi[j])
		}
		lemma("some coefficient", func() bool { return t.A[0][i] != 0 || t.A[1][i] != 0 || t.A[2][i] != 0 })
		ensures("below upper bound", t.TransformPoint(p)[i] < tr.Bounds().Max[i])
		ensures("above lower bound", tr.Bounds().Min[i] < t.TransformPoint(p)[i])
	}
}

func sEnds2(a, lo, x, hi float64) {
	lemma("strictly between the ends", func() bool {
		return a*lo < a*x && a*x < a*hi || a*hi < a*x && a*x < a*lo || a == 0
	})
}

//verif:target tracer/objects.Triangle
//verif:target (*tracer/objects.face).Bounds
//verif:target (*tracer/objects.tree).Bounds
//verif:target tracer/objects.boundingBoxToF
func C06_triangle_corners(m Material, a, b, c Vec) {
	roundFloat32()
	bb := Triangle(m, a, b, c).Bounds()
	ensures("a", sIn(bb, a))
	ensures("b", sIn(bb, b))
	ensures("c", sIn(bb, c))
}
