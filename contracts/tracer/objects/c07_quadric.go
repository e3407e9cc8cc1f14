package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

// Every reported sphere hit lies on the sphere, with the outward radius vector as
// normal and local coordinate.
//verif:target tracer/objects.Sphere
//verif:target (*tracer/objects.quadric).Intersect
func C07_sphere_hit(m Material, diam float64, center Vec, r *Ray) {
	requires(diam > 0 && sNonzero(r.Dir))
	ray := *r
	h := Sphere(m, diam, center).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	requires(h.T > 0)
	d := sSub(sAt(ray, h.T), center)
	ensures("on surface", eq(4*sDot(d, d), diam*diam))
	ensures("normal", eqx(h.Normal, d))
	ensures("local", eqx(h.Local, d))
	ensures("material", h.Material == m)
}

// A ray through a point of the sphere hits, at that point or nearer.
//verif:target tracer/objects.Sphere
//verif:target (*tracer/objects.quadric).Intersect
func C07_sphere_complete(m Material, u, center, dir Vec, t float64) {
	requires(sNonzero(dir) && sNonzero(u) && t > 0)
	// the sphere through center+u
	wellposed(t > 1e-3 && sDot(u, u) > 1e-3 && sDot(dir, dir) > 1e-3)
	wellposed(sDot(u, dir)*sDot(u, dir) > 1e-3*sDot(u, u)*sDot(dir, dir))
	diam := sqrt(4 * sDot(u, u))
	r := &Ray{Start: sSub(sAdd(center, u), sMul(t, dir)), Dir: dir}
	h := Sphere(m, diam, center).Intersect(r)
	ensures("hit", h.T > 0)
	ensures("not behind the point", le(h.T, t))
}

// Points strictly closer to the center than the radius are inside, others are not.
//verif:target (*tracer/objects.quadric).Inside
func C07_sphere_inside(m Material, diam float64, center, d Vec) {
	requires(diam > 0)
	in := Sphere(m, diam, center).Inside(sAdd(center, d))
	wellposed(!eq(4*sDot(d, d), diam*diam))
	ensures("inside", in == (4*sDot(d, d) < diam*diam))
}

// Hits lie on the lateral surface, within the height, with the outward normal.
func cylHit(m Material, kind int, diam, height float64, center Vec, r *Ray) {
	requires(diam > 0 && height > 0 && sNonzero(r.Dir))
	ray := *r
	o, axis := sCyl(m, kind, diam, height, center)
	h := o.Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	requires(h.T > 0)
	d := sSub(sAt(ray, h.T), center)
	l := sLateral(axis, d)
	ensures("on surface", eq(4*sDot(l, l), diam*diam))
	ensures("within height", le(d[axis], height/2+Tiny) && le(-height/2-Tiny, d[axis]))
	ensures("normal", eqx(h.Normal, l))
	ensures("local", eqx(h.Local, d))
	ensures("material", h.Material == m)
}

// A ray through a point of the lateral surface hits, there or nearer.
func cylComplete(m Material, kind int, u, center, dir Vec, height, t float64) {
	axis := kind
	if kind == 3 {
		axis = 1
	}
	l := sLateral(axis, u)
	e := sLateral(axis, dir)
	requires(height > 0 && t > 0 && sNonzero(l) && sNonzero(e) && u[axis] <= height/2 && -height/2 <= u[axis])
	wellposed(t > 1e-3 && sDot(l, l) > 1e-3 && sDot(e, e) > 1e-3)
	wellposed(sDot(l, e)*sDot(l, e) > 1e-3*sDot(l, l)*sDot(e, e))
	diam := sqrt(4 * sDot(l, l))
	r := &Ray{Start: sSub(sAdd(center, u), sMul(t, dir)), Dir: dir}
	o, _ := sCyl(m, kind, diam, height, center)
	h := o.Intersect(r)
	ensures("hit", h.T > 0)
	ensures("not behind the point", le(h.T, t))
}

// A cylinder contains the points closer to the axis than the radius and within its height.
func cylInside(m Material, kind int, diam, height float64, center, d Vec) {
	requires(diam > 0 && height > 0)
	o, axis := sCyl(m, kind, diam, height, center)
	l := sLateral(axis, d)
	wellposed(!eq(4*sDot(l, l), diam*diam) && !eq(2*d[axis], height) && !eq(-2*d[axis], height))
	in := o.Inside(sAdd(center, d))
	ensures("outside radius", !(4*sDot(l, l) >= diam*diam) || !in)
	ensures("inside", !(4*sDot(l, l) < diam*diam && d[axis] <= height/2 && -height/2 <= d[axis]) || in)
	ensures("beyond height", !(d[axis] >= height/2+2*Tiny || -height/2-2*Tiny >= d[axis]) || !in)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_x_hit(m Material, diam, height float64, center Vec, r *Ray) {
	cylHit(m, 0, diam, height, center, r)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_x_complete(m Material, u, center, dir Vec, height, t float64) {
	cylComplete(m, 0, u, center, dir, height, t)
}

//verif:target (*tracer/objects.quadric).Inside
func C07_cyl_x_inside(m Material, diam, height float64, center, d Vec) {
	cylInside(m, 0, diam, height, center, d)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_y_hit(m Material, diam, height float64, center Vec, r *Ray) {
	cylHit(m, 1, diam, height, center, r)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_y_complete(m Material, u, center, dir Vec, height, t float64) {
	cylComplete(m, 1, u, center, dir, height, t)
}

//verif:target (*tracer/objects.quadric).Inside
func C07_cyl_y_inside(m Material, diam, height float64, center, d Vec) {
	cylInside(m, 1, diam, height, center, d)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_z_hit(m Material, diam, height float64, center Vec, r *Ray) {
	cylHit(m, 2, diam, height, center, r)
}

//verif:target tracer/objects.CylinderDir
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_z_complete(m Material, u, center, dir Vec, height, t float64) {
	cylComplete(m, 2, u, center, dir, height, t)
}

//verif:target (*tracer/objects.quadric).Inside
func C07_cyl_z_inside(m Material, diam, height float64, center, d Vec) {
	cylInside(m, 2, diam, height, center, d)
}

//verif:target tracer/objects.Cylinder
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_default_hit(m Material, diam, height float64, center Vec, r *Ray) {
	cylHit(m, 3, diam, height, center, r)
}

//verif:target tracer/objects.Cylinder
//verif:target (*tracer/objects.quadric).Intersect
func C07_cyl_default_complete(m Material, u, center, dir Vec, height, t float64) {
	cylComplete(m, 3, u, center, dir, height, t)
}

//verif:target (*tracer/objects.quadric).Inside
func C07_cyl_default_inside(m Material, diam, height float64, center, d Vec) {
	cylInside(m, 3, diam, height, center, d)
}
