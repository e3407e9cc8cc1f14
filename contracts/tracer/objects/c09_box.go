package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

// sSlab writes one coordinate of a ray and a slab [lo,hi] in terms of the sign of the ray
// direction (-1, 0, 1), its size e, the ray start s and the parameters a<b at which the ray
// crosses the slab (for a parallel ray, the slab itself). Every ray and slab can be written so.
func sSlab(sign int, s, e, a, b float64) (d, lo, hi float64) {
	requires(e > 0 && a < b)
	switch sign {
	case 0:
		requires(s != a && s != b)
		return 0, a, b
	case 1:
		requires(a != 0 && b != 0)
		return e, s + a*e, s + b*e
	}
	requires(a != 0 && b != 0)
	return -e, s - b*e, s - a*e
}

// sSlabBox: case k (0..25) of a ray and a box, the ray not starting in the plane of a face.
func sSlabBox(k int, s, e, a, b Vec) (*Ray, BoundingBox) {
	if k >= 13 { // 13 would be the zero direction
		k++
	}
	var box BoundingBox
	var d Vec
	d[0], box.Min[0], box.Max[0] = sSlab(k%3-1, s[0], e[0], a[0], b[0])
	d[1], box.Min[1], box.Max[1] = sSlab(k/3%3-1, s[1], e[1], a[1], b[1])
	d[2], box.Min[2], box.Max[2] = sSlab(k/9%3-1, s[2], e[2], a[2], b[2])
	sSeparated(s, a, b, e, box)
	wellposed(sDot(a, a) < 1e3 && sDot(b, b) < 1e3 && e[0] > 1e-2 && e[1] > 1e-2 && e[2] > 1e-2)
	return &Ray{Start: s, Dir: d}, box
}

func sSeparated(s, a, b, e Vec, box BoundingBox) {
	wellposedf(func() bool {
		return sSep(s[0], s[1], s[2], box) && sSep(a[0], a[1], a[2], BoundingBox{Min: b, Max: Vec{0, 0, 0}})
	})
}

func sSep(x, y, z float64, b BoundingBox) bool {
	v := [9]float64{x, y, z, b.Min[0], b.Min[1], b.Min[2], b.Max[0], b.Max[1], b.Max[2]}
	for i := range v {
		for j := range v[:i] {
			if near(v[i], v[j]) && !(v[i] == 0 && v[j] == 0) {
				return false
			}
		}
	}
	return true
}

func sOnFace(p, lo, hi float64) bool { return eq(p, lo) || eq(p, hi) }

func near(a, b float64) bool { return a-b < 1e-7 && b-a < 1e-7 }

// Hits lie on the surface of the closed box.
//verif:target tracer/objects.BoxWithBounds
//verif:target (*tracer/objects.box).Intersect
//verif:target (*tracer/objects.BoundingBox).intersect
//verif:opt cases=k:0..25
func C09_box_hit(m Material, k int, s, e, a, b Vec) {
	r, box := sSlabBox(k, s, e, a, b)
	ray := *r
	h := BoxWithBounds(m, box.Min, box.Max).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	requires(h.T > 0)
	p := sAt(ray, h.T)
	ensures("within the box along x", le(box.Min[0], p[0]) && le(p[0], box.Max[0]))
	ensures("within the box along y", le(box.Min[1], p[1]) && le(p[1], box.Max[1]))
	ensures("within the box along z", le(box.Min[2], p[2]) && le(p[2], box.Max[2]))
	ensures("on a face", sOnFace(p[0], box.Min[0], box.Max[0]) || sOnFace(p[1], box.Min[1], box.Max[1]) || sOnFace(p[2], box.Min[2], box.Max[2]))
	ensures("local", eqx(h.Local, sSub(p, box.Min)))
	ensures("material", h.Material == m)
}

// The normal is the outward unit vector of a face the hit point lies on.
//verif:target (*tracer/objects.box).normal
//verif:opt cases=k:0..25
func C09_box_normal(m Material, k int, s, e, a, b Vec) {
	r, box := sSlabBox(k, s, e, a, b)
	h := BoxWithBounds(m, box.Min, box.Max).Intersect(r)
	requires(h.T > 0)
	p := sAt(*r, h.T)
	n := h.Normal
	ensures("normal", eqx(n, Vec{-1, 0, 0}) && near(p[0], box.Min[0]) || eqx(n, Vec{1, 0, 0}) && near(p[0], box.Max[0]) ||
		eqx(n, Vec{0, -1, 0}) && near(p[1], box.Min[1]) || eqx(n, Vec{0, 1, 0}) && near(p[1], box.Max[1]) ||
		eqx(n, Vec{0, 0, -1}) && near(p[2], box.Min[2]) || eqx(n, Vec{0, 0, 1}) && near(p[2], box.Max[2]))
}

func sInSlab(sign int, s, a, b, t float64) bool {
	if sign == 0 {
		return a <= s && s <= b
	}
	return a <= t && t <= b
}

// A ray through any point of the closed box hits its surface: not behind that point when it
// comes from outside, not before it when it starts inside.
//verif:target tracer/objects.BoxWithBounds
//verif:target (*tracer/objects.box).Intersect
//verif:target (*tracer/objects.BoundingBox).intersect
//verif:opt cases=k:0..25
func C09_box_complete(m Material, k int, s, e, a, b Vec, t float64) {
	r, box := sSlabBox(k, s, e, a, b)
	if k >= 13 {
		k++
	}
	requires(t > 0 && sInSlab(k%3-1, s[0], a[0], b[0], t) && sInSlab(k/3%3-1, s[1], a[1], b[1], t) && sInSlab(k/9%3-1, s[2], a[2], b[2], t))
	sApart(t, s, a, b)
	h := BoxWithBounds(m, box.Min, box.Max).Intersect(r)
	ensures("hit", h.T > 0)
	if sIn2(box, s) {
		ensures("leaves after the point", le(t, h.T))
	} else {
		ensures("enters before the point", le(h.T, t))
	}
}

// The open box is inside.
//verif:target (*tracer/objects.box).Inside
//verif:target tracer/objects.BoxWithBounds
func C09_box_inside(m Material, min, max, p Vec) {
	o := BoxWithBounds(m, min, max)
	b := BoundingBox{Min: min, Max: max}
	ensures("inside", o.Inside(p) == sIn2(b, p))
	ensures("bounds", eqx(o.Bounds(), b))
}

// A box given by size and center is the box between center-size/2 and center+size/2.
//verif:target tracer/objects.Box
//verif:opt cases=k:0..25
func C09_box_by_size(m Material, k int, s, e, a, b, p Vec) {
	r, box := sSlabBox(k, s, e, a, b)
	size := sSub(box.Max, box.Min)
	center := sMul(0.5, sAdd(box.Max, box.Min))
	o1 := Box(m, size[0], size[1], size[2], center)
	o2 := BoxWithBounds(m, box.Min, box.Max)
	ensures("bounds", eqx(o1.Bounds(), o2.Bounds()))
	wellposed(!near(p[0], box.Min[0]) && !near(p[1], box.Min[1]) && !near(p[2], box.Min[2]))
	wellposed(!near(p[0], box.Max[0]) && !near(p[1], box.Max[1]) && !near(p[2], box.Max[2]))
	ensures("inside", o1.Inside(p) == o2.Inside(p))
	h := o1.Intersect(r)
	wellposed(h.T == 0)
	ensures("intersect", eqx(h, o2.Intersect(r)))
}

func sApart(t float64, s, a, b Vec) {
	wellposedf(func() bool {
		for i := range a {
			if near(t, a[i]) || near(t, b[i]) || near(s[i], a[i]) || near(s[i], b[i]) {
				return false
			}
		}
		return true
	})
}
