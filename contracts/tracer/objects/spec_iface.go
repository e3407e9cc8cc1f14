package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

// Contracts every object of this package fulfils (each constructor is verified against
// them, assuming them of its parts).

// A hit lies within the closed bounds; the ray is not modified.
//verif:iface Intersect
func contract_Intersect(o Interface, r *Ray) HitRecord {
	old := *r
	h := o.Intersect(r)
	ensures("hit within bounds", !(h.T > 0 && sNonzero(old.Dir)) || sIn(o.Bounds(), sAt(old, h.T)))
	ensures("hit on surface", !(h.T > 0) || ghost("surface", o, sAt(old, h.T)))
	return h
}

// Bounds are ordered or empty, possibly infinite, never NaN.
//verif:iface Bounds wild
func contract_Bounds(o Interface) BoundingBox {
	b := o.Bounds()
	ensures("no NaN", !b.Min.IsNaN() && !b.Max.IsNaN())
	return b
}

// Points inside an object lie strictly within its bounds.
//verif:iface Inside
func contract_Inside(o Interface, p Vec) bool {
	in := o.Inside(p)
	ensures("inside within bounds", !in || sIn2(o.Bounds(), p))
	return in
}

// sDir is the direction with the k-th pattern of signs (k 0..25) and positive sizes e.
func sDir(k int, e Vec) Vec {
	requires(e[0] > 0 && e[1] > 0 && e[2] > 0)
	if k >= 13 { // 13 would be the zero direction
		k++
	}
	return Vec{sSigned(k%3-1, e[0]), sSigned(k/3%3-1, e[1]), sSigned(k/9%3-1, e[2])}
}

func sSigned(sign int, e float64) float64 {
	switch sign {
	case 0:
		return 0
	case 1:
		return e
	}
	return -e
}

// sNotInFace: the ray does not run within the plane of a face of the box.
func sNotInFace(b BoundingBox, r Ray) bool {
	return sNotIn1(b, r, 0) && sNotIn1(b, r, 1) && sNotIn1(b, r, 2)
}

func sNotIn1(b BoundingBox, r Ray, i int) bool {
	return r.Dir[i] != 0 || r.Start[i] != b.Min[i] && r.Start[i] != b.Max[i]
}
