package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

//verif:iface Height
func contract_Height(f sHeights, u, v float64) float64 {
	h := f.Height(u, v)
	ensures("height in range", 0 <= h && h <= 1)
	return h
}

// sOver: how far p is over the height field.
func sOver(f sHeights, size, p Vec) float64 {
	return p[1] - size[1]*f.Height(p[0]/size[0], p[2]/size[2])
}

// A height field fills the part of its box below the height function.
//verif:target tracer/objects.IsoSurface
//verif:target (*tracer/objects.isoSurface).Inside
//verif:target (*tracer/objects.isoSurface).Bounds
func C28_inside(m Material, size Vec, f sHeights, p Vec) {
	requires(size[0] > 0 && size[1] > 0 && size[2] > 0)
	o := IsoSurface(m, size[0], size[1], size[2], func(u, v float64) float64 { return f.Height(u, v) })
	b := o.Bounds()
	ensures("box", eqx(b.Min, Vec{0, 0, 0}) && eqx(b.Max, size))
	wellposed(abs(sOver(f, size, p)) > 1e-9)
	ensures("inside", o.Inside(p) == (sIn2(b, p) && sOver(f, size, p) < 0))
}

// On a ray that comes down into the height field between two places, bisection finds a place
// in between that is not above it, although the ray is right before.
//verif:target (*tracer/objects.isoSurface).bisect
//verif:target (*tracer/objects.isoSurface).isoValueAt
//verif:target (*tracer/objects.isoSurface).heightAt
func C28_down(m Material, size Vec, f sHeights, r *Ray, lo, hi float64) {
	requires(size[0] > 0 && size[1] > 0 && size[2] > 0 && lo < hi)
	requires(lo != 0 && hi != 0)
	ray := *r
	over := func(t float64) float64 { return sOver(f, size, sAt(ray, t)) }
	loopinv(func(in, out float64) bool {
		return lo <= in && in <= out && out <= hi && over(in) > 0 && over(out) <= 0
	})
	o := IsoSurface(m, size[0], size[1], size[2], func(u, v float64) float64 { return f.Height(u, v) }).(*isoSurface)
	requires(over(lo) > 1e-9 && over(hi) < -1e-9)
	lemma("signs", func() bool { return over(lo)*over(hi) < 0 })
	t := o.bisect(r, lo, hi)
	ensures("ray unchanged", eqx(*r, ray))
	ensures("on the ray", lo < t && t <= hi)
	wellposed(abs(over(t)) > 1e-9)
	ensures("not above", over(t) <= 0)
	ensures("right before", existsReal(func(s float64) bool { return t-2e-6 <= s && s <= t && over(s) > 0 }))
}

// Where the ray is on the same side at both places, nothing is found; where it comes out of
// the height field, the first place.
//verif:target (*tracer/objects.isoSurface).bisect
func C28_else(m Material, size Vec, f sHeights, r *Ray, lo, hi float64) {
	requires(size[0] > 0 && size[1] > 0 && size[2] > 0 && lo < hi)
	requires(lo != 0 && hi != 0)
	ray := *r
	over := func(t float64) float64 { return sOver(f, size, sAt(ray, t)) }
	o := IsoSurface(m, size[0], size[1], size[2], func(u, v float64) float64 { return f.Height(u, v) }).(*isoSurface)
	a, b := over(lo), over(hi)
	requires(abs(a) > 1e-9 && abs(b) > 1e-9 && !(a > 0 && b < 0))
	lemma("both over", func() bool { return !(a > 0 && b > 0) || a*b > 0 })
	lemma("both under", func() bool { return !(a < 0 && b < 0) || a*b > 0 })
	lemma("rising", func() bool { return !(a < 0 && b > 0) || a*b < 0 })
	loopinv(func(in, out float64) bool { return in == hi && out == lo })
	t := o.bisect(r, lo, hi)
	ensures("ray unchanged", eqx(*r, ray))
	ensures("rising", !(a < 0 && b > 0) || t == lo)
	ensures("same side", a < 0 && b > 0 || t == 0)
}

// The normal is at right angles to the surface (stated where it is flat: two directions of it).
//verif:target (*tracer/objects.isoSurface).normalAtUV
//verif:target (*tracer/objects.isoSurface).partialAtUV
func C28_normal(m Material, size Vec, h sPlane) {
	a, b, c := h.a, h.b, h.c
	p := Vec{h.u * size[0], 0, h.v * size[2]}
	requires(size[0] > 0 && size[1] > 0 && size[2] > 0)
	requires(0 < h.u && h.u < 1 && 0 < h.v && h.v < 1)
	requires(0 < a && a < 0.3 && 0 < b && b < 0.3 && 0 < c && c < 0.3)
	o := IsoSurface(m, size[0], size[1], size[2], func(u, v float64) float64 { return a + b*u + c*v }).(*isoSurface)
	u, v := p[0]/size[0], p[2]/size[2]
	lemma("range", func() bool { return eq(u, h.u) && eq(v, h.v) })
	lemma("products", func() bool { return 0 < b*u && b*u < 0.3 && 0 < c*v && c*v < 0.3 })
	lemma("small", func() bool { return b/8192 < 0.0001 && c/8192 < 0.0001 })
	n := o.normalAtUV(o.localUV(p))
	ensures("along x", eq(sDot(n, Vec{1, size[1] * b / size[0], 0}), 0))
	ensures("along z", eq(sDot(n, Vec{0, size[1] * c / size[2], 1}), 0))
	ensures("upwards", n[1] > 0)
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}
