package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

// sSurf: p is a point where some ray hits o (see spec_iface.go).
func sSurf(o Interface, p Vec) bool { return ghost("surface", o, p) }

//verif:target (*tracer/objects.and).Inside
//verif:opt without=bounds
func C10_and_inside(a, b Interface, p Vec) {
	ensures("and", And(a, b).Inside(p) == (a.Inside(p) && b.Inside(p)))
}

//verif:target (*tracer/objects.or).Inside
//verif:opt without=bounds
func C10_or_inside(a, b Interface, p Vec) {
	ensures("or", Or(a, b).Inside(p) == (a.Inside(p) || b.Inside(p)))
}

//verif:target (*tracer/objects.not).Inside
//verif:target tracer/objects.Difference
//verif:opt without=bounds
func C10_not_inside(a, b Interface, p Vec) {
	ensures("not", Not(a).Inside(p) == !a.Inside(p))
	ensures("difference", Difference(a, b).Inside(p) == (a.Inside(p) && !b.Inside(p)))
}

//verif:target (*tracer/objects.restrict).Inside
//verif:opt without=bounds
func C10_restrict_inside(a, b Interface, p Vec) {
	ensures("restrict", Restrict(a, b).Inside(p) == (a.Inside(p) && b.Inside(p)))
}

// Not flips the normal and changes nothing else.
//verif:target (*tracer/objects.not).Intersect
//verif:opt without=bounds
func C10_not_hit(a Interface, r *Ray) {
	ray := *r
	want := a.Intersect(r)
	got := Not(a).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	ensures("T", eq(got.T, want.T))
	ensures("normal", eqx(got.Normal, sMul(-1, want.Normal)))
	ensures("local", eqx(got.Local, want.Local))
	ensures("material", got.Material == want.Material)
}

// A hollow object looks the same and has no inside.
//verif:target tracer/objects.Hollow
//verif:target (*tracer/objects.hollow).Intersect
//verif:opt without=bounds
func C10_hollow(a Interface, r *Ray, p Vec) {
	ray := *r
	want := a.Intersect(r)
	got := Hollow(a).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	ensures("hit", eqx(got, want))
	ensures("nothing inside", !Hollow(a).Inside(p))
}

// marchInv: invariants of loops stepping along the ray from hit to hit of a.
func marchInv(a Interface, r *Ray) {
	old := *r
	min := a.Intersect(r).T
	loopinv(func(tOff float64) bool { return tOff >= 0 && eqx(r.Start, sAt(old, tOff)) && eqx(r.Dir, old.Dir) })
	loopinv(func(tOff float64) bool { return min > 0 && le(min, tOff) })
	loopinv(func(h HitRecord) bool { return eqx(h, a.Intersect(r)) })
}

// A restricted object shows the part of its surface inside the other object.
//verif:target tracer/objects.Restrict
//verif:target (*tracer/objects.restrict).Intersect
//verif:target tracer/objects.andMarch
//verif:opt without=bounds
func C10_restrict_hit(a, b Interface, r *Ray) {
	requires(sNonzero(r.Dir))
	ray := *r
	marchInv(a, r)
	got := Restrict(a, b).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	wellposedf(func() bool { return sRobustHits(a, b, ray, got) })
	p := sAt(ray, got.T)
	ensures("hit on a", !(got.T > 0) || sSurf(a, p))
	ensures("hit inside b", !(got.T > 0) || b.Inside(p))
}

// Hits of a that lie inside b are not skipped.
//verif:target (*tracer/objects.restrict).Intersect
//verif:target tracer/objects.andMarch
//verif:opt peel=2
//verif:opt without=bounds
func C10_restrict_first(a, b Interface, r *Ray) {
	requires(sNonzero(r.Dir))
	ray := *r
	marchInv(a, r)
	got := Restrict(a, b).Intersect(r)
	wellposedf(func() bool { return sRobustHits(a, b, ray, got) })
	h1 := a.Intersect(r)
	ensures("not before a", !(got.T > 0) || h1.T > 0 && le(h1.T, got.T))
	ensures("first hit counts", !(h1.T > 0 && b.Inside(sAt(ray, h1.T))) || eqx(got, h1))
	r.Start = sAt(ray, h1.T+Tiny)
	h2 := a.Intersect(r)
	h2.T += h1.T + Tiny
	ensures("second hit counts", !(h1.T > 0 && h2.T > h1.T+Tiny && !b.Inside(sAt(ray, h1.T)) && b.Inside(sAt(ray, h2.T))) || eqx(got, h2))
}

// The parts get different materials, so that hits tell which part they lie on:
// case k=0 is about the hits on a, case k=1 about those on b.
func csgHit(op func(a, b Interface) Interface, neg bool, k int, a, b Interface, ma, mb Material, r *Ray, wantB, wantA bool) {
	requires(sNonzero(r.Dir) && ma != mb)
	ray := *r
	wa, wb := WithMaterial(ma, a), WithMaterial(mb, b)
	marchInv(wa, r)
	if neg {
		marchInv(Not(wb), r)
	} else {
		marchInv(wb, r)
	}
	got := op(wa, wb).Intersect(r)
	ensures("ray unchanged", eqx(*r, ray))
	wellposedf(func() bool { return sRobustHits(a, b, ray, got) && sRobustHits(b, a, ray, got) })
	ensures("material", !(got.T > 0) || got.Material == ma || got.Material == mb)
	if k < 0 { // both cases at once
		p := sAt(ray, got.T)
		ensures("on a", !(got.T > 0 && got.Material == ma) || sSurf(a, p))
		ensures("on a, side of b", !(got.T > 0 && got.Material == ma) || b.Inside(p) == wantB)
		ensures("on b", !(got.T > 0 && got.Material == mb) || sSurf(b, p))
		ensures("on b, side of a", !(got.T > 0 && got.Material == mb) || a.Inside(p) == wantA)
		return
	}
	if k == 0 {
		requires(got.T > 0 && got.Material == ma)
		p := sAt(ray, got.T)
		ensures("on a", sSurf(a, p))
		ensures("on a, side of b", b.Inside(p) == wantB)
	} else {
		requires(got.T > 0 && got.Material == mb)
		p := sAt(ray, got.T)
		ensures("on b", sSurf(b, p))
		ensures("on b, side of a", a.Inside(p) == wantA)
	}
}

func csgFirst(op func(a, b Interface) Interface, neg bool, a, b Interface, ma, mb Material, r *Ray, wantB, wantA bool) {
	requires(sNonzero(r.Dir) && ma != mb)
	ray := *r
	wa, wb := WithMaterial(ma, a), WithMaterial(mb, b)
	marchInv(wa, r)
	if neg {
		marchInv(Not(wb), r)
	} else {
		marchInv(wb, r)
	}
	got := op(wa, wb).Intersect(r)
	wellposedf(func() bool { return sRobustHits(a, b, ray, got) && sRobustHits(b, a, ray, got) })
	h1, h2 := a.Intersect(r), b.Intersect(r)
	ensures("not before either part", !(got.T > 0) || h1.T > 0 && le(h1.T, got.T) || h2.T > 0 && le(h2.T, got.T))
	firstA := h1.T > 0 && b.Inside(sAt(ray, h1.T)) == wantB
	firstB := h2.T > 0 && a.Inside(sAt(ray, h2.T)) == wantA
	ensures("first hit of a counts", !firstA || got.T > 0 && le(got.T, h1.T))
	ensures("first hit of b counts", !firstB || got.T > 0 && le(got.T, h2.T))
	ensures("nothing in front of the first hit", !(firstA && !(h2.T > 0 && h2.T <= h1.T)) || eq(got.T, h1.T) && got.Material == ma)
	ensures("nothing in front of the first hit of b", !(firstB && !(h1.T > 0 && h1.T <= h2.T)) || eq(got.T, h2.T) && got.Material == mb)
}

// The intersection shows the surface of each part inside the other.
//verif:target tracer/objects.And
//verif:target (*tracer/objects.and).Intersect
//verif:opt without=bounds
//verif:opt cases=k:0..1
func C10_and_hit(k int, a, b Interface, ma, mb Material, r *Ray) {
	csgHit(And, false, k, a, b, ma, mb, r, true, true)
}

//verif:target (*tracer/objects.and).Intersect
//verif:target tracer.Frontmost
//verif:opt peel=1
//verif:opt without=bounds
func C10_and_first(a, b Interface, ma, mb Material, r *Ray) {
	csgFirst(And, false, a, b, ma, mb, r, true, true)
}

// The union shows the surface of each part outside the other.
//verif:target tracer/objects.Or
//verif:target (*tracer/objects.or).Intersect
//verif:opt without=bounds
//verif:opt cases=k:0..1
func C10_or_hit(k int, a, b Interface, ma, mb Material, r *Ray) {
	csgHit(Or, false, k, a, b, ma, mb, r, false, false)
}

//verif:target (*tracer/objects.or).Intersect
//verif:opt peel=1
//verif:opt without=bounds
func C10_or_first(a, b Interface, ma, mb Material, r *Ray) {
	csgFirst(Or, false, a, b, ma, mb, r, false, false)
}

// The difference shows a outside b, and b inside a.
//verif:target tracer/objects.Difference
//verif:opt without=bounds
func C10_difference_hit(a, b Interface, ma, mb Material, r *Ray) {
	csgHit(Difference, true, -1, a, b, ma, mb, r, false, true)
}

//verif:target tracer/objects.Difference
//verif:opt peel=1
//verif:opt without=bounds
func C10_difference_first(a, b Interface, ma, mb Material, r *Ray) {
	csgFirst(Difference, true, a, b, ma, mb, r, false, true)
}

// sRobustHits: no insideness on the way depends on rounding.
func sRobustHits(a, b Interface, ray Ray, got HitRecord) bool {
	if got.T > 0 && !sRobust(b, sAt(ray, got.T)) {
		return false
	}
	t := 0.0
	for i := 0; i < 3; i++ {
		r := Ray{Start: sAt(ray, t), Dir: ray.Dir}
		h := a.Intersect(&r)
		if !(h.T > 0) {
			return true
		}
		if h.T < 1e-6 || h.T > 1e6 || !sRobust(b, sAt(r, h.T)) {
			return false
		}
		t += h.T + Tiny
	}
	return true
}
