package tracer

import (
	. "github.com/barnex/bruteray/imagef/colorf"
)

func sBlocks(o Object, r *Ray, len float64) bool {
	t := o.Intersect(r).T
	return t > 0 && t < len
}

func sTransparent(o Object, r *Ray) bool {
	_, ok := o.Intersect(r).Material.(TransparentMaterial)
	return ok
}

// Anything opaque before the light casts a shadow, whatever else is on the way.
//verif:target (*tracer.Scene).Occlude
func C13_shadow(lights []Light, objs []Object, i int, r *Ray, len_ float64, orig Color) {
	s := NewScene(1, lights, objs...)
	requires(0 <= i && i < len(objs) && sBlocks(objs[i], r, len_) && !sTransparent(objs[i], r))
	loopinv(func(it int) bool { return it <= i })
	got := s.Occlude(r, len_, orig)
	ensures("dark", eqx(got, Color{}))
}

// Without anything before the light, all of its light arrives.
//verif:target (*tracer.Scene).Occlude
func C13_lit(lights []Light, objs []Object, r *Ray, len_ float64, orig Color) {
	s := NewScene(1, lights, objs...)
	requires(forallInt(0, len(objs), func(j int) bool { return !sBlocks(objs[j], r, len_) }))
	loopinv(func(c Color) bool { return eqx(c, orig) })
	got := s.Occlude(r, len_, orig)
	ensures("unaltered", eqx(got, orig))
}

// A single transparent object filters the light.
//verif:target (*tracer.Scene).Occlude
func C13_filtered(lights []Light, objs []Object, i int, r *Ray, len_ float64, orig Color) {
	s := NewScene(1, lights, objs...)
	requires(0 <= i && i < len(objs) && sBlocks(objs[i], r, len_) && sTransparent(objs[i], r))
	requires(forallInt(0, len(objs), func(j int) bool { return j == i || !sBlocks(objs[j], r, len_) }))
	h := objs[i].Intersect(r)
	want := h.Material.(TransparentMaterial).Filter(r, h, orig)
	loopinv(func(it int, c Color) bool {
		if it <= i {
			return eqx(c, orig)
		}
		return eqx(c, want)
	})
	got := s.Occlude(r, len_, orig)
	ensures("filtered", eqx(got, want))
}

// Two transparent objects both filter the light.
//verif:target (*tracer.Scene).Occlude
//verif:bounded two transparent objects
func C13_twoFilters(a, b Object, r *Ray, len_ float64, orig Color) {
	s := NewScene(1, nil, a, b)
	requires(sBlocks(a, r, len_) && sTransparent(a, r) && sBlocks(b, r, len_) && sTransparent(b, r))
	got := s.Occlude(r, len_, orig)
	ha, hb := a.Intersect(r), b.Intersect(r)
	fa, fb := ha.Material.(TransparentMaterial), hb.Material.(TransparentMaterial)
	ab := fb.Filter(r, hb, fa.Filter(r, ha, orig))
	ba := fa.Filter(r, ha, fb.Filter(r, hb, orig))
	ensures("filtered by both", eqx(got, ab) || eqx(got, ba))
}

// Shadow tests leave the ray as it was.
//verif:target (*tracer.Scene).Occlude
func C13_ray(lights []Light, objs []Object, r *Ray, len_ float64, orig Color) {
	s := NewScene(1, lights, objs...)
	k := snapshot()
	s.Occlude(r, len_, orig)
	ensures("nothing modified", unchanged(k))
}
