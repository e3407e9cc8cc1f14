package materials

import (
	"math"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	. "github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/sequence"
)

// A flat material shows its texture, whatever the light.
//verif:target tracer/materials.Flat
//verif:target (*tracer/materials.flat).Shade
func C21_flat(t texture.Texture, ctx *Ctx, s *Scene, r *Ray, h HitCoords) {
	ensures("texture", eqx(Flat(t).Shade(ctx, s, r, h), t.At(h.Local)))
}

// Blending is the weighted sum.
//verif:target tracer/materials.Blend
//verif:target (*tracer/materials.blend).Shade
func C21_blend(a, b float64, ma, mb Material, ctx *Ctx, s *Scene, r *Ray, h HitCoords) {
	got := Blend(a, ma, b, mb).Shade(ctx, s, r, h)
	ca, cb := ma.Shade(ctx, s, r, h), mb.Shade(ctx, s, r, h)
	ensures("R", eq(got.R, a*ca.R+b*cb.R))
	ensures("G", eq(got.G, a*ca.G+b*cb.G))
	ensures("B", eq(got.B, a*ca.B+b*cb.B))
}

// Blending by texture: weights add up to one.
//verif:target tracer/materials.BlendMap
func C21_blendMap(t texture.Texture, ma, mb Material, ctx *Ctx, s *Scene, r *Ray, h HitCoords) {
	k := t.At(h.Local).R
	requires(0 <= k && k <= 1)
	got := BlendMap(t, ma, mb).Shade(ctx, s, r, h)
	ca, cb := ma.Shade(ctx, s, r, h), mb.Shade(ctx, s, r, h)
	ensures("R", eq(got.R, k*ca.R+(1-k)*cb.R))
	ensures("G", eq(got.G, k*ca.G+(1-k)*cb.G))
	ensures("B", eq(got.B, k*ca.B+(1-k)*cb.B))
}

// A shiny material is mostly matte and reflects the rest.
//verif:target tracer/materials.Shiny
func C21_shiny(t texture.Texture, k float64) {
	b, ok := Shiny(t, k).(*blend)
	ensures("blend", ok)
	m, okA := b.matA.(*matte)
	x, okB := b.matB.(*reflective)
	ensures("of matte and reflective", okA && okB && m.texture == t && x.c == Color{1, 1, 1})
	ensures("adding up", eq(b.a+b.b, 1) && eq(b.b, k))
}

// Two-sided: which side is seen depends on the normal only.
//verif:target tracer/materials.TwoSided
//verif:target (*tracer/materials.twoSided).Shade
func C21_twoSided(front, back Material, ctx *Ctx, s *Scene, r *Ray, h HitCoords) {
	k := sDot(r.Dir, h.Normal)
	wellposed(math.Abs(k) > 1e-9)
	got := TwoSided(front, back).Shade(ctx, s, r, h)
	if k > 0 {
		ensures("along the normal", eqx(got, front.Shade(ctx, s, r, h)))
	} else {
		ensures("against the normal", eqx(got, back.Shade(ctx, s, r, h)))
	}
}

// A transparent surface shows what is straight behind it, filtered by the texture;
// light passing through is filtered alike.
//verif:target tracer/materials.Transparent
//verif:target (*tracer/materials.transparent).Shade
//verif:target (*tracer/materials.transparent).Filter
func C21_transparent(tex, world texture.Texture, r Ray, t float64, h HitRecord, bg Color, rec bool) {
	requires(sUnit(r.Dir) && t > 0)
	wellposed(t < 100)
	r0 := r
	h.T = t
	w := sWatch{t: world}
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	m := Transparent(tex, rec)
	got := m.Shade(ctx, NewScene(5, nil, &w), &r, HitCoords{T: t, Normal: h.Normal, Local: h.Local})
	c, f := w.t.At(r0.Dir), tex.At(h.Local)
	ensures("filtered", eq(got.R, c.R*f.R) && eq(got.G, c.G*f.G) && eq(got.B, c.B*f.B))
	ensures("straight on", w.n == 1 && sEq(w.rays[0].Dir, r0.Dir))
	d := Vec{w.rays[0].Start[0] - sAt(&r0, t)[0], w.rays[0].Start[1] - sAt(&r0, t)[1], w.rays[0].Start[2] - sAt(&r0, t)[2]}
	ensures("from just behind the surface", sDot(d, d) <= 4*Tiny*Tiny && sDot(d, r0.Dir) > 0)
	ensures("ray not modified", eqx(r, r0))
	l := m.(TransparentMaterial).Filter(&r, h, bg)
	ensures("light filtered", eq(l.R, bg.R*f.R) && eq(l.G, bg.G*f.G) && eq(l.B, bg.B*f.B))
}

// sLight is a light source of which one point is sampled.
type sLight struct {
	pos    Vec
	c      Color
	target Vec
	n      int
}

func (l *sLight) Object() Object { return l }
func (l *sLight) Sample(ctx *Ctx, target Vec) (Vec, Color) {
	l.target = target
	l.n++
	return l.pos, l.c
}
func (l *sLight) Intersect(r *Ray) HitRecord { return HitRecord{} }

// sVoid is a scene of which nothing is seen indirectly; whatever is tested for shadow
// is recorded.
type sVoid struct {
	n     int
	rays  [3]Ray
	shade float64 // distance of something opaque
}

func (p *sVoid) Intersect(r *Ray) HitRecord {
	p.rays[p.n] = *r
	p.n++
	return HitRecord{T: p.shade, Normal: Vec{0, 0, 1}, Material: &sProbeMat{}}
}

// sSeenSide is the normal on the side that is seen.
func sSeenSide(flip int, n, d Vec) Vec {
	k := sDot(n, d)
	requires(flip == 0 && k < 0 || flip == 1 && k > 0)
	if flip == 1 {
		return Vec{-n[0], -n[1], -n[2]}
	}
	return n
}

// Matte surfaces: light is sampled for the point seen; light from behind does not count.
//verif:target tracer/materials.Matte
//verif:target (*tracer/materials.matte).Shade
//verif:target tracer/materials.flipTowards
//verif:opt pure=tracer/sequence.CosineSphere
//verif:opt cases=flip:0..1
func C21_matteBehind(flip int, tex texture.Texture, pos Vec, c Color, r Ray, t float64, n sDir, local Vec) {
	requires(sUnit(n.v) && t > 0)
	wellposed(t < 100)
	r0 := r
	m := sSeenSide(flip, n.v, r.Dir)
	l := &sLight{pos: pos, c: c}
	got, _ := sMatte(1, tex, []Light{l}, &sVoid{}, &r, HitCoords{T: t, Normal: n.v, Local: local})
	ensures("light sampled once", l.n == 1)
	at := sAt(&r0, t)
	off := Vec{l.target[0] - at[0], l.target[1] - at[1], l.target[2] - at[2]}
	ensures("at the surface", sDot(off, off) <= 4*Tiny*Tiny)
	ensures("on the side that is seen", sDot(off, m) > 0)
	ensures("ray not modified", eqx(r, r0))
	d := Vec{pos[0] - l.target[0], pos[1] - l.target[1], pos[2] - l.target[2]}
	cos := sDot(d, m)
	wellposed(cos < -1e-3)
	requires(cos < 0)
	len := math.Sqrt(sDot(d, d))
	lemma("some distance", func() bool { return len > 0 })
	lemma("from behind", func() bool { return cos/len < 0 })
	ensures("dark", eqx(got, Color{}))
}

// Light from the front counts by the cosine of its incidence; whatever opaque is before
// the light, and only that, blocks it.
//verif:target (*tracer/materials.matte).Shade
//verif:opt pure=tracer/sequence.CosineSphere
//verif:opt cases=flip:0..1
func C21_matteLight(flip int, tex texture.Texture, pos Vec, c Color, r Ray, t, shade float64, n sDir, local Vec) {
	requires(sUnit(n.v) && t > 0 && shade > 0)
	wellposed(t < 100)
	l := &sLight{pos: pos, c: c}
	p := &sVoid{shade: shade}
	m := sSeenSide(flip, n.v, r.Dir)
	got, _ := sMatte(1, tex, []Light{l}, p, &r, HitCoords{T: t, Normal: n.v, Local: local})
	d := Vec{pos[0] - l.target[0], pos[1] - l.target[1], pos[2] - l.target[2]}
	cos := sDot(d, m)
	requires(cos > 0 && c != Color{})
	len := math.Sqrt(sDot(d, d))
	wellposed(cos > 1e-3 && math.Abs(len-shade) > 1e-3)
	lemma("some distance", func() bool { return len > 0 })
	lemma("from the front", func() bool { return cos/len > 0 })
	ensures("one test", p.n == 1)
	ensures("from the surface", sDist2(p.rays[0].Start, l.target) <= 4*Tiny*Tiny)
	ensures("unit direction", eq(sDot(p.rays[0].Dir, p.rays[0].Dir), 1))
	for i := 0; i < 3; i++ {
		ensures("towards the light", eq(p.rays[0].Dir[i]*len, d[i]))
	}
	ensures("blocked", shade >= len || eqx(got, Color{}))
	f := tex.At(local)
	k := cos / len
	ensures("not blocked", shade < len || eq(got.R, c.R*k*f.R) && eq(got.G, c.G*k*f.G) && eq(got.B, c.B*k*f.B))
}

// Indirect light comes from a cosine-distributed direction around the normal.
//verif:target (*tracer/materials.matte).Shade
//verif:opt pure=tracer/sequence.CosineSphere
func C21_matteIndirect(tex, world texture.Texture, r Ray, t float64, n sDir, local Vec) {
	requires(sUnit(n.v) && t > 0)
	wellposed(t < 100)
	r0 := r
	w := &sWatch{t: world}
	ctx := NewCtx(1)
	ctx.Init(0, 0)
	ctx.CurrentRecursionDepth = 1
	u, v := ctx.Generate2()
	got := Matte(tex).Shade(ctx, NewScene(5, nil, w), &r, HitCoords{T: t, Normal: n.v, Local: local})
	m := n.v
	if sDot(n.v, r0.Dir) > 0 {
		m = Vec{-n.v[0], -n.v[1], -n.v[2]}
	}
	dir := sequence.CosineSphere(u, v, m)
	requires(sFinite(dir[0]) && sFinite(dir[1]) && sFinite(dir[2]))
	ensures("one ray", w.n == 1)
	ensures("cosine-distributed around the normal", sEq(w.rays[0].Dir, dir))
	at := sAt(&r0, t)
	off := Vec{w.rays[0].Start[0] - at[0], w.rays[0].Start[1] - at[1], w.rays[0].Start[2] - at[2]}
	ensures("at the surface", sDot(off, off) <= 9*Tiny*Tiny)
	ensures("on the side that is seen", sDot(off, m) > 0)
	c, f := world.At(dir), tex.At(local)
	ensures("tinted", eq(got.R, c.R*f.R) && eq(got.G, c.G*f.G) && eq(got.B, c.B*f.B))
}

// Several lights add up, and so does what is seen indirectly.
//verif:target (*tracer/materials.matte).Shade
//verif:opt pure=tracer/sequence.CosineSphere
//verif:bounded two lights
func C21_matteSum(tex texture.Texture, p1, p2 Vec, c1, c2 Color, r Ray, t float64, n sDir, local Vec) {
	requires(sUnit(n.v) && t > 0)
	m := sSeenSide(0, n.v, r.Dir)
	l1, l2 := &sLight{pos: p1, c: c1}, &sLight{pos: p2, c: c2}
	all, _ := sMatte(1, tex, []Light{l1, l2}, &sVoid{}, &r, HitCoords{T: t, Normal: n.v, Local: local})
	at := l1.target
	d1 := Vec{p1[0] - at[0], p1[1] - at[1], p1[2] - at[2]}
	d2 := Vec{p2[0] - at[0], p2[1] - at[1], p2[2] - at[2]}
	k1, k2 := sDot(d1, m), sDot(d2, m)
	len1, len2 := math.Sqrt(sDot(d1, d1)), math.Sqrt(sDot(d2, d2))
	requires(k1 > 0 && k2 > 0 && c1 != Color{} && c2 != Color{})
	wellposed(t < 100 && k1 > 1e-3 && k2 > 1e-3)
	lemma("some distance", func() bool { return len1 > 0 && len2 > 0 })
	k1, k2 = k1/len1, k2/len2
	lemma("from the front", func() bool { return k1 > 0 && k2 > 0 })
	f := tex.At(local)
	ensures("R", eq(all.R, f.R*(k1*c1.R+k2*c2.R)))
	ensures("G", eq(all.G, f.G*(k1*c1.G+k2*c2.G)))
	ensures("B", eq(all.B, f.B*(k1*c1.B+k2*c2.B)))
}

func sMatte(depth int, tex texture.Texture, lights []Light, obj Object, r *Ray, h HitCoords) (Color, *Ctx) {
	ctx := NewCtx(1)
	ctx.Init(0, 0)
	ctx.CurrentRecursionDepth = 1
	return Matte(tex).Shade(ctx, NewScene(depth, lights, obj), r, h), ctx
}

