package materials

import (
	"math"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	. "github.com/barnex/bruteray/tracer"
)

// Unit vectors are normalised already.
//verif:contract (geom.Vec).Normalized
func C20_normalized(v Vec) Vec {
	requires(eq(sDot(v, v), 1))
	w := v.Normalized()
	ensures("unchanged", eqx(w, v))
	return v
}

// Mirrors: angle of reflection equals angle of incidence, in the same plane.
//verif:target tracer/materials.reflect
func C20_reflect(v Vec, n sDir) {
	requires(sUnit(n.v))
	w := reflect(v, n.v)
	ensures("same length", eq(sDot(w, w), sDot(v, v)))
	ensures("same angle", eq(sDot(w, n.v), -sDot(v, n.v)))
	k := sDot(v, n.v)
	for i := 0; i < 3; i++ {
		ensures("same tangential part", eq(w[i]-sDot(w, n.v)*n.v[i], v[i]-k*n.v[i]))
	}
}

// A reflective surface shows what the reflected ray sees, tinted.
//verif:target tracer/materials.Reflective
//verif:target (*tracer/materials.reflective).Shade
func C20_reflective(c, up, down Color, r Ray, t float64, n, d sDir, local Vec) {
	requires(sUnit(n.v) && sUnit(d.v) && t > 0)
	r.Dir = d.v
	r0 := r
	k := sDot(r.Dir, n.v)
	requires(k != 0)
	wellposed(math.Abs(k) > 1e-3 && t < 100)
	ctx, s, p := sWorld(n.v, up, down)
	got := Reflective(c).Shade(ctx, s, &r, HitCoords{T: t, Normal: n.v, Local: local})
	seen, other := p.up, p.down
	if k > 0 {
		seen, other = p.down, p.up
	}
	ensures("one reflected ray", seen.n == 1 && other.n == 0)
	ensures("reflected", sEq(seen.ray.Dir, Vec{d.v[0] - 2*k*n.v[0], d.v[1] - 2*k*n.v[1], d.v[2] - 2*k*n.v[2]}))
	ensures("starts at the surface", sDist2(seen.ray.Start, sAt(&r0, t)) <= 4*Tiny*Tiny)
	ensures("starts on the same side", sDot(Vec{seen.ray.Start[0] - sAt(&r0, t)[0], seen.ray.Start[1] - sAt(&r0, t)[1], seen.ray.Start[2] - sAt(&r0, t)[2]}, n.v)*k <= 0)
	ensures("tinted", eq(got.R, c.R*seen.c.R) && eq(got.G, c.G*seen.c.G) && eq(got.B, c.B*seen.c.B))
	ensures("ray not modified", eqx(r, r0))
	ensures("ray given back", ctx.CurrentRecursionDepth == 1)
}

// Fresnel's equations: the reflected part is between none and all.
//verif:target tracer/materials.fresnelReflection
func C20_fresnel(n, c float64) {
	requires(n > 0 && 0 < c && c <= 1)
	R := fresnelReflection(1, n, c)
	ensures("not negative", R >= 0)
	ensures("not more than all", le(R, 1))
}

//verif:target tracer/materials.fresnelReflection
func C20_fresnelNormal(n float64) {
	requires(n > 0)
	R := fresnelReflection(1, n, 1)
	ensures("normal incidence", eq(R*(n+1)*(n+1), (n-1)*(n-1)))
	requires(n > 1)
	ensures("all under grazing incidence", eq(fresnelReflection(1, n, 0), 1))
}

// A varnished surface mixes its reflection and what is beneath in proportions that add up.
//verif:target tracer/materials.ReflectFresnel
//verif:target (*tracer/materials.reflectFresnel).Shade
//verif:opt pure=tracer/materials.fresnelReflection
func C20_varnish(ior float64, m Material, up, down Color, r Ray, t float64, n, d sDir, local Vec) {
	requires(sUnit(n.v) && sUnit(d.v) && t > 0 && ior > 0)
	r.Dir = d.v
	r0 := r
	k := sDot(r.Dir, n.v)
	requires(k != 0)
	wellposed(math.Abs(k) > 1e-3 && t < 100)
	ctx, s, p := sWorld(n.v, up, down)
	h := HitCoords{T: t, Normal: n.v, Local: local}
	got := ReflectFresnel(ior, m).Shade(ctx, s, &r, h)
	seen, other := p.up, p.down
	if k > 0 {
		seen, other = p.down, p.up
	}
	R := fresnelReflection(1, ior, math.Abs(k))
	requires(sFinite(R))
	under := m.Shade(ctx, s, &r0, h)
	ensures("one reflected ray", seen.n == 1 && other.n == 0)
	ensures("reflected", sEq(seen.ray.Dir, Vec{d.v[0] - 2*k*n.v[0], d.v[1] - 2*k*n.v[1], d.v[2] - 2*k*n.v[2]}))
	ensures("starts at the surface", sDist2(seen.ray.Start, sAt(&r0, t)) <= 4*Tiny*Tiny)
	ensures("mixed", eq(got.R, R*seen.c.R+(1-R)*under.R) && eq(got.G, R*seen.c.G+(1-R)*under.G) && eq(got.B, R*seen.c.B+(1-R)*under.B))
	ensures("ray not modified", eqx(r, r0))
}

// sFacing is the normal on the side the ray comes from, and the indices on that and the
// other side.
func sFacing(exit int, n1, n2 float64, n, d sDir) (m Vec, na, nb float64) {
	requires(sUnit(n.v) && sUnit(d.v) && n1 > 0 && n2 > 0)
	k := sDot(d.v, n.v)
	requires(exit == 1 && k > 0 || exit == 0 && k < 0)
	wellposed(math.Abs(k) > 1e-3 && n1 > 0.1 && n2 > 0.1)
	if exit == 1 {
		return Vec{-n.v[0], -n.v[1], -n.v[2]}, n2, n1
	}
	return n.v, n1, n2
}

// sRefract: what is seen at a refractive surface, in a world that looks like w in every
// direction.
func sRefract(n1, n2 float64, w texture.Texture, r *Ray, t float64, n Vec, local Vec) (*sWatch, Color) {
	requires(t > 0)
	wellposed(t < 100)
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	p := &sWatch{t: w}
	c := Refractive2(n1, n2).Shade(ctx, NewScene(5, nil, p), r, HitCoords{T: t, Normal: n, Local: local})
	return p, c
}

func sMirror(d, n Vec) Vec {
	k := sDot(d, n)
	return Vec{d[0] - 2*k*n[0], d[1] - 2*k*n[1], d[2] - 2*k*n[2]}
}

// Refraction follows Snell's law and Fresnel's equations.
//verif:target tracer/materials.Refractive2
//verif:target (*tracer/materials.refractive).Shade
//verif:opt cases=exit:0..1
func C20_refract(exit int, n1, n2 float64, w texture.Texture, r Ray, t float64, n, d sDir, local Vec) {
	r.Dir = d.v
	r0 := r
	m, na, nb := sFacing(exit, n1, n2, n, d)
	c := -sDot(d.v, m)
	q := na / nb
	s2 := q * q * (1 - c*c)
	requires(s2 < 1)
	wellposed(s2 < 0.999)
	ct := math.Sqrt(1 - s2)
	lemma("cosine", func() bool { return ct > 0 })
	lemma("denominator p", func() bool { return na*c+nb*ct > 0 })
	lemma("denominator s", func() bool { return na*ct+nb*c > 0 })
	p, got := sRefract(n1, n2, w, &r, t, n.v, local)
	T := sRefracted(q, c, ct, d.v, m)
	fp, fs := (na*c-nb*ct)/(na*c+nb*ct), (na*ct-nb*c)/(na*ct+nb*c)
	R := (fp*fp + fs*fs) / 2
	ensures("two rays", p.n == 2)
	at := sAt(&r0, t)
	for i := 0; i < 2; i++ {
		ensures("starts at the surface", sDist2(p.rays[i].Start, at) <= 4*Tiny*Tiny)
	}
	cr, cx := w.At(sMirror(d.v, n.v)), w.At(T)
	ensures("R", eq(got.R, R*cr.R+(1-R)*cx.R))
	ensures("G", eq(got.G, R*cr.G+(1-R)*cx.G))
	ensures("B", eq(got.B, R*cr.B+(1-R)*cx.B))
	ensures("ray not modified", eqx(r, r0))
}

// sRefracted is the direction of refraction of d at a surface with normal m; q is the
// ratio of indices, c and ct are the cosines of incidence and transmission.
func sRefracted(q, c, ct float64, d, m Vec) Vec {
	a := q*c - ct
	return Vec{q*d[0] + a*m[0], q*d[1] + a*m[1], q*d[2] + a*m[2]}
}

// That is Snell's law: the tangential part changes by the ratio of indices.
func C20_snell(q, ct float64, d, m sDir) {
	requires(sUnit(d.v) && sUnit(m.v) && q > 0)
	c := -sDot(d.v, m.v)
	requires(c > 0 && ct > 0 && ct*ct == 1-q*q*(1-c*c))
	T := sRefracted(q, c, ct, d.v, m.v)
	ensures("cosine", eq(sDot(T, m.v), -ct))
	for i := 0; i < 3; i++ {
		ensures("Snell's law", eq(T[i]+ct*m.v[i], q*(d.v[i]+c*m.v[i])))
	}
	ensures("unit length", eq(sDot(T, T), 1))
}

// Beyond the critical angle everything is reflected.
//verif:target (*tracer/materials.refractive).Shade
//verif:opt cases=exit:0..1
func C20_total(exit int, n1, n2 float64, w texture.Texture, r Ray, t float64, n, d sDir, local Vec) {
	r.Dir = d.v
	m, na, nb := sFacing(exit, n1, n2, n, d)
	c := -sDot(d.v, m)
	q := na / nb
	s2 := q * q * (1 - c*c)
	requires(s2 > 1)
	wellposed(s2 > 1.001)
	p, got := sRefract(n1, n2, w, &r, t, n.v, local)
	ensures("one ray", p.n == 1)
	cr := w.At(sMirror(d.v, n.v))
	ensures("all reflected", eqx(got, cr))
}

// Glass of index n is that against vacuum.
//verif:target tracer/materials.Refractive
func C20_glass(n float64) {
	g, ok := Refractive(n).(*refractive)
	ensures("outside is vacuum", ok && g.n1 == 1 && g.n2 == n)
}
