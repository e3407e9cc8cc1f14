package materials

import (
	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	. "github.com/barnex/bruteray/tracer"
)

// sUser is an object that uses rays, like materials do: those handed out to it should not
// be in use elsewhere.
type sUser struct {
	ctx   *Ctx
	n     int
	clash bool
	mat   sProbeMat
}

func (p *sUser) Intersect(r *Ray) HitRecord {
	p.n++
	a, b, c := p.ctx.Ray(), p.ctx.Ray(), p.ctx.Ray()
	if a == r || b == r || c == r || a == b || a == c || b == c {
		p.clash = true
	}
	return HitRecord{T: 1, Normal: Vec{0, 0, 1}, Material: &p.mat}
}

// sShade shades m in a world that uses rays, and tells if all is well.
func sShade(name string, m Material, r *Ray, h HitCoords) *sUser {
	requires(r != nil)
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	p := &sUser{ctx: ctx}
	r0 := *r
	m.Shade(ctx, NewScene(5, nil, p), r, h)
	ensures(name+": rays in use are not handed out", !p.clash)
	a, b, c := ctx.Ray(), ctx.Ray(), ctx.Ray()
	ensures(name+": rays are given back once", a != b && a != c && b != c)
	ensures(name+": the ray given is not recycled", a != r && b != r && c != r)
	ensures(name+": the ray given is not modified", eqx(*r, r0))
	return p
}

// Materials do not give rays back that are in use, or give them back twice.
//verif:target (*tracer/materials.reflective).Shade
func C15_reflective(c Color, r *Ray, h HitCoords) {
	p := sShade("reflective", Reflective(c), r, h)
	ensures("reflects", p.n == 1)
}

//verif:target (*tracer/materials.reflectFresnel).Shade
//verif:opt pure=tracer/materials.fresnelReflection
func C15_varnish(ior float64, t texture.Texture, r *Ray, h HitCoords) {
	sShade("varnish", ReflectFresnel(ior, Flat(t)), r, h)
}

//verif:target (*tracer/materials.transparent).Shade
func C15_transparent(t texture.Texture, r *Ray, h HitCoords) {
	requires(sUnit(r.Dir))
	sShade("transparent", Transparent(t, true), r, h)
}

//verif:target (*tracer/materials.refractive).Shade
//verif:opt pure=(geom.Vec).Normalized,(geom.Vec).Dot,(geom.Vec).Mul,(geom.Vec).MAdd,util.Sqr,tracer/materials.reflect,(geom.Ray).At,(*tracer/types.Ray).At,(*tracer.Ray).At
func C15_refractive(n1, n2 float64, r *Ray, h HitCoords) {
	requires(n1 > 0 && n2 > 0)
	sShade("refractive", Refractive2(n1, n2), r, h)
}

//verif:target (*tracer/materials.matte).Shade
//verif:opt pure=(geom.Vec).Normalized,tracer/sequence.CosineSphere
func C15_matte(t texture.Texture, r *Ray, h HitCoords) {
	sShade("matte", Matte(t), r, h)
}
