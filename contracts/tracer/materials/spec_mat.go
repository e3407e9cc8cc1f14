package materials

import (
	"math"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	. "github.com/barnex/bruteray/tracer"
)

func sDot(a, b Vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sUnit(a Vec) bool      { return eq(sDot(a, a), 1) }
func sEq(a, b Vec) bool     { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }
func sAt(r *Ray, t float64) Vec {
	return Vec{r.Start[0] + t*r.Dir[0], r.Start[1] + t*r.Dir[1], r.Start[2] + t*r.Dir[2]}
}
func sDist2(a, b Vec) float64 {
	d := Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]}
	return sDot(d, d)
}
func sFinite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// sProbe is all there is to be seen in a scene; it keeps the rays that came by, told
// apart by the side of the surface (with normal n) they go to.
type sProbe struct {
	n     Vec
	up    sSeen
	down  sSeen
	shade Color
	mat   sProbeMat
}

type sSeen struct {
	n   int
	ray Ray
	c   Color
}

type sProbeMat struct{ c Color }

func (m *sProbeMat) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color { return m.c }

func (p *sProbe) Intersect(r *Ray) HitRecord {
	s := &p.down
	if sDot(r.Dir, p.n) > 0 {
		s = &p.up
	}
	s.n++
	s.ray = *r
	p.mat.c = s.c
	return HitRecord{T: 1, Normal: Vec{0, 0, 1}, Material: &p.mat}
}

// sWorld: a scene showing the given colours above and below a surface with normal n.
func sWorld(n Vec, up, down Color) (*Ctx, *Scene, *sProbe) {
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	p := &sProbe{n: n}
	p.up.c = up
	p.down.c = down
	return ctx, NewScene(5, nil, p), p
}

// Materials depend on the hit only, and do not modify it.
//verif:iface Shade
func contract_Shade(m Material, ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	return m.Shade(ctx, s, r, h)
}

// sDir is a unit vector.
type sDir struct{ v Vec }

// sWatch shows some colour in every direction, and counts the rays.
type sWatch struct {
	t    texture.Texture
	n    int
	rays [3]Ray
}

func (p *sWatch) Intersect(r *Ray) HitRecord {
	p.rays[p.n] = *r
	p.n++
	return HitRecord{T: 1, Normal: Vec{0, 0, 1}, Material: p}
}

func (p *sWatch) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color { return p.t.At(r.Dir) }

