package materials

import (
	"math/rand"
	rfl "reflect"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	. "github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/texture"
)

type vMat struct{ c Color }

func (m *vMat) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	return m.c.Add(Color{h.T, h.Normal[0] + 2*h.Normal[1] + 3*h.Normal[2], h.Local[0]*2 - h.Local[1] + h.Local[2]})
}

type vTex struct{ c Color }

func (t *vTex) At(p Vec) Color { return t.c.Add(Color{p[0], 2 * p[1], p[2] - p[0]}) }

func vColor(r *rand.Rand) Color { return Color{r.Float64(), r.Float64(), r.Float64()} }

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf((*Material)(nil)).Elem():        func(r *rand.Rand, d int) interface{} { return &vMat{vColor(r)} },
	rfl.TypeOf((*texture.Texture)(nil)).Elem(): func(r *rand.Rand, d int) interface{} { return &vTex{vColor(r)} },
	rfl.TypeOf((*Ctx)(nil)):                   func(r *rand.Rand, d int) interface{} { return NewCtx(1) },
	rfl.TypeOf((*Scene)(nil)):                 func(r *rand.Rand, d int) interface{} { return NewScene(3, nil) },
	rfl.TypeOf(sDir{}): func(r *rand.Rand, d int) interface{} {
		v := Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
		if r.Intn(3) == 0 {
			v[r.Intn(3)] = 0
		}
		if r.Intn(5) == 0 {
			v = Vec{}
			v[r.Intn(3)] = 1 - 2*float64(r.Intn(2))
		}
		return sDir{v.Normalized()}
	},
}
