package texture

import (
	"math/rand"
	rfl "reflect"

	. "github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	. "github.com/barnex/bruteray/imagef/colorf"
)

type vTex struct{ c Color }

func (t *vTex) At(p Vec) Color { return t.c.Add(Color{p[0], 2 * p[1], p[2] - p[0]}) }

func vColor(r *rand.Rand) Color { return Color{r.Float64(), r.Float64(), r.Float64()} }

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf((*Texture)(nil)).Elem(): func(r *rand.Rand, d int) interface{} { return &vTex{vColor(r)} },
	rfl.TypeOf(sDir{}): func(r *rand.Rand, d int) interface{} {
		return sDir{Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}.Normalized()}
	},
	rfl.TypeOf(0):                      func(r *rand.Rand, d int) interface{} { return r.Intn(6) - 1 },
	rfl.TypeOf(imagef.Image{}): func(r *rand.Rand, d int) interface{} {
		img := imagef.MakeImage(1+r.Intn(4), 1+r.Intn(4))
		for i := range img {
			for j := range img[i] {
				img[i][j] = vColor(r)
			}
		}
		return img
	},
	rfl.TypeOf((func(u, v float64) Color)(nil)): func(r *rand.Rand, d int) interface{} {
		c := vColor(r)
		return func(u, v float64) Color { return c.Add(Color{u, v, u - 2*v}) }
	},
	rfl.TypeOf((func(p Vec) Color)(nil)): func(r *rand.Rand, d int) interface{} {
		c := vColor(r)
		return func(p Vec) Color { return c.Add(Color{p[0], p[1], p[2]}) }
	},
}
