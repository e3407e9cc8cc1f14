package media

import (
	"math/rand"
	rfl "reflect"

	. "github.com/barnex/bruteray/tracer/types"
)

type vLight struct {
	p Vec
	c Color
}

func (l *vLight) Object() Object                 { return l }
func (l *vLight) Intersect(*Ray) HitRecord       { return HitRecord{} }
func (l *vLight) Sample(*Ctx, Vec) (Vec, Color) { return l.p, l.c }

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf((*Light)(nil)).Elem(): func(r *rand.Rand, d int) interface{} {
		return &vLight{Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}, Color{r.Float64(), r.Float64(), r.Float64()}}
	},
}
