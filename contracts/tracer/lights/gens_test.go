package lights

import (
	"math/rand"
	rfl "reflect"

	. "github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer/objects"
)

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf((*objects.Interface)(nil)).Elem(): func(r *rand.Rand, d int) interface{} {
		x := func() float64 { return r.NormFloat64() }
		return objects.Sphere(nil, 0.3+3*r.Float64(), Vec{x(), x(), x()})
	},
}
