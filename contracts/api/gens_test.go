package api

import (
	"math/rand"
	rfl "reflect"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
)

// Generators used when contracts are replayed on the real code.

type vMat struct{ id int }

func (m *vMat) Shade(*tracer.Ctx, *tracer.Scene, *tracer.Ray, tracer.HitCoords) colorf.Color {
	return colorf.Color{}
}

func vVec(r *rand.Rand) Vec { return Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()} }

func vObject(r *rand.Rand) Object {
	d := func() float64 { return 0.3 + 2*r.Float64() }
	m := &vMat{r.Intn(1000)}
	switch r.Intn(4) {
	case 0:
		return Sphere(m, d(), vVec(r))
	case 1:
		return Box(m, d(), d(), d(), vVec(r))
	case 2:
		return Cylinder(m, d(), d(), vVec(r))
	}
	return Object{objects.Transformed(objects.Box(m, d(), d(), d(), vVec(r)), geom.Rotate(vVec(r), vVec(r), r.Float64()))}
}

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf(Object{}): func(r *rand.Rand, d int) interface{} { return vObject(r) },
	rfl.TypeOf((*objects.Interface)(nil)).Elem(): func(r *rand.Rand, d int) interface{} { return vObject(r).Interface },
	rfl.TypeOf((*tracer.Material)(nil)).Elem():   func(r *rand.Rand, d int) interface{} { return &vMat{r.Intn(1000)} },
	rfl.TypeOf((*geom.AffineTransform)(nil)): func(r *rand.Rand, d int) interface{} {
		return geom.ComposeLR(geom.Scale(vVec(r), 0.3+2*r.Float64()), geom.Rotate(vVec(r), vVec(r), r.Float64()*6), geom.Translate(vVec(r)))
	},
}
