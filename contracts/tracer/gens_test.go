package tracer

import (
	"math"
	"math/rand"
	"reflect"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
)

// Generators used when contracts are replayed on the real code.

type vObj struct {
	h HitRecord
}

func (o *vObj) Intersect(r *Ray) HitRecord { return o.h }

type vMat struct{ c Color }

func (m *vMat) Shade(ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	if ctx.CurrentRecursionDepth < 1 || ctx.CurrentRecursionDepth > s.RecursionDepth {
		panic("bad recursion depth")
	}
	return m.c.Add(Color{h.T, h.Normal[0] + 2*h.Normal[1] + 3*h.Normal[2], h.Local[0]*2 - h.Local[1] + h.Local[2]})
}

type vGlass struct {
	vMat
	f Color
}

func (m *vGlass) Filter(r *Ray, h HitRecord, bg Color) Color {
	return bg.Mul3(m.f).Mul(1 / (1 + h.T*h.T))
}

func vVec(r *rand.Rand) Vec { return Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()} }

func vColor(r *rand.Rand) Color {
	s := 1.
	if r.Intn(12) == 0 {
		s = 1e9
	}
	return Color{s * r.Float64(), s * r.Float64(), s * r.Float64()}
}

func vMaterial(r *rand.Rand) Material {
	if r.Intn(2) == 0 {
		return &vGlass{vMat{vColor(r)}, vColor(r)}
	}
	return &vMat{vColor(r)}
}

func vObject(r *rand.Rand) Object {
	t := r.NormFloat64() * 2
	switch r.Intn(12) {
	case 0:
		t = math.Inf(1)
	case 1:
		t = math.NaN()
	case 2:
		t = 0
	case 3:
		t *= 1e9
	case 4:
		t *= 1e-9
	}
	return &vObj{HitRecord{t, vVec(r), vVec(r), vMaterial(r)}}
}

type vLight struct {
	o Object
}

func (l *vLight) Object() Object { return l.o }

func (l *vLight) Sample(ctx *Ctx, p Vec) (Vec, Color) { return p, Color{1, 1, 1} }

type vMedium struct{ f Color }

func (m *vMedium) Filter(ctx *Ctx, s *Scene, r *Ray, tMax float64, c Color) Color {
	if ctx.CurrentRecursionDepth < 1 {
		panic("bad recursion depth")
	}
	return c.Mul3(m.f).Add(Color{1, 2, tMax})
}

type vCam struct{ a, b Vec }

func (c *vCam) RayFrom(ctx *Ctx, u, v float64) *Ray {
	r := ctx.Ray()
	r.Start = c.a.MAdd(u, c.b)
	r.Dir = c.b.MAdd(v, c.a)
	return r
}

var verifGens = map[reflect.Type]func(*rand.Rand, int) interface{}{
	reflect.TypeOf((*Material)(nil)).Elem(): func(r *rand.Rand, d int) interface{} { return vMaterial(r) },
	reflect.TypeOf((*Object)(nil)).Elem():   func(r *rand.Rand, d int) interface{} { return vObject(r) },
	reflect.TypeOf((*Light)(nil)).Elem():    func(r *rand.Rand, d int) interface{} { return &vLight{vObject(r)} },
	reflect.TypeOf((*Medium)(nil)).Elem():   func(r *rand.Rand, d int) interface{} { return &vMedium{vColor(r)} },
	reflect.TypeOf((*Camera)(nil)).Elem():   func(r *rand.Rand, d int) interface{} { return &vCam{vVec(r), vVec(r)} },
	reflect.TypeOf(Color{}):                func(r *rand.Rand, d int) interface{} { return vColor(r) },
	reflect.TypeOf((*Ctx)(nil)):             func(r *rand.Rand, d int) interface{} { return NewCtx(100) },
}
