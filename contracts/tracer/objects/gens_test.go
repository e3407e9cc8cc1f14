package objects

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer/types"
)

// Generators used when contracts are replayed on the real code.

type vMat struct{ id int }

func (m *vMat) Shade(*Ctx, *Scene, *Ray, HitCoords) Color { return Color{} }

func vVec(r *rand.Rand) Vec {
	return Vec{verifFloat(r), verifFloat(r), verifFloat(r)}
}

func vPos(r *rand.Rand) float64 { return 0.2 + 3*r.Float64() }

func vMaterial(r *rand.Rand) Material { return &vMat{r.Intn(1000)} }

func vSmall(r *rand.Rand) Vec {
	return Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
}

func vObject(r *rand.Rand, depth int) Interface {
	m := vMaterial(r)
	n := 13
	if depth <= 0 {
		n = 6
	}
	sub := func() Interface { return vObject(r, depth-1) }
	switch r.Intn(n) {
	case 0:
		return Sphere(m, vPos(r), vSmall(r))
	case 1:
		return Box(m, vPos(r), vPos(r), vPos(r), vSmall(r))
	case 2:
		return Cylinder(m, vPos(r), vPos(r), vSmall(r))
	case 3:
		return CylinderDir(m, r.Intn(3), vPos(r), vPos(r), vSmall(r))
	case 4:
		return Triangle(m, vSmall(r), vSmall(r), vSmall(r))
	case 5:
		return Rectangle(m, vPos(r), vPos(r), vSmall(r))
	case 6:
		return And(sub(), sub())
	case 7:
		return Or(sub(), sub())
	case 8:
		return And(sub(), Not(sub()))
	case 9:
		return Transformed(sub2(r, depth), vTransf(r))
	case 10:
		return Tree(sub2(r, depth), sub2(r, depth), sub2(r, depth))
	case 11:
		return Bounded(sub())
	default:
		return Restrict(sub(), sub())
	}
}

// sub2 is an object with finite bounds
func sub2(r *rand.Rand, depth int) Interface {
	for {
		o := vObject(r, depth-1)
		b := o.Bounds()
		if b.Max[0] < 1e9 && b.Max[1] < 1e9 && b.Max[2] < 1e9 && b.Min[0] > -1e9 && b.Min[1] > -1e9 && b.Min[2] > -1e9 {
			return o
		}
	}
}

func vTransf(r *rand.Rand) *geom.AffineTransform {
	switch r.Intn(3) {
	case 0:
		return geom.Translate(vSmall(r))
	case 1:
		return geom.Rotate(vSmall(r), vSmall(r), r.Float64()*6)
	}
	return geom.ComposeLR(geom.Scale(vSmall(r), 0.3+2*r.Float64()), geom.Rotate(vSmall(r), vSmall(r), r.Float64()*6), geom.Translate(vSmall(r)))
}

type vHeights struct{ a, b, c float64 }

func (h *vHeights) Height(u, v float64) float64 {
	return math.Abs(math.Mod(h.a+h.b*math.Sin(7*u)+h.c*v*v, 1))
}

var verifGens = map[reflect.Type]func(*rand.Rand, int) interface{}{
	reflect.TypeOf((*Material)(nil)).Elem():         func(r *rand.Rand, d int) interface{} { return vMaterial(r) },
	reflect.TypeOf((*Interface)(nil)).Elem():        func(r *rand.Rand, d int) interface{} { return vObject(r, d) },
	reflect.TypeOf((*Object)(nil)).Elem():           func(r *rand.Rand, d int) interface{} { return vObject(r, d) },
	reflect.TypeOf(Ray{}): func(r *rand.Rand, d int) interface{} {
		x := Ray{Start: vVec(r), Dir: vVec(r)}
		if x.Dir == (Vec{}) {
			x.Dir[r.Intn(3)] = 1
		}
		return x
	},
	reflect.TypeOf(sPlane{}): func(r *rand.Rand, d int) interface{} {
		return sPlane{0.3 * r.Float64(), 0.3 * r.Float64(), 0.3 * r.Float64(), r.Float64(), r.Float64()}
	},
	reflect.TypeOf((*sHeights)(nil)).Elem():         func(r *rand.Rand, d int) interface{} { return &vHeights{r.Float64(), r.Float64(), r.Float64()} },
	reflect.TypeOf((*geom.AffineTransform)(nil)):    func(r *rand.Rand, d int) interface{} { return vTransf(r) },
}
