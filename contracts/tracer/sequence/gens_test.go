package sequence

import (
	"math/rand"
	"reflect"

	"github.com/barnex/bruteray/geom"
)

type vRadical struct{}

func (vRadical) At(b, n int) float64 {
	if b < 2 {
		return 0
	}
	r, f := 0.0, 1.0
	for ; n > 0; n /= b {
		f /= float64(b)
		r += f * float64(n%b)
	}
	return r
}

var verifGens = map[reflect.Type]func(*rand.Rand, int) interface{}{
	reflect.TypeOf((*sRadical)(nil)).Elem(): func(r *rand.Rand, d int) interface{} { return vRadical{} },
	reflect.TypeOf([]geom.Vec2(nil)): func(r *rand.Rand, d int) interface{} {
		l := make([]geom.Vec2, r.Intn(4))
		for i := range l {
			l[i] = geom.Vec2{r.Float64(), r.Float64()}
		}
		return l
	},
	reflect.TypeOf(geom.Vec{}): func(r *rand.Rand, d int) interface{} {
		v := geom.Vec{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
		switch r.Intn(4) {
		case 0:
			v[r.Intn(3)] = 0
		case 1:
			v = geom.Vec{}
			v[r.Intn(3)] = 1
		}
		if v == (geom.Vec{}) {
			v[1] = -1
		}
		return v.Normalized()
	},
	reflect.TypeOf(1.0): func(r *rand.Rand, d int) interface{} { return r.Float64() },
}
