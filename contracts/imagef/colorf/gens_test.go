package colorf

import (
	"math/rand"
	rfl "reflect"
)

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf(0.0): func(r *rand.Rand, n int) interface{} {
		switch r.Intn(5) {
		case 0:
			return r.Float64() * 0.01
		case 1:
			return r.NormFloat64() * 2
		}
		return r.Float64()
	},
	rfl.TypeOf(Color{}): func(r *rand.Rand, n int) interface{} {
		return Color{r.Float64()*1.4 - .2, r.Float64(), r.Float64() * 0.02}
	},
}
