package ppm

import (
	"math/rand"
	rfl "reflect"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
)

var verifGens = map[rfl.Type]func(*rand.Rand, int) interface{}{
	rfl.TypeOf(0): func(r *rand.Rand, n int) interface{} { return r.Intn(4) },
	rfl.TypeOf(imagef.Image{}): func(r *rand.Rand, n int) interface{} {
		img := imagef.MakeImage(1+r.Intn(4), 1+r.Intn(4))
		for i := range img {
			for j := range img[i] {
				img[i][j] = colorf.Color{R: r.Float64()*1.4 - .2, G: r.Float64(), B: r.Float64() * 0.02}
			}
		}
		return img
	},
}
