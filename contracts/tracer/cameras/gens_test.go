package cameras

import (
	"math/rand"
	"reflect"
)

var verifGens = map[reflect.Type]func(*rand.Rand, int) interface{}{}
