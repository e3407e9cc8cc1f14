package sequence

import (
	. "github.com/barnex/bruteray/geom"
)

// sRadical is the radical inverse: the digits of n, mirrored at the decimal point.
type sRadical interface {
	At(b, n int) float64
}

// sIsRadical: phi is defined by its recursion, for numbers up to n.
func sIsRadical(phi sRadical, b, n int) {
	requires(phi.At(b, 0) == 0)
	requires(forallInt(1, n+1, func(k int) bool {
		return eq(phi.At(b, k)*float64(b), float64(k%b)+phi.At(b, k/b))
	}))
}

// invHalton: the part of the number still to be mirrored.
func invHalton(phi sRadical, b, n int) {
	loopinv(func(any_i int, any_f, any_r float64) bool {
		return 0 <= any_i && any_i <= n && 0 < any_f && any_f <= 1 && 0 <= any_r && any_r+any_f <= 1
	})
	loopinv(func(any_i int, any_f, any_r float64) bool {
		return eq(any_r+any_f*phi.At(b, any_i), phi.At(b, n))
	})
	loopinv(func(it int, any_f float64) bool { return it == 0 || any_f < 1 })
}

func sDot(a, b Vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
