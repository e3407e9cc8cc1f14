package objects

import (
	"math"

	. "github.com/barnex/bruteray/tracer/types"
)

// Mathematical definitions used by the contracts.

func sAdd(a, b Vec) Vec         { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func sSub(a, b Vec) Vec         { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func sMul(s float64, a Vec) Vec { return Vec{s * a[0], s * a[1], s * a[2]} }
func sDot(a, b Vec) float64     { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sCross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func sNonzero(v Vec) bool        { return v[0] != 0 || v[1] != 0 || v[2] != 0 }
func sAt(r Ray, t float64) Vec   { return sAdd(r.Start, sMul(t, r.Dir)) }
func sIn(b BoundingBox, p Vec) bool { // closed box
	return le(b.Min[0], p[0]) && le(p[0], b.Max[0]) &&
		le(b.Min[1], p[1]) && le(p[1], b.Max[1]) &&
		le(b.Min[2], p[2]) && le(p[2], b.Max[2])
}
func sIn2(b BoundingBox, p Vec) bool { // open box
	return b.Min[0] < p[0] && p[0] < b.Max[0] &&
		b.Min[1] < p[1] && p[1] < b.Max[1] &&
		b.Min[2] < p[2] && p[2] < b.Max[2]
}
func sqrt(x float64) float64 { return math.Sqrt(x) }

func sLateral(dir int, d Vec) Vec { d[dir] = 0; return d }

func sCyl(m Material, kind int, diam, height float64, center Vec) (Interface, int) {
	if kind == 3 {
		return Cylinder(m, diam, height, center), 1
	}
	return CylinderDir(m, kind, diam, height, center), kind
}

func requireFinite(b BoundingBox) {
	for i := 0; i < 3; i++ {
		requires(sFin(b.Min[i]))
		requires(sFin(b.Max[i]))
	}
}

func sFin(x float64) bool { return x-x == 0 }

func sEnds(a, lo, x, hi float64) {
	lemma("between the ends", func() bool {
		return le(a*lo, a*x) && le(a*x, a*hi) || le(a*hi, a*x) && le(a*x, a*lo)
	})
}


// sRobust: p is not too near the surface of o for floating-point replay.
func sRobust(o Interface, p Vec) bool {
	for i := 0; i < 3; i++ {
		for _, d := range []float64{-1e-7, 1e-7} {
			q := p
			q[i] += d
			if o.Inside(q) != o.Inside(p) {
				return false
			}
		}
	}
	return true
}

// sHeights is a height function: heights are between zero and one, as required.
type sHeights interface {
	Height(u, v float64) float64
}

// sPlane: a planar height function and a place on it.
type sPlane struct{ a, b, c, u, v float64 }
