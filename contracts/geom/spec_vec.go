package geom

// Mathematical definitions used by the contracts (not the code under verification).

func sAdd(a, b Vec) Vec            { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func sSub(a, b Vec) Vec            { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func sMul(s float64, a Vec) Vec    { return Vec{s * a[0], s * a[1], s * a[2]} }
func sDot(a, b Vec) float64        { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func sCross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

// sApply is the linear map with columns m[0], m[1], m[2].
func sApply(m Matrix, v Vec) Vec {
	return sAdd(sAdd(sMul(v[0], m[0]), sMul(v[1], m[1])), sMul(v[2], m[2]))
}
func sDet(m Matrix) float64 { return sDot(m[0], sCross(m[1], m[2])) }
func sNonzero(v Vec) bool   { return v[0] != 0 || v[1] != 0 || v[2] != 0 }
