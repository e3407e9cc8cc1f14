package api

func sFin(x float64) bool { return x-x == 0 }

func sFinite(o Object) bool {
	b := o.Interface.Bounds()
	return sFin(b.Min[0]) && sFin(b.Min[1]) && sFin(b.Min[2]) && sFin(b.Max[0]) && sFin(b.Max[1]) && sFin(b.Max[2])
}

func sAdd(a, b Vec) Vec         { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func sSub(a, b Vec) Vec         { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func sMul(s float64, a Vec) Vec { return Vec{s * a[0], s * a[1], s * a[2]} }
func sMid(a, b float64) float64 { return (a + b) / 2 }
func sMiddle(o Object) Vec {
	b := o.Interface.Bounds()
	return Vec{sMid(b.Min[0], b.Max[0]), sMid(b.Min[1], b.Max[1]), sMid(b.Min[2], b.Max[2])}
}
func sSame(a, b Vec) bool { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }
