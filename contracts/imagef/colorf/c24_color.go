package colorf

import "math"

func sStd(c float64) float64 { return 1.055*math.Pow(c, 1./2.4) - 0.055 }

// Displayed brightness is always within range.
//
//verif:target imagef/colorf.LinearToSRGB
//verif:target imagef/colorf.clip
//verif:opt wild=c
func C24_range(c float64) {
	requires(c == c)
	t := math.Pow(0.0031308, 1./2.4)
	lemma("jump", func() bool { return 1.055*t-0.05 > 12.92*0.0031308 })
	s := LinearToSRGB(c)
	ensures("not negative", s >= 0)
	ensures("at most one", s <= 1)
	ensures("black", !(c <= 0) || s == 0)
	ensures("white", !(c >= 1) || s == 1)
}

// Dark colours are in proportion.
//
//verif:target imagef/colorf.LinearToSRGB
func C24_dark(c float64) {
	requires(0 <= c && c <= 0.0031308)
	ensures("slope", eq(LinearToSRGB(c), 12.92*c))
}

// Other colours follow the standard curve, up to an offset of 0.005.
//
//verif:target imagef/colorf.LinearToSRGB
func C24_curve(c float64) {
	requires(0.0031308 < c && c <= 1)
	s := LinearToSRGB(c)
	p := math.Pow(c, 1./2.4)
	ensures("not below", s >= 1.055*p-0.055-1e-9 || s >= 1)
	ensures("close above", s <= 1.055*p-0.055+0.0051)
}

// The curve is that of the standard.
//
//verif:target imagef/colorf.LinearToSRGB
func C24_standard(c float64) {
	requires(0.0031308 < c && c < 1)
	ensures("as in the standard", math.Abs(LinearToSRGB(c)-sStd(c)) < 1e-9)
}

// More light is never displayed darker.
//
//verif:target imagef/colorf.LinearToSRGB
func C24_monotone(a, b float64) {
	requires(a <= b)
	t := math.Pow(0.0031308, 1./2.4)
	lemma("jump", func() bool { return 1.055*t-0.05 > 12.92*0.0031308 })
	ensures("not darker", LinearToSRGB(a) <= LinearToSRGB(b))
}

// Of colours within range and above the steps of an image, more light is displayed brighter.
//
//verif:target imagef/colorf.LinearToSRGB
func C24_strict(a, b float64) {
	requires(0 <= a && a < b && b <= 0.9)
	t := math.Pow(0.0031308, 1./2.4)
	u := math.Pow(0.9, 1./2.4)
	lemma("jump", func() bool { return 1.055*t-0.05 > 12.92*0.0031308 })
	lemma("below one", func() bool { return 1.055*u-0.05 < 1 })
	ensures("brighter", LinearToSRGB(a) < LinearToSRGB(b))
}

// Image files are linearised by the standard curve, which keeps the range.
//
//verif:target imagef/colorf.SRGBToLinear
func C24_linear(s float64) {
	requires(0 <= s && s <= 1)
	c := SRGBToLinear(s)
	one := math.Pow(1+1e-12, 2.4)
	lemma("one", func() bool { return one < 1+1e-9 })
	ensures("dark", !(s <= 0.04045) || eq(c, s/12.92))
	ensures("curve", !(s > 0.04045) || eq(c, math.Pow((s+0.055)/1.055, 2.4)))
	ensures("not negative", c >= 0)
	ensures("at most one", c <= 1+1e-9)
	ensures("black", !(s == 0) || c == 0)
	ensures("white", !(s == 1) || math.Abs(c-1) < 1e-9)
}

// Linearisation keeps the order of brightness.
//
//verif:target imagef/colorf.SRGBToLinear
func C24_linearMonotone(a, b float64) {
	requires(0 <= a && a < b && b <= 1)
	t := math.Pow((0.04045+0.055)/1.055, 2.4)
	lemma("junction", func() bool { return math.Abs(t-0.04045/12.92) < 1e-6 })
	wellposed(b-a > 1e-3)
	requires(b <= 0.04045 || a > 0.04045 || b > 0.0405)
	x := math.Pow((0.0405+0.055)/1.055, 2.4)
	lemma("past junction", func() bool { return x > 0.04045/12.92 })
	ensures("brighter", SRGBToLinear(a) < SRGBToLinear(b))
}

// The 16-bit value of a colour is its displayed brightness in steps of 1/65535, opaque.
//
//verif:target (imagef/colorf.Color).RGBA
//verif:target imagef/colorf.LinearToSRGB
func C24_rgba(col Color) {
	t := math.Pow(0.0031308, 1./2.4)
	lemma("jump", func() bool { return 1.055*t-0.05 > 12.92*0.0031308 })
	r, g, b, a := col.RGBA()
	ensures("opaque", a == 0xffff)
	sr, sg, sb := LinearToSRGB(col.R)*0xffff, LinearToSRGB(col.G)*0xffff, LinearToSRGB(col.B)*0xffff
	ensures("in range", 0 <= r && r <= 0xffff && 0 <= g && g <= 0xffff && 0 <= b && b <= 0xffff)
	ensures("R", float64(r) <= sr && sr < float64(r)+1)
	ensures("G", float64(g) <= sg && sg < float64(g)+1)
	ensures("B", float64(b) <= sb && sb < float64(b)+1)
}

// Light adds up, and is filtered, by component.
//
//verif:target (imagef/colorf.Color).Mul
//verif:target (imagef/colorf.Color).Mul3
//verif:target (imagef/colorf.Color).Add
//verif:target (imagef/colorf.Color).MAdd
//verif:target (imagef/colorf.Color).Gray
//verif:target (*imagef/colorf.Color).Max
//verif:target imagef/colorf.Gray
func C24_algebra(a, b Color, s float64) {
	ensures("sum", eqx(a.Add(b), Color{a.R + b.R, a.G + b.G, a.B + b.B}))
	ensures("product", eqx(a.Mul3(b), Color{a.R * b.R, a.G * b.G, a.B * b.B}))
	ensures("scaled", eqx(a.Mul(s), Color{s * a.R, s * a.G, s * a.B}))
	ensures("scaled sum", eqx(a.MAdd(s, b), Color{a.R + s*b.R, a.G + s*b.G, a.B + s*b.B}))
	ensures("mean", eq(a.Gray(), (a.R+a.G+a.B)/3))
	ensures("grey", eqx(Gray(s), Color{s, s, s}))
	m := a.Max()
	ensures("largest", m >= a.R && m >= a.G && m >= a.B)
	ensures("one of them", m == a.R || m == a.G || m == a.B)
}

// A stop of exposure doubles the light.
//
//verif:target (imagef/colorf.Color).EV
//verif:target imagef/colorf.EV
func C24_exposure(c Color, ev float64) {
	wellposed(math.Abs(ev) < 20)
	k := math.Pow(2, ev)
	got := c.EV(ev)
	ensures("by component", eqx(got, Color{k * c.R, k * c.G, k * c.B}))
	ensures("one stop", eqx(c.EV(1), Color{2 * c.R, 2 * c.G, 2 * c.B}))
	ensures("no change", eqx(c.EV(0), c))
}

// A colour is not a number when one of its components is not; being a texture, it is the
// same everywhere.
//
//verif:target (imagef/colorf.Color).IsNaN
//verif:target (imagef/colorf.Color).At
//verif:target (imagef/colorf.Color).AtUV
//verif:opt wild=c
func C24_nan(c Color, p [3]float64, u, v float64) {
	ensures("one is not", c.IsNaN() == (math.IsNaN(c.R) || math.IsNaN(c.G) || math.IsNaN(c.B)))
	ensures("constant", samex(c.At(p), c) && samex(c.AtUV(u, v), c))
}
