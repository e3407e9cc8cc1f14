package texture

import (
	"math"

	. "github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	. "github.com/barnex/bruteray/imagef/colorf"
)

// sRect: an image of w by h pixels, at least one.
func sRect(img imagef.Image, w, h int) bool {
	return w >= 1 && h >= 1 && len(img) == h && forallInt(0, h, func(k int) bool { return len(img[k]) == w })
}

// Interpolated images show a colour everywhere, whatever the coordinates.
//verif:target (*texture.bilinear).AtUV
//verif:target (*texture.bilinear).At
//verif:target texture.warp
//verif:target util.Frac
//verif:opt wild=u,v
func C27_anywhere(img imagef.Image, w, h int, u, v float64) {
	requires(sRect(img, w, h))
	n := snapshot()
	(&bilinear{img}).At(Vec{u, v, 0})
	ensures("image not modified", unchanged(n))
}

// Coordinates wrap: they count from zero up to one and start over.
//verif:target texture.warp
func C27_warp(x float64, k int) {
	y := warp(x)
	ensures("from zero", 0 <= y)
	ensures("below one", y < 1)
	ensures("whole steps", eq(x-y, math.Floor(x)))
}

// Between pixels colours are interpolated: the four pixels around the point, weighted by nearness.
//verif:target (*texture.bilinear).AtUV
//verif:target texture.bilin
//verif:target texture.atIndex
func C27_between(img imagef.Image, i, j int, u, v float64) {
	requires(len(img) >= 2 && forallInt(0, len(img), func(k int) bool { return len(img[k]) == len(img[0]) }))
	w, h := img.Bounds().Dx(), img.Bounds().Dy()
	requires(w >= 2)
	requires(0 <= u && u < 1 && 0 <= v && v < 1)
	X, Y := u*float64(w-1), v*float64(h-1)
	requires(0 <= i && 0 <= j && float64(i) <= X && X < float64(i+1) && float64(j) <= Y && Y < float64(j+1))
	lemma("column", func() bool { return 0 <= X && X < float64(w-1) && i+1 < w })
	lemma("row", func() bool { return 0 <= Y && Y < float64(h-1) && j+1 < h })
	calcReal("no wrap u", warp(u), u)
	calcReal("no wrap v", warp(v), v)
	calcInt("column", int(X), i)
	calcInt("row", int(Y), j)
	calcReal("floor column", math.Floor(X), float64(i))
	calcReal("floor row", math.Floor(Y), float64(j))
	c := (&bilinear{img}).AtUV(u, v)
	x, y := X-float64(i), Y-float64(j)
	mix := func(a, b, c, d float64) float64 {
		return (1-y)*((1-x)*a+x*b) + y*((1-x)*c+x*d)
	}
	p00, p10, p01, p11 := img[j][i], img[j][i+1], img[j+1][i], img[j+1][i+1]
	ensures("R", eq(c.R, mix(p00.R, p10.R, p01.R, p11.R)))
	ensures("G", eq(c.G, mix(p00.G, p10.G, p01.G, p11.G)))
	ensures("B", eq(c.B, mix(p00.B, p10.B, p01.B, p11.B)))
}

// The nearest pixel is shown.
//verif:target (*texture.nearest).AtUV
//verif:target texture.Nearest
func C27_nearest(img imagef.Image, w, h int, u, v float64) {
	requires(sRect(img, w, h) && 0 <= u && u <= 1 && 0 <= v && v <= 1)
	lemma("inside", func() bool { return u*float64(w-1) <= float64(w-1) && v*float64(h-1) <= float64(h-1) })
	c := Nearest(img).At(Vec{u, v, 0})
	ensures("within half a pixel", existsInt(0, w, func(i int) bool {
		return existsInt(0, h, func(j int) bool {
			return math.Abs(float64(i)-u*float64(w-1)) <= 0.5 && math.Abs(float64(j)-v*float64(h-1)) <= 0.5 && eqx(c, img[j][i])
		})
	}))
}

// Panned and scaled textures look the same, elsewhere.
//verif:target texture.Pan
//verif:target texture.ScaleUV
//verif:target (*texture.panned).AtUV
//verif:target (*texture.panned).At
func C27_pan(t Texture, du, dv float64, p Vec) {
	requires(du != 0 && dv != 0)
	lemma("inverse", func() bool { return eq(p[0]*du*(1/du), p[0]) && eq(p[1]*dv*(1/dv), p[1]) })
	ensures("panned", eqx(Pan(t, du, dv).At(Vec{p[0] + du, p[1] + dv, p[2]}), t.At(Vec{p[0], p[1], 0})))
	ensures("scaled", eqx(ScaleUV(t, du, dv).At(Vec{p[0] * du, p[1] * dv, p[2]}), t.At(Vec{p[0], p[1], 0})))
}

// Checkers: two fields of each kind per pitch, alternating in both directions.
//verif:target texture.Checkers
//verif:target texture.floor
func C27_checkers(a, b Texture, nu, nv float64, i, j int, x, y float64) {
	requires(nu > 0 && nv > 0 && 0 < x && x < 1 && 0 < y && y < 1)
	u, v := (float64(i)+x)/(2*nu), (float64(j)+y)/(2*nv)
	lemma("field u", func() bool { return eq(u*(nu*2), float64(i)+x) })
	lemma("field v", func() bool { return eq(v*(nv*2), float64(j)+y) })
	c := Checkers(nu, nv, a, b).At(Vec{u, v, 3})
	even := (i+j)&1 == 0
	if even {
		ensures("even", eqx(c, a.At(Vec{u, v, 0})))
	} else {
		ensures("odd", eqx(c, b.At(Vec{u, v, 0})))
	}
}

// Grid lines of the given half width at every whole multiple of the pitch.
//verif:target texture.Grid
//verif:target (texture.Func2D).At
func C27_grid(a, b Texture, width, nu, nv float64, i, j int, x, y float64) {
	requires(width > 0 && nu > 0 && nv > 0 && 0 <= x && x < 1 && 0 <= y && y < 1)
	u, v := (float64(i)+x)/nu, (float64(j)+y)/nv
	lemma("field u", func() bool { return eq(u*nu, float64(i)+x) })
	lemma("field v", func() bool { return eq(v*nv, float64(j)+y) })
	c := Grid(width, nu, nv, a, b).At(Vec{u, v, 3})
	wellposed(!near(x, width*nu) && !near(1-x, width*nu) && !near(y, width*nv) && !near(1-y, width*nv) && x < 1-1e-6 && y < 1-1e-6)
	line := x < width*nu || 1-x < width*nu || y < width*nv || 1-y < width*nv
	if line {
		ensures("line", eqx(c, b.At(Vec{u, v, 0})))
	} else {
		ensures("field", eqx(c, a.At(Vec{u, v, 0})))
	}
}

// Functions serve as textures.
//verif:target (texture.Func2D).AtUV
//verif:target (texture.Func2D).At
//verif:target (texture.Func).At
func C27_func(f func(u, v float64) Color, g func(p Vec) Color, p Vec) {
	ensures("2D", eqx(Func2D(f).At(p), f(p[0], p[1])))
	ensures("2D uv", eqx(Func2D(f).AtUV(p[0], p[1]), f(p[0], p[1])))
	ensures("3D", eqx(Func(g).At(p), g(p)))
}

// A fisheye image: straight up is at the center, angles from there are distances
// (the horizon at one half), in the direction they are seen.
//verif:target texture.MapFisheye
//verif:target (*texture.mapped).At
//verif:target (geom.Vec).Normalized
func C27_fisheye(d sDir) {
	dir := d.v
	x, y, z := dir[0], dir[1], dir[2]
	requires(eq(x*x+y*y+z*z, 1) && x*x+z*z > 0)
	calcReal("length", dir.Dot(dir), 1)
	p := &probe{}
	MapFisheye(p).At(dir)
	a, b := p.p[0]-0.5, p.p[1]-0.5
	r := math.Sqrt(x*x + z*z)
	ensures("parallel", eq(a*z, b*x))
	ensures("distance", eq(a*a+b*b, math.Asin(r)/math.Pi*math.Asin(r)/math.Pi))
	ensures("not behind", 0 <= a*x+b*z)
}

type sDir struct{ v Vec } // a unit vector

type probe struct{ p Vec }

func (t *probe) At(p Vec) Color { t.p = p; return Color{} }

func near(a, b float64) bool { return math.Abs(a-b) < 1e-6 }
