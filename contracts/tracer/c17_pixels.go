package tracer

import (
	"math"

	. "github.com/barnex/bruteray/imagef/colorf"
)

// sMax is the larger side of the image.
func sMax(w, h int) float64 {
	if w > h {
		return float64(w)
	}
	return float64(h)
}

// Pixels are squares of the same size, side by side, in an image centered in the unit
// square which it fills horizontally or vertically; v points up.
//verif:target tracer.IndexToCam
//verif:target tracer.linterp
//verif:target tracer.PixelSize
func C17_mapping(w, h int, ix, iy float64) {
	requires(w > 0 && h > 0)
	W, H := float64(w), float64(h)
	requires(-0.5 <= ix && ix <= W-0.5 && -0.5 <= iy && iy <= H-0.5)
	u, v := IndexToCam(w, h, ix, iy)
	ensures("u inside", le(0, u) && le(u, 1))
	ensures("v inside", le(0, v) && le(v, 1))
	ensures("u", eq((u-0.5)*sMax(w, h), ix+0.5-W/2))
	ensures("v", eq((v-0.5)*sMax(w, h), H/2-iy-0.5))
	ensures("pixel size", eq(PixelSize(w, h)*sMax(w, h), 1))
}

// The image fills the unit square in its longer direction.
//verif:target tracer.IndexToCam
func C17_fills(w, h int) {
	requires(w > 0 && h > 0)
	W, H := float64(w), float64(h)
	u0, v0 := IndexToCam(w, h, -0.5, -0.5)
	u1, v1 := IndexToCam(w, h, W-0.5, H-0.5)
	ensures("centered", eq(u0+u1, 1) && eq(v0+v1, 1))
	ensures("horizontally", w < h || eq(u0, 0) && eq(u1, 1))
	ensures("vertically", h < w || eq(v0, 1) && eq(v1, 0))
	ensures("upright", u0 < u1 && v1 < v0)
}

// Neighbouring pixels are one pixel size apart.
//verif:target tracer.IndexToCam
//verif:target tracer.PixelSize
func C17_pitch(w, h int, ix, iy float64) {
	requires(w > 1 && h > 1)
	requires(0 <= ix && ix <= float64(w-2) && 0 <= iy && iy <= float64(h-2))
	u, v := IndexToCam(w, h, ix, iy)
	u1, v1 := IndexToCam(w, h, ix+1, iy+1)
	ensures("horizontally", eq(u1-u, PixelSize(w, h)))
	ensures("vertically", eq(v-v1, PixelSize(w, h)))
}

// Every sample of a pixel lies within that pixel; without anti-aliasing, at its center.
//verif:target (*tracer.Sampler).samplePixel
func C17_sample(w, h, ix, iy int, antiAlias bool, ctx *Ctx) {
	requires(w > 0 && h > 0 && 0 <= ix && ix < w && 0 <= iy && iy < h)
	requires(sCtxOK(ctx))
	invGrid(w, h)
	var u, v float64
	n := 0
	s := NewSampler(func(_ *Ctx, x, y float64) (c Color) { u, v = x, y; n++; return }, w, h, antiAlias)
	s.samplePixel(ctx, ix, iy, 1)
	ensures("sampled", n == 1)
	cu, cv := IndexToCam(w, h, float64(ix), float64(iy))
	d := PixelSize(w, h) / 2
	ensures("within pixel horizontally", le(math.Abs(u-cu), d))
	ensures("within pixel vertically", le(math.Abs(v-cv), d))
	ensures("at the center", antiAlias || eq(u, cu) && eq(v, cv))
}
