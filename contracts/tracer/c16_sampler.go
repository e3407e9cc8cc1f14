package tracer

import (
	"math"

	. "github.com/barnex/bruteray/imagef/colorf"
)

// invSum: after k passes, k samples have been added to the pixel.
func invSum(s *Sampler, ix, iy int, c Color) {
	n0, s0, q0 := s.n[iy][ix], s.sum[iy][ix], s.sumSq[iy][ix]
	loopinv(func(it int) bool { return s.n[iy][ix] == n0+it })
	loopinv(func(it int) bool { return eqx(s.sum[iy][ix], s0.Add(c.Mul(float64(it)))) })
	loopinv(func(it int) bool {
		k := float64(it)
		return eqx(s.sumSq[iy][ix], Color{q0.R + k*c.R*c.R, q0.G + k*c.G*c.G, q0.B + k*c.B*c.B})
	})
}

// Sampling a pixel adds each sample to that pixel.
//verif:target (*tracer.Sampler).samplePixel
func C16_pixel(w, h, ix, iy, passes int, antiAlias bool, c Color, ctx *Ctx) {
	requires(w > 0 && h > 0 && 0 <= ix && ix < w && 0 <= iy && iy < h && passes >= 0 && sCtxOK(ctx))
	invGrid(w, h)
	s := NewSampler(func(*Ctx, float64, float64) Color { return c }, w, h, antiAlias)
	invSum(s, ix, iy, c)
	s.samplePixel(ctx, ix, iy, passes)
	ensures("all passes counted", s.n[iy][ix] == passes)
	ensures("sum", eqx(s.sum[iy][ix], c.Mul(float64(passes))))
	k := float64(passes)
	ensures("sum of squares", eqx(s.sumSq[iy][ix], Color{k * c.R * c.R, k * c.G * c.G, k * c.B * c.B}))
}

// Other pixels are not touched.
//verif:target (*tracer.Sampler).samplePixel
func C16_others(w, h, ix, iy, jx, jy, passes int, antiAlias bool, f ImageFunc, ctx *Ctx) {
	requires(w > 0 && h > 0 && 0 <= ix && ix < w && 0 <= iy && iy < h && passes >= 0 && sCtxOK(ctx))
	requires(0 <= jx && jx < w && 0 <= jy && jy < h && (jx != ix || jy != iy))
	invGrid(w, h)
	s := NewSampler(f, w, h, antiAlias)
	s.n[jy][jx] = 7
	s.sum[jy][jx] = Color{1, 2, 3}
	s.sumSq[jy][jx] = Color{4, 5, 6}
	loopinv(func(it int) bool { return s.n[jy][jx] == 7 })
	loopinv(func(it int) bool { return eqx(s.sum[jy][jx], Color{1, 2, 3}) })
	loopinv(func(it int) bool { return eqx(s.sumSq[jy][jx], Color{4, 5, 6}) })
	s.samplePixel(ctx, ix, iy, passes)
	ensures("count", s.n[jy][jx] == 7)
	ensures("sum", eqx(s.sum[jy][jx], Color{1, 2, 3}))
	ensures("sum of squares", eqx(s.sumSq[jy][jx], Color{4, 5, 6}))
}

// The image is the mean of the samples and the standard deviation that of the samples.
//verif:target (*tracer.Sampler).imagef
//verif:target (*tracer.Sampler).variancef
func C16_stats(a, b, c Color) {
	s := NewSampler(nil, 1, 1, false)
	s.n[0][0] = 3
	s.sum[0][0] = a.Add(b).Add(c)
	s.sumSq[0][0] = a.Mul3(a).Add(b.Mul3(b)).Add(c.Mul3(c))
	m := s.imagef(0, 0)
	ensures("mean", eq(m.R, (a.R+b.R+c.R)/3) && eq(m.G, (a.G+b.G+c.G)/3) && eq(m.B, (a.B+b.B+c.B)/3))
	v := s.variancef(0, 0)
	ensures("variance R", eq(v.R, (sq(a.R-m.R)+sq(b.R-m.R)+sq(c.R-m.R))/2))
	ensures("variance G", eq(v.G, (sq(a.G-m.G)+sq(b.G-m.G)+sq(c.G-m.G))/2))
	ensures("variance B", eq(v.B, (sq(a.B-m.B)+sq(b.B-m.B)+sq(c.B-m.B))/2))
}

func sq(x float64) float64 { return x * x }

// The image value is the sum divided by the number of samples, however many.
//verif:target (*tracer.Sampler).imagef
//verif:target (*tracer.Sampler).variancef
//verif:target (*tracer.Sampler).stddevf
func C16_mean(sum, sumSq Color, n int) {
	requires(n > 1)
	s := NewSampler(nil, 1, 1, false)
	s.n[0][0] = n
	s.sum[0][0] = sum
	s.sumSq[0][0] = sumSq
	m := s.imagef(0, 0)
	N := float64(n)
	ensures("mean", eq(m.R*N, sum.R) && eq(m.G*N, sum.G) && eq(m.B*N, sum.B))
	v := s.variancef(0, 0)
	ensures("variance R", eq(v.R*(N-1), sumSq.R-N*m.R*m.R))
	ensures("variance G", eq(v.G*(N-1), sumSq.G-N*m.G*m.G))
	ensures("variance B", eq(v.B*(N-1), sumSq.B-N*m.B*m.B))
	requires(v.R >= 0 && v.G >= 0 && v.B >= 0)
	d := s.stddevf(0, 0)
	ensures("deviation not negative", d.R >= 0 && d.G >= 0 && d.B >= 0)
	ensures("deviation", eq(d.R*d.R, v.R) && eq(d.G*d.G, v.G) && eq(d.B*d.B, v.B))
}

// Samples that are not a number do not spoil the pixel.
//verif:target (*tracer.Sampler).samplePixel
func C16_nan(ix, iy int, c Color, ctx *Ctx) {
	requires(0 <= ix && ix < 2 && 0 <= iy && iy < 3 && sCtxOK(ctx))
	nan := math.NaN()
	bad := []Color{{nan, 0, 0}, {0, nan, 0}, {0, 0, nan}, {nan, nan, nan}}
	k := 0
	s := NewSampler(func(*Ctx, float64, float64) Color {
		if k < 4 {
			k++
			return bad[k-1]
		}
		return c
	}, 2, 3, false)
	s.samplePixel(ctx, ix, iy, 5)
	ensures("only good samples added", eqx(s.sum[iy][ix], c))
}

// A tile's pixels are all sampled, and no others.
//verif:target (*tracer.Sampler).sampleTile
func C16_tile(w, h int, t tile, px, py int, c Color, ctx *Ctx) {
	requires(w > 0 && h > 0 && sCtxOK(ctx))
	requires(0 <= t.x0 && t.x0 <= t.x1 && t.x1 <= w && 0 <= t.y0 && t.y0 <= t.y1 && t.y1 <= h)
	requires(0 <= px && px < w && 0 <= py && py < h)
	invGrid(w, h)
	s := NewSampler(func(*Ctx, float64, float64) Color { return c }, w, h, false)
	loopinv(func(a int) bool { return s.n[py][px] == ind(t.x0 <= px && px < t.x1 && t.y0 <= py && py < a) })
	loopinv(func(a int, any_b int) bool {
		return s.n[py][px] == ind(t.x0 <= px && px < t.x1 && t.y0 <= py && py < any_b || py == any_b && t.x0 <= px && px < a)
	})
	loopinv(func(a int) bool { return s.n[py][px] == ind(t.y0 <= py && py < t.y1 && t.x0 <= px && px < a) })
	loopinv(func(a int, any_b int) bool {
		return s.n[py][px] == ind(t.y0 <= py && py < t.y1 && t.x0 <= px && px < any_b || px == any_b && t.y0 <= py && py < a)
	})
	s.sampleTile(ctx, t, 1)
	ensures("sampled once if inside", s.n[py][px] == ind(t.x0 <= px && px < t.x1 && t.y0 <= py && py < t.y1))
}

func ind(c bool) int {
	if c {
		return 1
	}
	return 0
}
