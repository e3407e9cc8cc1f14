package tracer

import (
	. "github.com/barnex/bruteray/geom"
)

func invShifts() {
	loopinv(func(it int, any_l []Vec2) bool {
		return forallInt(0, it, func(j int) bool {
			return 0 <= any_l[j][0] && any_l[j][0] < 1 && 0 <= any_l[j][1] && any_l[j][1] < 1
		})
	})
	loopinv(func(any_f, any_r float64) bool { return 0 < any_f && 0 <= any_r && any_r+any_f <= 1 })
	loopinv(func(any_i int) bool { return any_i >= 0 })
}

// At every recursion depth, a context provides numbers in the unit square.
//verif:target tracer.NewCtx
//verif:target tracer.randomShifts
//verif:target (*tracer.Ctx).Init
//verif:target (*tracer.Ctx).Generate2
//verif:target (*tracer.Ctx).GenerateLens
func C18_context(numPix, pixel, pass, depth int) {
	requires(0 <= pixel && pixel < numPix && pass >= 0 && depth >= 1)
	invShifts()
	ctx := NewCtx(numPix)
	ctx.Init(pixel, pass)
	ctx.CurrentRecursionDepth = depth
	u, v := ctx.Generate2()
	ensures("unit square", 0 <= u && u < 1 && 0 <= v && v < 1)
	u, v = ctx.GenerateLens()
	ensures("lens: unit square", 0 <= u && u < 1 && 0 <= v && v < 1)
	u, v = ctx.AA.Generate2()
	ensures("anti-aliasing: unit square", 0 <= u && u < 1 && 0 <= v && v < 1)
}

// Quasi-random numbers are reproducible: they only depend on the pixel and pass that the
// context was last initialised for, not on what was generated before.
//verif:target (*tracer.Ctx).Init
//verif:target (*tracer.Ctx).Generate2
//verif:opt pure=tracer/sequence.Halton
func C18_reproducible(numPix, pixel, pass, pixel2, pass2, depth int) {
	requires(0 <= pixel && pixel < numPix && pass >= 0 && 1 <= depth && depth <= 2)
	requires(0 <= pixel2 && pixel2 < numPix && pass2 >= 0)
	invShifts()
	ctx := NewCtx(numPix)
	ctx.CurrentRecursionDepth = depth
	ctx.Init(pixel, pass)
	u, v := ctx.Generate2()
	ctx.Init(pixel2, pass2)
	ctx.Generate2()
	ctx.Init(pixel, pass)
	u2, v2 := ctx.Generate2()
	ensures("same numbers", same(u, u2) && same(v, v2))
	u, v = ctx.AA.Generate2()
	ctx.Init(pixel2, pass2)
	ctx.AA.Generate2()
	ctx.Init(pixel, pass)
	u2, v2 = ctx.AA.Generate2()
	ensures("same jitter", same(u, u2) && same(v, v2))
}

// Successive passes use different numbers.
//verif:target (*tracer.Ctx).Init
//verif:opt unroll=4
func C18_passes(depth int) {
	requires(1 <= depth && depth <= 2)
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = depth
	ctx.Init(0, 0)
	u, v := ctx.Generate2()
	ctx.Init(0, 1)
	u2, v2 := ctx.Generate2()
	ensures("numbers change", u != u2 && v != v2)
}

// So does anti-aliasing.
//verif:target (*tracer.Ctx).Init
//verif:opt unroll=4
func C18_antialias() {
	ctx := NewCtx(1)
	ctx.Init(0, 0)
	u, v := ctx.AA.Generate2()
	ctx.Init(0, 1)
	u2, v2 := ctx.AA.Generate2()
	ensures("jitter changes", u != u2 && v != v2)
}
