package tracer

import (
	. "github.com/barnex/bruteray/imagef"
	. "github.com/barnex/bruteray/imagef/colorf"
)

// invGrid: invariants of loops laying out w x h grids in one list.
func invGrid(w, h int) {
	loopinv(func(it int, any_g [][]int, any_l []int) bool {
		return len(any_g) == h && forallInt(0, it, func(j int) bool { return eqx(any_g[j], any_l[j*w:(j+1)*w]) })
	})
	loopinv(func(it int, any_g Image, any_l []Color) bool {
		return len(any_g) == h && forallInt(0, it, func(j int) bool { return eqx(any_g[j], any_l[j*w:(j+1)*w]) })
	})
}

// Quasi-random numbers are in [0,1), see package sequence.
//verif:iface Generate2 nondet
func contract_Generate2(s sSeq) (float64, float64) {
	u, v := s.Generate2()
	ensures("unit square", 0 <= u && u < 1 && 0 <= v && v < 1)
	return u, v
}

type sSeq interface{ Generate2() (float64, float64) }

func sCtxOK(ctx *Ctx) bool {
	return ctx.sequence1 != nil && ctx.sequence2 != nil && ctx.sequence3 != nil && ctx.sequenceL != nil && ctx.AA != nil
}
