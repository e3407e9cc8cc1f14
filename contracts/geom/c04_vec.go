package geom

import "math"

// Componentwise vector arithmetic.
//verif:target (geom.Vec).Add
//verif:target (geom.Vec).Sub
//verif:target (geom.Vec).Mul
//verif:target (geom.Vec).MAdd
//verif:target (geom.Vec).Dot
//verif:target (geom.Vec).Len
//verif:target (geom.Vec).Len2
func C04_arith(a, b Vec, s float64) {
	ensures("add", eqx(a.Add(b), sAdd(a, b)))
	ensures("sub", eqx(a.Sub(b), sSub(a, b)))
	ensures("mul", eqx(a.Mul(s), sMul(s, a)))
	ensures("madd", eqx(a.MAdd(s, b), sAdd(a, sMul(s, b))))
	ensures("dot", eq(a.Dot(b), sDot(a, b)))
	ensures("len2", eq(a.Len2(), sDot(a, a)))
	ensures("len nonneg", a.Len() >= 0)
	ensures("len", eq(a.Len()*a.Len(), sDot(a, a)))
}

// Cross product: orthogonal to both, right-handed, |axb|^2 = |a|^2|b|^2-(a.b)^2.
//verif:target (geom.Vec).Cross
//verif:target geom.TriangleNormal
func C04_cross(a, b, c Vec) {
	x := a.Cross(b)
	ensures("definition", eqx(x, sCross(a, b)))
	ensures("orthogonal a", eq(sDot(x, a), 0))
	ensures("orthogonal b", eq(sDot(x, b), 0))
	ensures("norm", eq(sDot(x, x), sDot(a, a)*sDot(b, b)-sDot(a, b)*sDot(a, b)))
	ensures("anticommutes", eqx(b.Cross(a), sMul(-1, x)))
	ensures("right-handed", eqx(Ex.Cross(Ey), Ez))
	e1, e2 := sSub(b, a), sSub(c, a)
	k := sCross(e1, e2)
	requires(sNonzero(k))
	n := TriangleNormal(a, b, c)
	ensures("triangle normal unit", eq(sDot(n, n), 1))
	ensures("triangle normal e1", eq(sDot(n, e1), 0))
	ensures("triangle normal e2", eq(sDot(n, e2), 0))
	ensures("triangle normal orientation", eqx(n, sMul(1/math.Sqrt(sDot(k, k)), k)))
}

// Normalising keeps the direction and gives unit length; in place or as a copy.
//verif:target (geom.Vec).Normalized
//verif:target (*geom.Vec).Normalize
func C04_normalize(a Vec) {
	requires(sNonzero(a))
	n := a.Normalized()
	ensures("unit", eq(sDot(n, n), 1))
	ensures("parallel", eqx(sMul(math.Sqrt(sDot(a, a)), n), a))
	b := a
	b.Normalize()
	ensures("in place", eqx(b, n))
}

// IsNaN is true exactly when a component is not a number.
//verif:target (geom.Vec).IsNaN
//verif:opt wild=w
func C04_isnan(w Vec) {
	ensures("isnan", w.IsNaN() == (w[0] != w[0] || w[1] != w[1] || w[2] != w[2]))
}
