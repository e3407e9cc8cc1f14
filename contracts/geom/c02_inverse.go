package geom

// The inverse undoes an invertible transform on points and directions, on both sides.
//verif:target (*geom.AffineTransform).Inverse
//verif:target (*geom.Matrix).Inverse
func C02_inverse(t *AffineTransform, p Vec) {
	requires(sDet(t.A) != 0)
	wellposed(sDet(t.A) > 0.01 || sDet(t.A) < -0.01)
	n := snapshot()
	i := t.Inverse()
	ensures("operand not modified", unchanged(n))
	ensures("point, inverse last", eqx(i.TransformPoint(t.TransformPoint(p)), p))
	ensures("point, inverse first", eqx(t.TransformPoint(i.TransformPoint(p)), p))
	ensures("dir, inverse last", eqx(i.TransformDir(t.TransformDir(p)), p))
	ensures("dir, inverse first", eqx(t.TransformDir(i.TransformDir(p)), p))
	ensures("composition", eqx(t.Before(i).TransformPoint(p), p))
}

// Matrix inverse: m * m^-1 = m^-1 * m = 1 whenever the determinant is non-zero.
//verif:target (*geom.Matrix).Inverse
//verif:target (*geom.Matrix).Mulf
func C02_matrix(m *Matrix) {
	requires(sDet(*m) != 0)
	wellposed(sDet(*m) > 0.01 || sDet(*m) < -0.01)
	i := m.Inverse()
	ensures("right", eqx(m.Mul(&i), Matrix{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}))
	ensures("left", eqx(i.Mul(m), Matrix{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}))
	ensures("determinant", eq(sDet(i)*sDet(*m), 1))
}
