package geom

// A transform maps points by y = A x + b and directions by y = A x,
// A having the images of the unit axes as columns.
//verif:target (*geom.AffineTransform).TransformPoint
//verif:target (*geom.AffineTransform).TransformDir
//verif:target (*geom.Matrix).MulVec
func C01_apply(t *AffineTransform, p Vec) {
	ensures("point", eqx(t.TransformPoint(p), sAdd(sApply(t.A, p), t.B)))
	ensures("dir", eqx(t.TransformDir(p), sApply(t.A, p)))
}

// Points and directions are mapped consistently: the image of a difference of
// points is the difference of the images.
//verif:target (*geom.AffineTransform).TransformPoint
//verif:target (*geom.AffineTransform).TransformDir
func C01_affine(t *AffineTransform, p, q Vec, s float64) {
	ensures("difference", eqx(t.TransformDir(sSub(p, q)), sSub(t.TransformPoint(p), t.TransformPoint(q))))
	ensures("segment", eqx(t.TransformPoint(sAdd(p, sMul(s, q))), sAdd(t.TransformPoint(p), sMul(s, t.TransformDir(q)))))
}

// Matrix product is composition of linear maps: (m*b) v = ... b applied last.
//verif:target (*geom.Matrix).Mul
//verif:target (*geom.Matrix).MulVec
//verif:target (*geom.Matrix).Mulf
func C01_matmul(m, b *Matrix, v Vec, f float64) {
	c := m.Mul(b)
	ensures("mul", eqx(c.MulVec(v), m.MulVec(b.MulVec(v))))
	d := m.Mulf(f)
	ensures("mulf", eqx(d.MulVec(v), sMul(f, m.MulVec(v))))
}

// t.Before(s) applies t first, then s; t.After(s) the other way round.
//verif:target (*geom.AffineTransform).Before
//verif:target (*geom.AffineTransform).After
func C01_before_after(t, s *AffineTransform, p Vec) {
	n := snapshot()
	b := t.Before(s)
	a := t.After(s)
	ensures("operands not modified", unchanged(n))
	ensures("before point", eqx(b.TransformPoint(p), s.TransformPoint(t.TransformPoint(p))))
	ensures("before dir", eqx(b.TransformDir(p), s.TransformDir(t.TransformDir(p))))
	ensures("after point", eqx(a.TransformPoint(p), t.TransformPoint(s.TransformPoint(p))))
	ensures("after dir", eqx(a.TransformDir(p), t.TransformDir(s.TransformDir(p))))
}

// ComposeLR of nothing is the identity (see C01_chain for any number of transforms).
//verif:target geom.ComposeLR
//verif:target geom.UnitTransform
//verif:target geom.UnitMatrix
func C01_unit(p Vec) {
	ensures("empty", eqx(ComposeLR().TransformPoint(p), p))
	ensures("unit", eqx(UnitTransform().TransformPoint(p), p))
	ensures("unit dir", eqx(UnitTransform().TransformDir(p), p))
	m := UnitMatrix()
	ensures("unit matrix", eqx(m.MulVec(p), p))
}

// WithOrigin moves the fixed point: the map about o does to o+d what the original
// map about the coordinate origin does to d.
//verif:target (*geom.AffineTransform).WithOrigin
//verif:target geom.Translate
func C01_withOrigin(t *AffineTransform, o, d Vec) {
	n := snapshot()
	w := t.WithOrigin(o)
	ensures("operand not modified", unchanged(n))
	ensures("about o", eqx(w.TransformPoint(sAdd(o, d)), sAdd(o, t.TransformPoint(d))))
	ensures("dir", eqx(w.TransformDir(d), t.TransformDir(d)))
	ensures("translate point", eqx(Translate(o).TransformPoint(d), sAdd(d, o)))
	ensures("translate dir", eqx(Translate(o).TransformDir(d), d))
}
