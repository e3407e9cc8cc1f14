package geom

// sPath: where a point goes, one transform after the other.
type sPath interface {
	At(k int) Vec
}

// ComposeLR of any number of transforms takes a point where the transforms, applied one after
// the other from the leftmost on, take it.
//verif:target geom.ComposeLR
//verif:target (*geom.AffineTransform).Before
//verif:opt nocontracts
func C01_chain(ts []*AffineTransform, p Vec, path sPath) {
	requires(eqx(path.At(0), p))
	requires(forallInt(0, len(ts), func(k int) bool {
		return ts[k] != nil && eqx(path.At(k+1), ts[k].TransformPoint(path.At(k)))
	}))
	loopinv(func(it int, any_t *AffineTransform) bool { return any_t != nil && eqx(any_t.TransformPoint(p), path.At(it)) })
	t := ComposeLR(ts...)
	ensures("end of the path", eqx(t.TransformPoint(p), path.At(len(ts))))
}

// And directions likewise.
//verif:target geom.ComposeLR
//verif:target (*geom.AffineTransform).Before
//verif:opt nocontracts
func C01_chainDir(ts []*AffineTransform, d Vec, path sPath) {
	requires(eqx(path.At(0), d))
	requires(forallInt(0, len(ts), func(k int) bool {
		return ts[k] != nil && eqx(path.At(k+1), ts[k].TransformDir(path.At(k)))
	}))
	loopinv(func(it int, any_t *AffineTransform) bool { return any_t != nil && eqx(any_t.TransformDir(d), path.At(it)) })
	t := ComposeLR(ts...)
	ensures("end of the path", eqx(t.TransformDir(d), path.At(len(ts))))
}
