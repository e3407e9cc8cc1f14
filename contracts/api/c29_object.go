package api

import (
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer/objects"
)

// What is plain of an object: no transform to be merged with another.
type sPlain struct{ objects.Interface }

// The anchors of an object are the middles of its box and of the box's sides.
//verif:target (api.Object).Center
//verif:target (api.Object).CenterBack
//verif:target (api.Object).CenterFront
//verif:target (api.Object).CenterTop
//verif:target (api.Object).CenterBottom
//verif:target (tracer/objects.BoundingBox).Center
func C29_anchors(o Object) {
	requires(o.Interface != nil)
	requires(sFinite(o))
	b, m := o.Interface.Bounds(), sMiddle(o)
	ensures("center", sSame(o.Center(), m))
	ensures("back", sSame(o.CenterBack(), Vec{m[0], m[1], b.Min[2]}))
	ensures("front", sSame(o.CenterFront(), Vec{m[0], m[1], b.Max[2]}))
	ensures("top", sSame(o.CenterTop(), Vec{m[0], b.Max[1], m[2]}))
	ensures("bottom", sSame(o.CenterBottom(), Vec{m[0], b.Min[1], m[2]}))
}

// Moving an object moves its contents and its box.
//verif:target (api.Object).Translate
func C29_translate(o Object, d, p Vec) {
	requires(o.Interface != nil)
	o.Interface = sPlain{o.Interface}
	requires(sFinite(o))
	b := o.Interface.Bounds()
	requires(b.Min[0] <= b.Max[0] && b.Min[1] <= b.Max[1] && b.Min[2] <= b.Max[2])
	t := o.Translate(d)
	ensures("contents", t.Interface.Inside(sAdd(p, d)) == o.Interface.Inside(p))
	tb := t.Bounds()
	ensures("lower", sSame(tb.Min, sAdd(b.Min, d)))
	ensures("upper", sSame(tb.Max, sAdd(b.Max, d)))
}

// Objects are put where they are asked to be.
//verif:target (api.Object).WithCenter
//verif:target (api.Object).WithCenterBottom
func C29_placed(o Object, pos Vec) {
	requires(o.Interface != nil)
	o.Interface = sPlain{o.Interface}
	requires(sFinite(o))
	b := o.Interface.Bounds()
	requires(b.Min[0] <= b.Max[0] && b.Min[1] <= b.Max[1] && b.Min[2] <= b.Max[2])
	ensures("center", sSame(sMiddle(o.WithCenter(pos)), pos))
	t := o.WithCenterBottom(pos)
	m := sMiddle(t)
	ensures("bottom", sSame(Vec{m[0], t.Interface.Bounds().Min[1], m[2]}, pos))
}

// Objects are scaled about their center, or the point asked for.
//verif:target (api.Object).Scale
//verif:target (api.Object).ScaleAt
//verif:target (api.Object).ScaleToSize
func C29_scale(o Object, c, p Vec, s float64) {
	requires(o.Interface != nil)
	o.Interface = sPlain{o.Interface}
	requires(sFinite(o) && s > 0)
	wellposed(s > 1e-2)
	b := o.Interface.Bounds()
	requires(b.Min[0] < b.Max[0] && b.Min[1] <= b.Max[1] && b.Min[2] <= b.Max[2])
	m := sMiddle(o)
	ensures("about a point", o.ScaleAt(c, s).Interface.Inside(sAdd(c, sMul(s, sSub(p, c)))) == o.Interface.Inside(p))
	ensures("about its center", o.Scale(s).Interface.Inside(sAdd(m, sMul(s, sSub(p, m)))) == o.Interface.Inside(p))
	t := o.ScaleToSize(s)
	tb := t.Interface.Bounds()
	ensures("size", eq(tb.Max[0]-tb.Min[0], s))
	ensures("in place", sSame(sMiddle(t), m))
}

// Objects are rotated about their center, or the point asked for.
//verif:target (api.Object).Rotate
//verif:target (api.Object).RotateAt
//verif:target (api.Object).Transform
func C29_rotate(o Object, c, axis, p Vec, angle float64) {
	requires(o.Interface != nil)
	o.Interface = sPlain{o.Interface}
	requires(sFinite(o))
	requires(axis[0] != 0 || axis[1] != 0 || axis[2] != 0)
	m := sMiddle(o)
	a := objects.Transformed(o.Interface, geom.Rotate(c, axis, angle))
	ensures("about a point", o.RotateAt(c, axis, angle).Interface.Inside(p) == a.Inside(p))
	z := objects.Transformed(o.Interface, geom.Rotate(m, axis, angle))
	ensures("about its center", o.Rotate(axis, angle).Interface.Inside(p) == z.Inside(p))
}

// Objects are combined as sets.
//verif:target (api.Object).And
//verif:target (api.Object).Or
//verif:target (api.Object).AndNot
//verif:target (api.Object).Remove
//verif:target (api.Object).Restrict
//verif:target api.Difference
func C29_combine(a, b Object, p Vec) {
	requires(a.Interface != nil && b.Interface != nil)
	x, y := a.Interface.Inside(p), b.Interface.Inside(p)
	ensures("and", a.And(b).Interface.Inside(p) == (x && y))
	ensures("or", a.Or(b).Interface.Inside(p) == (x || y))
	ensures("and not", a.AndNot(b).Interface.Inside(p) == (x && !y))
	ensures("remove", a.Remove(b).Interface.Inside(p) == (x && !y))
	ensures("restrict", a.Restrict(b).Interface.Inside(p) == (x && y))
	ensures("difference", Difference(a, b).Interface.Inside(p) == (x && !y))
}
