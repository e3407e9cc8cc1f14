package objects

import (
	"github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer/types"
)

// Every ray not parallel to a triangle meets its plane in one place, at distance t; it hits
// the triangle there if that is ahead and not outside of the sides, with normal and texture
// coordinates interpolated from the corners.
//verif:target (*tracer/objects.face).Intersect
//verif:target (*tracer/objects.face).Vertex
func C08_hit(p, q, s vertex, l2, l3, t float64, d Vec) {
	l1 := 1 - l2 - l3
	e1, e2 := sSub(q.Pos, p.Pos), sSub(s.Pos, p.Pos)
	n := sCross(e1, e2)
	requires(sDot(n, d) != 0)
	wellposed(sDot(n, d) > 1e-3 || sDot(n, d) < -1e-3)
	at := sAdd(p.Pos, sAdd(sMul(l2, e1), sMul(l3, e2)))
	ray := Ray{Start: sSub(at, sMul(t, d)), Dir: d}
	r := ray
	f := face{&p, &q, &s}
	lemma("some area", func() bool { return n[0] != 0 || n[1] != 0 || n[2] != 0 })
	n2 := sDot(n, n)
	lemma("area", func() bool { return n2 > 0 })
	num := sDot(n, sSub(ray.Start, p.Pos))
	calcReal("distance", -num/sDot(n, d), t)
	na := sCross(sSub(e2, e1), sSub(sAdd(sMul(l2, e1), sMul(l3, e2)), e1))
	nc := sCross(e1, sAdd(sMul(l2, e1), sMul(l3, e2)))
	calcReal("first", sDot(n, na)/n2, l1)
	calcReal("third", sDot(n, nc)/n2, l3)
	wellposed(away(t) && away(l1) && away(l2) && away(l3))
	h := f.Intersect(&r)
	in := t > 0 && l1 >= 0 && l2 >= 0 && l3 >= 0
	ensures("missed", in || h.T == 0)
	ensures("distance", !in || eq(h.T, t))
	ensures("ray unchanged", eqx(r, ray))
	ensures("normal", !in || sSame(h.Normal, sAdd(sMul(l1, p.Normal), sAdd(sMul(l2, q.Normal), sMul(l3, s.Normal)))))
	ensures("u", !in || eq(h.Local[0], l1*p.U+l2*q.U+l3*s.U))
	ensures("v", !in || eq(h.Local[1], l1*p.V+l2*q.V+l3*s.V))
}

func away(x float64) bool { return x > 1e-6 || x < -1e-6 }

func sSame(a, b Vec) bool { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]) }

// sFace is the i-th face of a small mesh.
func sFace(o Interface, i int) *face { return o.(*withMaterial).orig.(*tree).root.leafs[i].(*face) }

// sUnit: n is the unit vector in direction of v.
func sUnit(n, v Vec) bool {
	return sSame(sMul(sqrt(sDot(v, v)), n), v)
}

func sCorner(v *vertex, p Vec, u, w float64) bool {
	return sSame(v.Pos, p) && v.U == u && v.V == w
}

// The normal of a triangle has unit length and the direction of the right-hand rule.
//verif:contract geom.TriangleNormal local
//verif:opt wildresult
func C08_facenormal(a, b, c Vec) Vec {
	n := sCross(sSub(b, a), sSub(c, a))
	res := geom.TriangleNormal(a, b, c)
	l2 := sDot(n, n)
	if l2 == 0 {
		ensures("degenerate", res.IsNaN())
		return res
	}
	ensures("finite", sFin(res[0]) && sFin(res[1]) && sFin(res[2]))
	ensures("direction", sSame(sMul(sqrt(l2), res), n))
	s := 1 / sqrt(l2)
	calcReal("length", l2*s*s, 1)
	ensures("unit", eq(sDot(res, res), 1))
	return res
}

// Normalizing makes unit length, and keeps vectors of unit length.
//verif:contract (*geom.Vec).Normalize local
//verif:opt wildT=Normalize
func C08_normalize(a *Vec) {
	modifies(a)
	old := *a
	a.Normalize()
	l2 := sDot(old, old)
	ensures("unit", l2 == 0 || eq(sDot(*a, *a), 1))
	ensures("kept", l2 != 1 || sSame(*a, old))
}

// A triangle has the given corners, its plane's unit normal by the right-hand rule, and the
// documented texture coordinates.
//verif:target tracer/objects.Triangle
//verif:target tracer/objects.MeshWithUV
//verif:target tracer/objects.mesh
//verif:target tracer/objects.calcNormals
func C08_triangle(m Material, a, b, c Vec) {
	n := sCross(sSub(b, a), sSub(c, a))
	requires(sDot(n, n) > 0)
	wellposed(sDot(n, n) > 1e-3)
	o := Triangle(m, a, b, c)
	f := sFace(o, 0)
	ensures("a", sCorner(f[0], a, 0, 0))
	ensures("b", sCorner(f[1], b, 1, 0))
	ensures("c", sCorner(f[2], c, 0, 1))
	ensures("unit a", eq(sDot(f[0].Normal, f[0].Normal), 1))
	ensures("normal a", sUnit(f[0].Normal, n))
	ensures("normal b", sUnit(f[1].Normal, n))
	ensures("normal c", sUnit(f[2].Normal, n))
	ensures("one face", len(o.(*withMaterial).orig.(*tree).root.leafs) == 1)
}

// A quadrilateral is two triangles that share the diagonal from b to d.
//verif:target tracer/objects.Quadrilateral
func C08_quad(m Material, a, b, c, d Vec) {
	o := Quadrilateral(m, a, b, c, d)
	f, g := sFace(o, 0), sFace(o, 1)
	ensures("a", sCorner(f[0], a, 0, 0))
	ensures("b", sCorner(f[1], b, 1, 0))
	ensures("d", sCorner(f[2], d, 0, 1))
	ensures("c", sCorner(g[0], c, 1, 1))
	ensures("shared", g[1] == f[2] && g[2] == f[1])
	ensures("two faces", len(o.(*withMaterial).orig.(*tree).root.leafs) == 2)
}

// Rectangles have the documented corners.
//verif:target tracer/objects.RectangleWithVertices
func C08_rectangle(m Material, a, b, c Vec) {
	o := RectangleWithVertices(m, a, b, c)
	f, g := sFace(o, 0), sFace(o, 1)
	ensures("o", sCorner(f[0], a, 0, 0))
	ensures("a", sCorner(f[1], b, 1, 0))
	ensures("b", sCorner(f[2], c, 0, 1))
	ensures("automatic", sCorner(g[0], sSub(sAdd(b, c), a), 1, 1))
}

//verif:target tracer/objects.Rectangle
func C08_horizontal(m Material, w, d float64, c Vec) {
	o := Rectangle(m, w, d, c)
	f, g := sFace(o, 0), sFace(o, 1)
	ensures("corner", sCorner(f[0], sAdd(c, Vec{-w / 2, 0, -d / 2}), 0, 0))
	ensures("along depth", sCorner(f[1], sAdd(c, Vec{-w / 2, 0, d / 2}), 1, 0))
	ensures("along width", sCorner(f[2], sAdd(c, Vec{w / 2, 0, -d / 2}), 0, 1))
	ensures("opposite", sCorner(g[0], sAdd(c, Vec{w / 2, 0, d / 2}), 1, 1))
}

// An object with an other material is hit like the original.
//verif:target tracer/objects.WithMaterial
//verif:target (*tracer/objects.withMaterial).Intersect
//verif:target (*tracer/objects.withMaterial).Inside
func C08_material(m Material, o Interface, r *Ray, p Vec) {
	ray := *r
	h0 := o.Intersect(&ray)
	w := WithMaterial(m, o)
	h := w.Intersect(r)
	ensures("distance", samex(h.T, h0.T))
	ensures("normal", samex(h.Normal, h0.Normal))
	ensures("local", samex(h.Local, h0.Local))
	ensures("material", h.Material == m)
	ensures("inside", w.Inside(p) == o.Inside(p))
	ensures("bounds", samex(w.Bounds(), o.Bounds()))
}

// A remapped object is hit like the original, with coordinates by the place that is hit.
//verif:target tracer/objects.Remap
//verif:target (*tracer/objects.remapped).Intersect
//verif:target (*tracer/objects.remapped).Inside
func C08_remap(o Interface, f func(Vec) Vec, r *Ray, p Vec) {
	ray := *r
	h0 := o.Intersect(&ray)
	w := Remap(o, f)
	h := w.Intersect(r)
	ensures("distance", samex(h.T, h0.T))
	ensures("normal", samex(h.Normal, h0.Normal))
	ensures("material", h.Material == h0.Material)
	ensures("local", h0.T == 0 || samex(h.Local, f(sAt(ray, h0.T))))
	ensures("inside", w.Inside(p) == o.Inside(p))
	ensures("bounds", samex(w.Bounds(), o.Bounds()))
}
