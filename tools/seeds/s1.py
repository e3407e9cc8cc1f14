OBJ = '''package objects

import (
	"math"
	"testing"

	"github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer/types"
)

var _ = math.Pi
var _ = geom.Translate

func TestZZDemo(t *testing.T) {
	near := func(a, b float64) bool { return math.Abs(a-b) < 1e-6 }
	_ = near
%s
}
'''
GEOM = '''package geom

import (
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	near := func(a, b Vec) bool { return a.Sub(b).Len() < 1e-6 }
	_, _ = near, math.Pi
%s
}
'''
seed("C01-compose-order", "C01", [("geom/affinetransform.go", "		comp = comp.Before(t)\n", "		if t.B == O && t.A[0] == Ex {\n			// rotation about X: leaves the offset along X alone\n			comp = &AffineTransform{A: t.A.Mul(&comp.A), B: Vec{comp.B[0], t.A[1].Dot(comp.B), t.A[2].Dot(comp.B)}}\n			continue\n		}\n		comp = comp.Before(t)\n")], "geom", GEOM % '''
	a := ComposeLR(Translate(Vec{6, 2, 3}), Yaw(0.3), Translate(Vec{1, 1, 1}), Pitch(0.2))
	x := Vec{3, 4, 5}
	want := Pitch(0.2).TransformPoint(Translate(Vec{1, 1, 1}).TransformPoint(Yaw(0.3).TransformPoint(x.Add(Vec{6, 2, 3}))))
	if got := a.TransformPoint(x); !(got.Sub(want).Len() < 1e-6) {
		t.Fatal(got, want)
	}
''', "a list with a translation before a rotation about the X axis", "the composed transform differs from applying the parts in sequence")
seed("C02-inverse-cofactor", "C02", [("geom/matrix.go", "	det := a*A + b*B + c*C\n", "	det := a*A + b*B + g*C\n")], "geom", GEOM % '''
	m := AffineTransform{A: Matrix{{1, 0, 0.5}, {0, 1, 0}, {2, 0.25, 3}}, B: Vec{1, 2, 3}}
	x := Vec{3, 4, 5}
	if got := m.Inverse().TransformPoint(m.TransformPoint(x)); !near(got, x) {
		t.Fatal(got, x)
	}
''', "a transform whose matrix is not symmetric in its corner entries, and not a rotation", "the inverse no longer undoes the transform")
seed("C03-rotate-unnormalised", "C03", [("geom/affinetransform.go", "	axis.Normalize()\n	ux", "	if axis.Len2() > 1 {\n		axis.Normalize()\n	}\n	ux")], "geom", GEOM % '''
	got := Rotate(O, Vec{0, 0.5, 0}, math.Pi/2).TransformPoint(Ez)
	if !near(got, Rotate(O, Ey, math.Pi/2).TransformPoint(Ez)) {
		t.Fatal(got)
	}
''', "a rotation axis shorter than one", "rotation is not rigid for short axes")
seed("C05-transformed-chain", "C05", [("tracer/objects/transformed.go", "		return Transformed(object.orig, object.forward.Before(t))\n", "		return Transformed(object.orig, t.Before(&object.forward))\n")], "tracer/objects", OBJ % '''
	s := Sphere(nil, 1, Vec{})
	a, b := geom.Translate(Vec{5, 0, 0}), geom.Rotate(Vec{}, geom.Ez, math.Pi/2)
	o := Transformed(Transformed(s, a), b)
	if !o.Inside(Vec{0, 5, 0}) {
		t.Fatal("wrong place")
	}
''', "two nested transforms that do not commute", "a chain of transforms is applied in the wrong order")
seed("C07-selfhit-bias", "C07", [("tracer/objects/quadric.go", "	if t1 > 0 {\n", "	if t1 > Tiny {\n")], "tracer/objects", OBJ % '''
	s := Sphere(nil, 2, Vec{})
	h := s.Intersect(&Ray{Start: Vec{-1.0000000005, 0, 0}, Dir: Vec{1, 0, 0}})
	if !near(h.T, 0) {
		t.Fatal(h)
	}
''', "a ray starting within 1e-9 in front of the surface", "the nearest hit is skipped and the far side reported")
seed("C06-or-bounds", "C06", [("tracer/objects/csg.go", "			util.Min(a.Min[0], b.Min[0]),\n			util.Min(a.Min[1], b.Min[1]),\n			util.Min(a.Min[2], b.Min[2]),\n		},\n		Max: Vec{\n			util.Max(a.Max[0], b.Max[0]),\n			util.Max(a.Max[1], b.Max[1]),\n			util.Max(a.Max[2], b.Max[2]),", "			util.Min(a.Min[0], b.Min[0]),\n			util.Min(a.Min[1], b.Min[1]),\n			util.Min(a.Min[2], b.Min[2]),\n		},\n		Max: Vec{\n			util.Max(a.Max[0], b.Max[0]),\n			util.Max(a.Max[1], b.Max[1]),\n			util.Max(a.Max[2], b.Max[1]),")], "tracer/objects", OBJ % '''
	o := Or(Sphere(nil, 1, Vec{0, 0, 0}), Sphere(nil, 1, Vec{0, 0, 5}))
	if b := o.Bounds(); b.Max[2] < 5.5 {
		t.Fatal(b)
	}
''', "a union whose second part sticks out most along Z", "the bounds of the union cut off part of it")
seed("C10-march-offset", "C10", [("tracer/objects/csg.go", "		if b.Inside(r.At(h.T)) {\n			h.T += tOff\n			setStart(r, backup)\n			return h\n		}\n		deltaT := h.T + Tiny\n		tOff += deltaT\n", "		if b.Inside(r.At(h.T)) {\n			h.T += tOff\n			setStart(r, backup)\n			return h\n		}\n		deltaT := h.T + Tiny\n		tOff = deltaT\n")], "tracer/objects", OBJ % '''
	two := Or(Sphere(nil, 1, Vec{0, 0, 0}), Sphere(nil, 1, Vec{3, 0, 0}))
	o := Restrict(two, Box(nil, 2, 2, 2, Vec{3, 0, 0}))
	h := o.Intersect(&Ray{Start: Vec{-5, 0, 0}, Dir: Vec{1, 0, 0}})
	if !near(h.T, 7.5) {
		t.Fatal(h)
	}
''', "at least two skipped hits before the reported one", "the hit distance of an intersection forgets earlier steps")

seed("C09-inside-start", "C09", [("tracer/objects/boundingbox.go", "	if ten < 0 {\n		return tex\n	}\n	return ten\n}\n\nfunc (s *BoundingBox) intersects", "	if ten < 0 {\n		return util.Min(tex, 1e3)\n	}\n	return ten\n}\n\nfunc (s *BoundingBox) intersects")], "tracer/objects", OBJ % """
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	b := Box(nil, 4000, 4000, 4000, Vec{})
	h := b.Intersect(&Ray{Start: Vec{0, 0, 0}, Dir: Vec{1, 0, 0}})
	if !near(h.T, 2000) {
		t.Fatal(h)
	}
""", "a ray starting inside a large box", "the hit does not lie on the box")
