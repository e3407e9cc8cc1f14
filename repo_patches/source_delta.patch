From ee19c708f680109a6bd85b9505ca9078941dbccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 01/14] fix: report no hit when a ray misses all objects of a
 tree leaf

A missed leaf returned a hit record with T=9e99.
---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..9c7c87f 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			front.T = 0
+		}
 		return front
 	}
 
-- 
2.43.0


From 48441dddb983e9016d5cf14dfc8e5bd6a67ab0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 02/14] fix: round tree bounding boxes outwards

Rounding to nearest float32 could shrink the box, so that rays missed
parts of the objects inside.
---
 tracer/objects/tree.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 9c7c87f..f2af35d 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -184,11 +185,22 @@ type boundingBoxf struct {
 	Min, Max [3]float32
 }
 
+// boundingBoxToF converts to float32, rounding outwards
+// so that the result always encloses the original.
 func boundingBoxToF(b BoundingBox) boundingBoxf {
-	return boundingBoxf{
+	f := boundingBoxf{
 		Min: vecf(&b.Min),
 		Max: vecf(&b.Max),
 	}
+	for i := range f.Min {
+		if float64(f.Min[i]) > b.Min[i] {
+			f.Min[i] = math.Nextafter32(f.Min[i], float32(math.Inf(-1)))
+		}
+		if float64(f.Max[i]) < b.Max[i] {
+			f.Max[i] = math.Nextafter32(f.Max[i], float32(math.Inf(1)))
+		}
+	}
+	return f
 }
 
 func (b *boundingBoxf) to64() BoundingBox {
-- 
2.43.0


From 59bb5f0ae113aa2e7e82e9928d3b0296037d6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:06 +0000
Subject: [PATCH 03/14] fix: allow transforming unbounded objects

Transforming the infinite bounds of, e.g., Not(object) yielded NaN and panicked.
---
 tracer/objects/transformed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..763a6d8 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -3,6 +3,7 @@ package objects
 import (
 	"github.com/barnex/bruteray/geom"
 	. "github.com/barnex/bruteray/tracer/types"
+	"github.com/barnex/bruteray/util"
 )
 
 // Transformed returns a transformed instance of the original object.
@@ -63,6 +64,10 @@ func (o *transformed) Inside(p Vec) bool {
 }
 
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	// The hull of unbounded objects (E.g. Not, Backdrop) cannot be transformed: inf-inf = NaN.
+	if util.IsBadVec(orig.Min) || util.IsBadVec(orig.Max) {
+		return infBox
+	}
 	h := orig.hull()
 	for i := range h {
 		h[i] = t.TransformPoint(h[i])
-- 
2.43.0


From d5aeff92882ad663cb0a08eac74e7ad4ebf739d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 04/14] fix: do not cull objects when a ray starts on a face of
 their bounding box

The box is then entered at T=0, which was taken for a miss.
---
 tracer/objects/boundingbox.go | 3 ++-
 tracer/objects/tree.go        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..fd90765 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -138,7 +138,8 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 }
 
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	_, exit := intersectAABB2(s, r)
+	return exit > 0
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f2af35d..9dda3ee 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -261,7 +261,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
-- 
2.43.0


From e0736d4ad3a4846432d4fd648cbe212fa6b5188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:40 +0000
Subject: [PATCH 05/14] fix: map pixels of portrait images inside the unit
 square

---
 sampler/util.go   | 10 +++++++---
 tracer/sampler.go |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/sampler/util.go b/sampler/util.go
index 874bfa1..d8337d9 100644
--- a/sampler/util.go
+++ b/sampler/util.go
@@ -1,6 +1,9 @@
 package sampler
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 // IndexToCam maps a pixel index {ix, iy} inside an image with given width and height
 // onto a u,v coordinate strictly inside the interval [0,1].
@@ -29,8 +32,9 @@ func IndexToCam(w, h int, ix, iy float64) (u, v float64) {
 			w, h, ix, iy))
 	}
 
-	u = linterp(-0.5, 0, W-0.5, 1, ix)
-	v = linterp(-0.5, 0.5+0.5*(H/W), H-0.5, 0.5-0.5*(H/W), iy)
+	M := math.Max(W, H)
+	u = linterp(-0.5, 0.5-0.5*(W/M), W-0.5, 0.5+0.5*(W/M), ix)
+	v = linterp(-0.5, 0.5+0.5*(H/M), H-0.5, 0.5-0.5*(H/M), iy)
 	return u, v
 }
 
diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..2725171 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -247,8 +247,9 @@ func IndexToCam(w, h int, ix, iy float64) (u, v float64) {
 			w, h, ix, iy))
 	}
 
-	u = linterp(-0.5, 0, W-0.5, 1, ix)
-	v = linterp(-0.5, 0.5+0.5*(H/W), H-0.5, 0.5-0.5*(H/W), iy)
+	M := math.Max(W, H)
+	u = linterp(-0.5, 0.5-0.5*(W/M), W-0.5, 0.5+0.5*(W/M), ix)
+	v = linterp(-0.5, 0.5+0.5*(H/M), H-0.5, 0.5-0.5*(H/M), iy)
 	return u, v
 }
 
-- 
2.43.0


From 6d8108ad4e7daf9e469b3e9e9b71e63808b9eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:49 +0000
Subject: [PATCH 06/14] fix: jitter samples within their own pixel for
 non-square images

---
 tracer/sampler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index 2725171..f619a43 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -156,11 +156,11 @@ func (s *Sampler) imageSize() (w, h int) {
 	return s.sum.Size()
 }
 
-// ??
+// PixelSize returns the size of a pixel in u,v coordinates, see IndexToCam.
 func PixelSize(w, h int) float64 {
 	wf, hf := float64(w), float64(h)
-	minf := math.Min(wf, hf)
-	return 1 / minf
+	maxf := math.Max(wf, hf)
+	return 1 / maxf
 }
 
 func makeInt2D(w, h int) [][]int {
-- 
2.43.0


From 4f86cbcb8716afd843671faadb94e948404d1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:33 +0000
Subject: [PATCH 07/14] fix: focus cameras with an aperture at the given
 distance

The focal plane was at focusDist times the focal length instead of at
the documented distance focusDist.
---
 tracer/cameras/projective.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/cameras/projective.go b/tracer/cameras/projective.go
index 453ec86..2475694 100644
--- a/tracer/cameras/projective.go
+++ b/tracer/cameras/projective.go
@@ -78,7 +78,7 @@ func (c *projective) RayFrom(ctx *Ctx, u, v float64) *Ray {
 		c.focalLen,
 	}
 	if c.focusDist != 0 {
-		end = end.Mul(c.focusDist)
+		end = end.Mul(c.focusDist / c.focalLen) // in the plane at distance focusDist
 	}
 	r.Dir = end.Sub(r.Start).Normalized()
 	return r
-- 
2.43.0


From 82e9828c6b27c554a00442836446211502e513db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 08/14] fix: reflect everything beyond the critical angle of a
 varnished material

fresnelReflection returned NaN for total reflection (n < 1).
---
 tracer/materials/reflective.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/materials/reflective.go b/tracer/materials/reflective.go
index 26bb026..7ce4196 100644
--- a/tracer/materials/reflective.go
+++ b/tracer/materials/reflective.go
@@ -63,6 +63,9 @@ func (s *reflectFresnel) Shade(ctx *Ctx, e *Scene, r *Ray, h HitCoords) Color {
 func fresnelReflection(n1, n2, cosθi float64) float64 {
 	n12 := n1 / n2
 	sin2θt := n12 * n12 * (1 - cosθi*cosθi) // sin² of transsion angle, using Snell's law.
+	if sin2θt > 1 {
+		return 1 // total reflection
+	}
 	cosθt := math.Sqrt(1 - sin2θt)
 	Rp := Sqr((n1*cosθi - n2*cosθt) / (n1*cosθi + n2*cosθt))
 	Rs := Sqr((n1*cosθt - n2*cosθi) / (n1*cosθt + n2*cosθi))
-- 
2.43.0


From 5993393eb8096d2ceabf4b368a0f72fc6a18ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 09/14] fix: allow transforming point lights

---
 tracer/lights/pointlight.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tracer/lights/pointlight.go b/tracer/lights/pointlight.go
index ad28b1d..ac3483d 100644
--- a/tracer/lights/pointlight.go
+++ b/tracer/lights/pointlight.go
@@ -1,6 +1,7 @@
 package lights
 
 import (
+	"github.com/barnex/bruteray/tracer/objects"
 	. "github.com/barnex/bruteray/tracer/types"
 )
 
@@ -21,6 +22,15 @@ func (l *point) Object() Object {
 	return l
 }
 
+// Bounds implements objects.Interface, so that a point light can be transformed.
+func (l *point) Bounds() objects.BoundingBox {
+	return objects.BoundingBox{Min: l.pos, Max: l.pos}
+}
+
+func (*point) Inside(Vec) bool {
+	return false
+}
+
 func (*point) Intersect(*Ray) HitRecord {
 	return HitRecord{}
 }
-- 
2.43.0


From 8e1d2ef33e3d79a53e2718d3c7e4abb2a7067288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:37 +0000
Subject: [PATCH 10/14] fix: fog along horizontal rays

---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..45cc979 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // horizontal: entirely inside or outside
+		if rs < 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From 755207893e0f06a300667f273cfab06297697e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 11/14] fix: report failures to write binary PPM images

---
 imagef/ppm/ppm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..79e7671 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -41,11 +41,17 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 		for j := range img[i] {
 			c := img[i][j]
 			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 50eea5e43c56510cd4b0134d850dabd23ba8dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 12/14] fix: normals of iso surfaces whose sides are not 1

---
 tracer/objects/isosurface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..f883e13 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -103,7 +103,7 @@ func (f *isoSurface) partialAtUV(uv Vec2) Vec2 {
 // TODO: precompute and store
 func (f *isoSurface) normalAtUV(uv Vec2) Vec {
 	diff := f.partialAtUV(uv)
-	return Vec{-diff[0], 1, -diff[1]}
+	return Vec{-diff[0] / f.bounds.Max[X], 1, -diff[1] / f.bounds.Max[Z]}
 }
 
 func (o *isoSurface) localUV(p Vec) Vec2 {
-- 
2.43.0


From 345075b96c82415142e7ea8751e5f14d95355061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 13/14] fix: sampling an image texture at infinite coordinates

---
 texture/interpolation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/texture/interpolation.go b/texture/interpolation.go
index 280cc4f..a4f6e46 100644
--- a/texture/interpolation.go
+++ b/texture/interpolation.go
@@ -45,7 +45,7 @@ func (f *bilinear) AtUV(u, v float64) colorf.Color {
 	w := img.Bounds().Dx()
 	h := img.Bounds().Dy()
 
-	if u != u || v != v { //NaN
+	if util.IsBad(u) || util.IsBad(v) { // NaN, Inf
 		return colorf.Color{}
 	}
 
-- 
2.43.0


From 1868caea11649bd9be23116956bdf61e707e8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:50 +0000
Subject: [PATCH 14/14] fix: anti-alias every sample of a pixel at its own
 position

The context's anti-aliasing sequence was not initialised for pixel and pass,
so that all samples of a pixel were taken at the same point. It has bases of
its own, as it must not be correlated with the sequences used for shading.
---
 tracer/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..fa9f45d 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -50,7 +50,7 @@ func NewCtx(numPix int) *Ctx {
 		sequence2: sequence.NewHalton(5, 7, 1, sh),
 		sequence3: sequence.PseudoRandom(),
 		sequenceL: sequence.NewHalton(5, 7, 11, sh),
-		AA:        sequence.NewHalton(2, 3, 1, sh),
+		AA:        sequence.NewHalton(11, 13, 1, sh),
 		rays:      pool{new: func() interface{} { return new(Ray) }},
 	}
 
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0

