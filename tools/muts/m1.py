mut("m01", "C12", "tracer/scene.go", "	objAndLights := make([]Object, len(objs), len(objs)+len(lights))\n	copy(objMinusLights, objs)\n	copy(objAndLights, objs)\n", "	copy(objMinusLights, objs)\n	objAndLights := objMinusLights\n")
mut("m02", "C12", "tracer/scene.go", "hit.T <= front.T {", "hit.T <= front.T && hit.T < 1e5 {")
mut("m03", "C13", "tracer/scene.go", "				orig = trans.Filter(r, f, orig)\n", "				return trans.Filter(r, f, orig)\n")
mut("m04", "C13", "tracer/scene.go", "f.T > 0 && f.T < len {", "f.T > Tiny && f.T < len {" )
mut("m05", "C14", "tracer/scene.go", "	if s.RecursionDepth == ctx.CurrentRecursionDepth {\n		return Color{} // reached", "	if s.RecursionDepth+1 == ctx.CurrentRecursionDepth {\n		return Color{} // reached")
mut("m06", "C14", "tracer/scene.go", "	for _, m := range s.media {\n		brightness", "	ctx.CurrentRecursionDepth--\n	if len(s.media) == 0 {\n		return brightness\n	}\n	ctx.CurrentRecursionDepth++\n	for _, m := range s.media[:1] {\n		brightness")
mut("m07", "C15", "tracer/ctx.go", "	*r = Ray{}\n", "	r.Start = geom.Vec{}\n")
mut("m08", "C15", "tracer/materials/refractive.go", "	defer ctx.PutRay(r2)\n	cT", "	ctx.PutRay(r2)\n	cT")
mut("m09", "C16", "tracer/sampler.go", "		if !c.IsNaN() {", "		if !(c.IsNaN() || c.Gray() > 1e6) {")
mut("m10", "C16", "tracer/sampler.go", "		img[i] = list[i*w : (i+1)*w]", "		img[i] = list[i*(w-1) : i*(w-1)+w]")
mut("m11", "C17", "tracer/sampler.go", "	v = linterp(-0.5, 0.5+0.5*(H/M), H-0.5, 0.5-0.5*(H/M), iy)", "	v = linterp(0, 0.5+0.5*(H/M), H-0.5, 0.5-0.5*(H/M), iy)")
mut("m12", "C18", "tracer/sequence/halton.go", "i = int(math.Floor(float64(i) / bf))", "i = int(math.Floor(float64(i)*(1/bf) + 0.5*f))")
mut("m13", "C18", "tracer/sequence/mappings.go", "	if math.Abs(t[2]) < min {\n		i = 2\n	}\n", "")
mut("m14", "C19", "tracer/cameras/withtransform.go", "			matrix: rotate.Mul(&c.matrix),", "			matrix: c.matrix.Mul(&rotate),")
mut("m15", "C19", "tracer/cameras/projective.go", "end = end.Mul(c.focusDist / c.focalLen)", "end = end.Normalized().Mul(c.focusDist)")
mut("m16", "C20", "tracer/materials/refractive.go", "	n1, n2 := s.n1, s.n2\n	if i.Dot(n) > 0 {\n		n = n.Mul(-1)\n		n1, n2 = n2, n1", "	n1, n2 := s.n1, s.n2\n	if i.Dot(n) > 0 {\n		n = n.Mul(-1)\n		n1, n2 = n2, 1")
mut("m17", "C20", "tracer/materials/reflective.go", "	Rp := Sqr((n1*cosθi - n2*cosθt) / (n1*cosθi + n2*cosθt))", "	Rp := Sqr((n1*cosθi - n2*cosθt) / (n1*cosθi + n1*cosθt))")
mut("m18", "C21", "tracer/materials/matte.go", "	p := r.At(h.T).MAdd(Tiny, normal)", "	p := r.At(h.T).MAdd(Tiny, h.Normal)")
mut("m19", "C21", "tracer/materials/blend.go", "	return ca.Mul(key1).MAdd(key2, cb)", "	return ca.Mul(key1).MAdd(key1, cb)")
mut("m20", "C22", "tracer/lights/planar.go", "	return Vec{(0.5 * x) * l.w, Tiny, (0.5 * y) * l.h}.Add(l.center)", "	return Vec{(0.5 * x) * l.w, Tiny, (0.5 * y) * l.w}.Add(l.center)")
mut("m21", "C22", "tracer/lights/transformed.go", "		object: objects.Transformed(l.Object().(objects.Interface), t),", "		object: objects.Transformed(l.Object().(objects.Interface), t.Inverse()),")
mut("m22", "C23", "tracer/media/expfog.go", "	ten = -rs / rd\n	tex = -r.Dir[1] / 0", "	ten = -rs / rd\n	tex = rs / 0")
mut("m23", "C23", "tracer/media/fog.go", "	trans := math.Exp(-len * m.density)", "	trans := math.Exp(-tMax * m.density)")
mut("m24", "C24", "imagef/ppm/ppm.go", "fmt.Fprintln(w, img.Bounds().Dx(), img.Bounds().Dy())", "fmt.Fprintln(w, img.Bounds().Dx(), img.Bounds().Dx())")
mut("m25", "C24", "imagef/colorf/color.go", "	if v > 1 {\n		v = 1\n	}\n	return v", "	if v > 1 && v < 1e6 {\n		v = 1\n	}\n	return v")
mut("m26", "C25", "imagef/image.go", "	cpy := MakeImage(w, h)\n", "	cpy := MakeImage(w, h)\n	if w == 1 {\n		copy(cpy, i)\n		return cpy\n	}\n")
mut("m27", "C27", "texture/interpolation.go", "		y1 = 0\n	}\n	x :=", "		y1 = y0\n	}\n	x :=")
mut("m28", "C27", "texture/texture2d.go", "	return &panned{t, 1 / scaleU, 1 / scaleV, 0, 0}", "	return &panned{t, 1 / scaleU, 1 / scaleU, 0, 0}")
mut("m29", "C28", "tracer/objects/isosurface.go", "-diff[1] / f.bounds.Max[Z]}", "-diff[1] / f.bounds.Max[X]}")
mut("m30", "C11", "tracer/objects/tree.go", "	if t1 > 0 { //&& !(t1 > front.T+0*Tiny) {", "	if t1 > 0 && !(t0 > 0 && front.T < t0) && t1 < front.T*2 {")
mut("m31", "C11", "tracer/objects/tree.go", "	right := ch[N/2:]", "	right := ch[N/2+N%2:]")
mut("m32", "C08", "tracer/objects/mesh.go", "	if l1 < 0 || l2 < 0 || l3 < 0 {", "	if l1 < 0 || l2 < -1e-2 || l3 < 0 {")
mut("m33", "C08", "tracer/objects/mesh.go", "[]Vec2{{0, 0}, {1, 0}, {1, 1}, {0, 1}}", "[]Vec2{{0, 0}, {0, 1}, {1, 1}, {1, 0}}")
mut("m34", "C05", "tracer/objects/bounded.go", "	if !b.bounds.inside(p) {\n		return false\n	}\n", "")
mut("m35", "C06", "tracer/objects/transformed.go", "	for i := range h {\n		h[i] = t", "	for i := range h[1:] {\n		h[i] = t")
mut("m36", "C10", "tracer/objects/csg.go", "func (o *restrict) Inside(p Vec) bool {\n	return o.orig.Inside(p) && o.inside.Inside(p)", "func (o *restrict) Inside(p Vec) bool {\n	return o.orig.Inside(p)")
mut("m37", "C07", "tracer/objects/quadric.go", "	bMin[dir] = -height / 2\n", "	bMin[dir] = -height\n")
mut("m38", "C09", "tracer/objects/box.go", "/ 2", "/ 2")
