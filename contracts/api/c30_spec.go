package api

import (
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
)


// What is set explicitly is kept, the rest gets its default value.
//verif:target (*api.Spec).InitDefaults
func C30_defaults(s *Spec, p Vec) {
	requires(s != nil && s.Width >= 0 && s.Height >= 0 && s.Width < 1<<20 && s.Height < 1<<20)
	requires(s.DebugNormals == 0 && s.DebugIsometricFOV == 0)
	w, h, rec, pass, cam, lights, objs, media := s.Width, s.Height, s.Recursion, s.NumPass, s.Camera, s.Lights, s.Objects, s.Media
	s.InitDefaults()
	ensures("width", (w == 0 || s.Width == w))
	ensures("height", (h == 0 || s.Height == h))
	ensures("recursion", (rec == 0 || s.Recursion == rec) && s.Recursion != 0)
	ensures("passes", (pass == 0 || s.NumPass == pass) && s.NumPass != 0)
	ensures("camera", s.Camera != nil && (cam == nil || s.Camera == cam))
	ensures("lights", len(s.Lights) == len(lights) && forallInt(0, len(lights), func(i int) bool { return s.Lights[i] == lights[i] }))
	ensures("objects", len(s.Objects) == len(objs) && forallInt(0, len(objs), func(i int) bool { return s.Objects[i] == objs[i] }))
	ensures("media", len(s.Media) == len(media))
	// One of the sides defines the other.
	ensures("both", (!(w == 0 && h == 0) || s.Width == 960 && s.Height == 540))
	ensures("from height", (!(w == 0 && h != 0) || 9*s.Width <= 16*h && 16*h < 9*s.Width+9))
	ensures("from width", (!(h == 0 && w != 0) || 16*s.Height <= 9*w && 9*w < 16*s.Height+16))
}

// Showing normals replaces the objects by as many others, in a copy of the specification.
//verif:target (*api.Spec).applyMaterial
//verif:target (*api.View).ApplyTo
func C30_normals(v *View, s Spec, k int) {
	requires(v != nil && 0 <= k && k < len(s.Objects) && s.Camera != nil)
	requires(v.Width > 0 && v.Height > 0)
	requires(forallInt(0, len(s.Objects), func(i int) bool { return s.Objects[i].Interface != nil }))
	_, moved := s.Camera.(*cameras.WithTransform)
	requires(!moved && 0 <= v.DebugIsometricDir && v.DebugIsometricDir < 3)
	objs, n, o, m := s.Objects, len(s.Objects), s.Objects[k], len(s.Media)
	loopinv(func(it int, any_s *Spec) bool { return len(any_s.Objects) == it })
	t := v.ApplyTo(s)
	ensures("size", t.Width == v.Width && t.Height == v.Height)
	ensures("as many", len(t.Objects) == n)
	ensures("light sources", len(t.Lights) == len(s.Lights))
	ensures("objects kept", v.DebugNormals == 1 || v.DebugNormals == 2 || t.Objects[k] == o)
	ensures("media kept", v.DebugNormals == 1 || v.DebugNormals == 2 || len(t.Media) == m)
	ensures("recursion", t.Recursion == s.Recursion || s.Recursion == 0 && t.Recursion == 1 || v.DebugNormals == 2 && t.Recursion == 20)
	ensures("original unmodified", len(s.Objects) == n && s.Objects[k] == o && objs[k] == o)
}

// A view turns the camera, then moves it.
//verif:target (*api.View).ApplyTo
func C30_view(v *View, s Spec, c *tracer.Ctx, x, y float64) {
	requires(v != nil && s.Camera != nil && !v.DebugIsometric && v.DebugNormals == 0)
	requires(v.Width > 0 && v.Height > 0)
	_, moved := s.Camera.(*cameras.WithTransform)
	requires(!moved)
	q := s.Camera.RayFrom(c, x, y)
	requires(q != nil)
	r := *q
	t := v.ApplyTo(s)
	a := geom.YawPitchRoll(v.CamYaw, v.CamPitch, 0).A
	want, dir := a.MulVec(r.Start), a.MulVec(r.Dir)
	got := t.Camera.RayFrom(c, x, y)
	ensures("position", sSame(got.Start, sAdd(want, v.CamPos)))
	ensures("direction", sSame(got.Dir, dir))
}
