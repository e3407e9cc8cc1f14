package cameras

import (
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	. "github.com/barnex/bruteray/tracer/types"
)

// A pinhole camera: straight lines through the origin, the image spans the field of view.
//verif:target tracer/cameras.Projective
//verif:target tracer/cameras.ProjectiveAperture
//verif:target tracer/cameras.fovToFocalLen
//verif:target (*tracer/cameras.projective).RayFrom
//verif:target (*tracer/cameras.WithTransform).RayFrom
func C19_pinhole(fov, u, v float64) {
	requires(0 < fov && fov < math.Pi)
	ctx := tracer.NewCtx(1)
	t := math.Tan(fov / 2)
	requires(t > 0)
	r := Projective(fov).RayFrom(ctx, u, v)
	ensures("from the origin", sEq(r.Start, Vec{}))
	ensures("unit direction", eq(sDot(r.Dir, r.Dir), 1))
	ensures("forward", r.Dir[2] < 0)
	ensures("right", eq(r.Dir[0], -r.Dir[2]*2*t*(u-0.5)))
	ensures("up", eq(r.Dir[1], -r.Dir[2]*2*t*(v-0.5)))
}

// With an aperture, all rays of a pixel start within the lens and meet at the focus distance.
//verif:target tracer/cameras.ProjectiveAperture
//verif:target (*tracer/cameras.projective).RayFrom
func C19_aperture(fov, aperture, focus, u, v float64) {
	requires(0 < fov && fov < math.Pi && aperture > 0 && focus > 0)
	wellposed(fov > 0.1 && fov < 2.5 && focus > 0.1 && aperture < 10)
	ctx := tracer.NewCtx(1)
	t := math.Tan(fov / 2)
	requires(t > 0)
	r := ProjectiveAperture(fov, aperture, focus).RayFrom(ctx, u, v)
	ensures("in the lens plane", eq(r.Start[2], 0))
	ensures("within the lens", le(r.Start[0]*r.Start[0]+r.Start[1]*r.Start[1], aperture*aperture))
	p := Vec{focus * 2 * t * (u - 0.5), focus * 2 * t * (v - 0.5), -focus}
	d := Vec{p[0] - r.Start[0], p[1] - r.Start[1], p[2] - r.Start[2]}
	ensures("through the focus point", sEq(sCross(r.Dir, d), Vec{}))
	ensures("forward", r.Dir[2] < 0)
	ensures("unit direction", eq(sDot(r.Dir, r.Dir), 1))
}

// Isometric cameras: parallel rays along the negative axis, sizes conserved.
//verif:target tracer/cameras.Isometric
//verif:target (*tracer/cameras.isometric).RayFrom
func C19_isometricZ(size, u, v float64) {
	ctx := tracer.NewCtx(1)
	r := Isometric(Z, size).RayFrom(ctx, u, v)
	ensures("direction", sEq(r.Dir, Vec{0, 0, -1}))
	ensures("start", eq(r.Start[0], (u-0.5)*size) && eq(r.Start[1], (v-0.5)*size))
	ensures("from afar", r.Start[2] >= 1000)
}

//verif:target tracer/cameras.Isometric
func C19_isometricX(size, u, v float64) {
	ctx := tracer.NewCtx(1)
	r := Isometric(X, size).RayFrom(ctx, u, v)
	ensures("direction", sEq(r.Dir, Vec{-1, 0, 0}))
	ensures("start", eq(r.Start[2], -(u-0.5)*size) && eq(r.Start[1], (v-0.5)*size))
	ensures("from afar", r.Start[0] >= 1000)
}

//verif:target tracer/cameras.Isometric
func C19_isometricY(size, u, v float64) {
	ctx := tracer.NewCtx(1)
	r := Isometric(Y, size).RayFrom(ctx, u, v)
	ensures("direction", sEq(r.Dir, Vec{0, -1, 0}))
	ensures("start", eq(r.Start[0], (u-0.5)*size) && eq(r.Start[2], -(v-0.5)*size))
	ensures("from afar", r.Start[1] >= 1000)
}

// The environment map looks in all directions: longitude by u, latitude by v.
//verif:target tracer/cameras.EnvironmentMap
//verif:target (tracer/cameras.envMap).RayFrom
func C19_environment(u, v float64) {
	ctx := tracer.NewCtx(1)
	r := EnvironmentMap().RayFrom(ctx, u, v)
	th, ph := (v-0.5)*math.Pi, (u-0.5)*2*math.Pi
	ensures("from the origin", sEq(r.Start, Vec{}))
	ensures("unit direction", eq(sDot(r.Dir, r.Dir), 1))
	ensures("latitude", eq(r.Dir[1], math.Sin(th)))
	ensures("longitude x", eq(r.Dir[0], math.Sin(ph)*math.Cos(th)))
	ensures("longitude z", eq(r.Dir[2], -math.Cos(ph)*math.Cos(th)))
}

// Moving a camera shifts its rays and leaves their directions.
//verif:target (*tracer/cameras.WithTransform).Translate
//verif:target (*tracer/cameras.WithTransform).RayFrom
//verif:target tracer/cameras.Transform
//verif:target tracer/cameras.translate
func C19_translate(start, dir Vec, m geom.Matrix, pos, d Vec, u, v float64) {
	ctx := tracer.NewCtx(1)
	c := &probeCam{start, dir}
	a := Transform(c, m, pos)
	r := *a.RayFrom(ctx, u, v)
	q := a.Translate(d).RayFrom(ctx, u, v)
	ensures("moved", sEq(q.Start, sAdd(r.Start, d)))
	ensures("same direction", sEq(q.Dir, r.Dir))
	s := a.RayFrom(ctx, u, v)
	ensures("original not affected", sEq(s.Start, r.Start) && sEq(s.Dir, r.Dir))
}

// Turning a camera rotates about its own position.
//verif:target (*tracer/cameras.WithTransform).YawPitchRoll
//verif:target tracer/cameras.yawPitchRoll
func C19_turn(start, dir Vec, m geom.Matrix, pos Vec, yaw, pitch, roll float64, u, v float64) {
	ctx := tracer.NewCtx(1)
	c := &probeCam{start, dir}
	a := Transform(c, m, pos)
	r := *a.RayFrom(ctx, u, v)
	rot := geom.YawPitchRoll(yaw, pitch, roll).A
	q := a.YawPitchRoll(yaw, pitch, roll).RayFrom(ctx, u, v)
	rel := Vec{r.Start[0] - pos[0], r.Start[1] - pos[1], r.Start[2] - pos[2]}
	ensures("turned direction", sEq(q.Dir, rot.MulVec(r.Dir)))
	ensures("turned about its position", sEq(q.Start, sAdd(rot.MulVec(rel), pos)))
	s := a.RayFrom(ctx, u, v)
	ensures("original not affected", sEq(s.Start, r.Start) && sEq(s.Dir, r.Dir))
}

type probeCam struct{ start, dir Vec }

func (c *probeCam) RayFrom(ctx *Ctx, u, v float64) *Ray {
	r := ctx.Ray()
	r.Start = Vec{c.start[0] + u, c.start[1] - u*v, c.start[2] + v}
	r.Dir = Vec{c.dir[0] + u, c.dir[1] + u, c.dir[2] + v}
	return r
}
