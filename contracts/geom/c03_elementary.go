package geom

import "math"

func sCol(t *AffineTransform, i int) Vec { return t.A[i] }

// sRodrigues rotates v about the unit axis u: v c + (u x v) s + u (u.v)(1-c).
func sRodrigues(u Vec, c, s float64, v Vec) Vec {
	return sAdd(sAdd(sMul(c, v), sMul(s, sCross(u, v))), sMul(sDot(u, v)*(1-c), u))
}

// Rotate is the rigid counterclockwise rotation about the line through origin along axis.
//verif:target geom.Rotate
//verif:target geom.rotationMatrix
//verif:target util.Sin
//verif:target util.Cos
func C03_rotate(origin, axis Vec, angle float64, p, q Vec) {
	requires(sNonzero(axis))
	u := sMul(1/math.Sqrt(sDot(axis, axis)), axis)
	t := Rotate(origin, axis, angle)
	ensures("rodrigues", eqx(t.TransformDir(p), sRodrigues(u, math.Cos(angle), math.Sin(angle), p)))
	ensures("origin fixed", eqx(t.TransformPoint(origin), origin))
	ensures("axis fixed", eqx(t.TransformPoint(sAdd(origin, axis)), sAdd(origin, axis)))
	ensures("about origin", eqx(t.TransformPoint(sAdd(origin, p)), sAdd(origin, sRodrigues(u, math.Cos(angle), math.Sin(angle), p))))
}

// Rotations preserve distances and handedness, for every non-zero axis.
//verif:target geom.rotationMatrix
func C03_rigid(axis Vec, angle float64) {
	requires(sNonzero(axis))
	m := Rotate(O, axis, angle).A
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			d := 0.0
			if i == j {
				d = 1
			}
			ensures("orthonormal", eq(sDot(m[i], m[j]), d))
		}
	}
	ensures("right-handed", eqx(sCross(m[0], m[1]), m[2]))
}

// Yaw, pitch and roll turn about y, x and z.
//verif:target geom.Yaw
//verif:target geom.Pitch
//verif:target geom.Roll
//verif:target geom.YawPitchRoll
func C03_yawPitchRoll(yaw, pitch, roll float64, p Vec) {
	sin, cos := math.Sin, math.Cos
	ensures("yaw", eqx(Yaw(yaw).TransformPoint(p), sRodrigues(Vec{0, 1, 0}, cos(yaw), sin(yaw), p)))
	ensures("pitch", eqx(Pitch(pitch).TransformPoint(p), sRodrigues(Vec{1, 0, 0}, cos(pitch), sin(pitch), p)))
	ensures("roll", eqx(Roll(roll).TransformPoint(p), sRodrigues(Vec{0, 0, 1}, cos(roll), sin(roll), p)))
	ensures("order", eqx(YawPitchRoll(yaw, pitch, roll).TransformPoint(p),
		Yaw(yaw).TransformPoint(Pitch(pitch).TransformPoint(Roll(roll).TransformPoint(p)))))
}

// Quarter turns map axes to axes exactly.
//verif:target util.Sin
//verif:target util.Cos
func C03_quarterTurns() {
	ensures("yaw looks west", eqx(Yaw(90*Deg).TransformDir(Vec{0, 0, -1}), Vec{-1, 0, 0}))
	ensures("yaw looks east", eqx(Yaw(-90*Deg).TransformDir(Vec{0, 0, -1}), Vec{1, 0, 0}))
	ensures("yaw looks south", eqx(Yaw(180*Deg).TransformDir(Vec{0, 0, -1}), Vec{0, 0, 1}))
	ensures("pitch looks up", eqx(Pitch(90*Deg).TransformDir(Vec{0, 0, -1}), Vec{0, 1, 0}))
	ensures("roll tilts", eqx(Roll(90*Deg).TransformDir(Vec{1, 0, 0}), Vec{0, 1, 0}))
}

// Scale multiplies distances from its origin by s; Translate shifts points only.
//verif:target geom.Scale
//verif:target geom.Translate
func C03_scaleTranslate(origin, p, d Vec, s float64) {
	ensures("scale", eqx(Scale(origin, s).TransformPoint(sAdd(origin, d)), sAdd(origin, sMul(s, d))))
	ensures("scale dir", eqx(Scale(origin, s).TransformDir(d), sMul(s, d)))
	ensures("translate", eqx(Translate(d).TransformPoint(p), sAdd(p, d)))
	ensures("translate dir", eqx(Translate(d).TransformDir(p), p))
}

// MapBaseTo maps the coordinate frame to the given points.
//verif:target geom.MapBaseTo
func C03_mapBase(o, x, y, z Vec) {
	t := MapBaseTo(o, x, y, z)
	ensures("o", eqx(t.TransformPoint(Vec{0, 0, 0}), o))
	ensures("x", eqx(t.TransformPoint(Vec{1, 0, 0}), x))
	ensures("y", eqx(t.TransformPoint(Vec{0, 1, 0}), y))
	ensures("z", eqx(t.TransformPoint(Vec{0, 0, 1}), z))
}
