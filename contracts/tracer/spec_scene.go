package tracer

import (
	"math"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
)

// What the scene may assume of its parts, and what it must respect when it uses them.

// Objects may report any number at all.
//verif:iface Intersect wildT
func contract_Intersect(o Object, r *Ray) HitRecord {
	h := o.Intersect(r)
	ensures("has material", !(h.T > 0) || h.Material != nil)
	return h
}

// Materials and media are only evaluated at an admissible recursion depth.
//verif:iface Shade
func contract_Shade(m Material, ctx *Ctx, s *Scene, r *Ray, h HitCoords) Color {
	requires(1 <= ctx.CurrentRecursionDepth && ctx.CurrentRecursionDepth <= s.RecursionDepth)
	return m.Shade(ctx, s, r, h)
}

// Lights are visible as some object.
//verif:iface Object
func contract_Object(l Light) Object {
	o := l.Object()
	ensures("not nil", o != nil)
	return o
}

//verif:iface Filter
func contract_Filter(m Medium, ctx *Ctx, s *Scene, r *Ray, tMax float64, original Color) Color {
	requires(1 <= ctx.CurrentRecursionDepth)
	return m.Filter(ctx, s, r, tMax, original)
}

// Cameras provide a ray.
//verif:iface RayFrom
func contract_RayFrom(c Camera, ctx *Ctx, u, v float64) *Ray {
	r := c.RayFrom(ctx, u, v)
	ensures("not nil", r != nil)
	return r
}

func sUnit(v Vec) Vec {
	l := math.Sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2])
	return Vec{v[0] / l, v[1] / l, v[2] / l}
}

func sFiniteV(v Vec) bool { return sFin(v[0]) && sFin(v[1]) && sFin(v[2]) }
func sFin(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func sGoodNormal(v Vec) bool {
	return sFiniteV(v) && (v[0] != 0 || v[1] != 0 || v[2] != 0)
}

// sFirst: i is the only frontmost hit of the ray among the objects.
func sFirst(objs []Object, r *Ray, i int) bool {
	t := objs[i].Intersect(r).T
	return t > 0 && forallInt(0, len(objs), func(j int) bool {
		tj := objs[j].Intersect(r).T
		return j == i || !(tj > 0) || tj > t
	})
}

// sNone: the ray misses all objects.
func sNone(objs []Object, r *Ray) bool {
	return forallInt(0, len(objs), func(j int) bool { return !(objs[j].Intersect(r).T > 0) })
}

// sLit are all visible objects: those of the scene and those of its lights.
func sLit(lights []Light, objs []Object, j int) Object {
	if j < len(objs) {
		return objs[j]
	}
	return lights[j-len(objs)].Object()
}

// invScene: while lists of objects are extended by those of the lights.
func invScene(lights []Light, objs []Object) {
	loopinv(func(it int, l []Object) bool {
		return len(l) == len(objs)+it && forallInt(0, len(l), func(j int) bool {
			return l[j] == sLit(lights, objs, j)
		})
	})
	loopinv(func(it int, l []Object) bool {
		return len(l) == len(objs)+it && forallInt(0, len(objs), func(j int) bool {
			return l[j] == objs[j]
		})
	})
	loopinv(func(it int, l []Object) bool {
		return forallInt(len(objs), len(l), func(j int) bool {
			b, ok := l[j].(*black)
			return ok && b != nil && b.orig == lights[j-len(objs)].Object()
		})
	})
}

