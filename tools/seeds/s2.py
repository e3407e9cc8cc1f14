def GO(pkg, imports, body):
    return "package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (pkg, "".join("\t%s\n" % i for i in ['"testing"'] + imports), body.lstrip("\n"))
B = "github.com/barnex/bruteray"
def q(x): return '"%s/%s"' % (B, x)
TYPES = '. "%s/tracer/types"' % B
CF = '. "%s/imagef/colorf"' % B

seed("C13-first-filter", "C13", [("tracer/scene.go", "				orig = trans.Filter(r, f, orig)\n", "				orig = trans.Filter(r, f, orig)\n				if orig.Max() < 0.25 {\n					break // hardly any light left\n				}\n")], "tracer", '''package tracer_test

import (
	"testing"

	. "github.com/barnex/bruteray/imagef/colorf"
	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
)

func TestZZDemo(t *testing.T) {
	a := objects.Sphere(materials.Transparent(Color{R: 0.1, G: 0.1, B: 0.1}, false), 0.5, Vec{2, 0, 0})
	b := objects.Sphere(materials.Flat(Color{}), 0.5, Vec{4, 0, 0})
	got := NewScene(1, nil, a, b).Occlude(&Ray{Start: Vec{}, Dir: Vec{1, 0, 0}}, 10, Color{R: 1, G: 1, B: 1})
	if got != (Color{}) {
		t.Fatal(got)
	}
}
''', "a dim light behind a dark transparent object that comes before an opaque one in the list", "light shines through an opaque object")
seed("C20-exit-index", "C20", [("tracer/materials/refractive.go", "		n1, n2 = n2, n1\n	}\n	n12", "		n1, n2 = n2, 1\n	}\n	n12")], "tracer/materials", '''package materials

import (
	"testing"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	. "github.com/barnex/bruteray/tracer"
)

type zzSee struct{ dirs []Vec }

func (z *zzSee) Intersect(r *Ray) HitRecord {
	z.dirs = append(z.dirs, r.Dir)
	return HitRecord{T: 1, Normal: Vec{0, 1, 0}, Material: Flat(Color{R: 1})}
}

func TestZZDemo(t *testing.T) {
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	z := &zzSee{}
	r := &Ray{Dir: Vec{0.6, 0.8, 0}}
	Refractive2(1.3, 1.3).Shade(ctx, NewScene(5, nil, z), r, HitCoords{T: 1, Normal: Vec{0, 1, 0}})
	for _, d := range z.dirs {
		if d[1] > 0 && d.Sub(r.Dir).Len() < 1e-6 {
			return
		}
	}
	t.Fatal(z.dirs)
}
''', "light leaving a refractive body into something else than vacuum", "refraction angle and reflectance are those towards vacuum")
seed("C22-light-width", "C22", [("tracer/lights/planar.go", "	return Vec{(0.5 * x) * l.w, Tiny, (0.5 * y) * l.h}.Add(l.center)", "	return Vec{(0.5 * x) * l.w, Tiny, (0.5 * y) * l.w}.Add(l.center)")], "tracer/lights", GO("lights", ['"math"', CF, TYPES], '''
	l := RectangleLight(Color{R: 1, G: 1, B: 1}, 4, 0.5, Vec{})
	for i := 0; i < 50; i++ {
		ctx := NewCtx(i)
		ctx.CurrentRecursionDepth = 1
		if p, _ := l.Sample(ctx, Vec{0, -3, 0}); math.Abs(p[2]) > 0.26 {
			t.Fatal(p)
		}
	}
''').replace(TYPES, '. "%s/tracer"\n\t. "%s/geom"' % (B, B)), "a rectangular light that is not a square", "light comes from places beside the light source")
seed("C25-shared-column", "C25", [("imagef/image.go", "	cpy := MakeImage(w, h)\n", "	cpy := MakeImage(w, h)\n	if w == 1 {\n		copy(cpy, i)\n		return cpy\n	}\n")], "imagef", GO("imagef", [q("imagef/colorf")], '''
	a := MakeImage(1, 3)
	b := a.Copy()
	b[2][0] = colorf.Color{R: 1}
	if a[2][0].R != 0 {
		t.Fatal(a)
	}
'''), "an image one pixel wide whose copy is modified", "the copy shares its pixels with the original")
seed("C27-pan-scale", "C27", [("texture/texture2d.go", "	return &panned{t, 1 / scaleU, 1 / scaleV, 0, 0}", "	return &panned{t, 1 / scaleU, 1 / scaleU, 0, 0}")], "texture", GO("texture", [q("geom"), q("imagef/colorf")], '''
	x := ScaleUV(zzTex{}, 2, 4)
	if c := x.At(geom.Vec{1, 1, 0}); c.R != 0.5 || c.G != 0.25 {
		t.Fatal(c)
	}
}

type zzTex struct{}

func (zzTex) AtUV(u, v float64) colorf.Color { return colorf.Color{R: u, G: v} }
func (zzTex) At(p geom.Vec) colorf.Color {
	return colorf.Color{R: p[0], G: p[1]}
'''), "a texture scaled by different factors in width and height", "the texture is stretched by the wrong factor")
seed("C08-quad-uv", "C08", [("tracer/objects/mesh.go", "[]Vec2{{0, 0}, {1, 0}, {1, 1}, {0, 1}}", "[]Vec2{{0, 0}, {0, 1}, {1, 1}, {1, 0}}")], "tracer/objects", OBJ % '''
	o := Quadrilateral(nil, Vec{0, 0, 0}, Vec{2, 0, 0}, Vec{2, 2, 0}, Vec{0, 2, 0})
	h := o.Intersect(&Ray{Start: Vec{1.5, 0.25, 5}, Dir: Vec{0, 0, -1}})
	if !near(h.Local[0], 0.75) {
		t.Fatal(h)
	}
''', "a texture that is not symmetric about its diagonal", "textures of quadrilaterals are transposed")
seed("C15-early-release", "C15", [("tracer/materials/refractive.go", "	defer ctx.PutRay(r2)\n	cT := ", "	ctx.PutRay(r2)\n	cT := ")], "tracer/materials", '''package materials

import (
	"testing"

	. "github.com/barnex/bruteray/geom"
	. "github.com/barnex/bruteray/imagef/colorf"
	. "github.com/barnex/bruteray/tracer"
)

type zzSee struct{ ctx *Ctx }

var zzBad bool

func (z *zzSee) Intersect(r *Ray) HitRecord {
	q := z.ctx.Ray()
	if q == r {
		zzBad = true
	}
	z.ctx.PutRay(q)
	return HitRecord{T: 1, Normal: Vec{0, 1, 0}, Material: Flat(Color{R: 1})}
}

func TestZZDemo(t *testing.T) {
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	r := &Ray{Dir: Vec{0.6, 0.8, 0}}
	Refractive2(1, 1.3).Shade(ctx, NewScene(5, nil, &zzSee{ctx}), r, HitCoords{T: 1, Normal: Vec{0, 1, 0}})
	if zzBad {
		t.Fatal("a ray being followed was handed out again")
	}
}
''', "another material using rays behind the refractive surface", "the ray being followed is handed out again and overwritten")
seed("C29-rotate-foot", "C29", [("api/object.go", "	return o.RotateAt(o.Center(), axis, radians)", "	return o.RotateAt(o.CenterBottom(), axis, radians)")], "api", GO("api", ['"math"'], '''
	o := Box(nil, 1, 3, 1, V(0, 5, 0)).Rotate(Ex, 90*Deg)
	if c := o.Center(); math.Abs(c[2]) > 1e-3 || math.Abs(c[1]-5) > 1e-3 {
		t.Fatal(c)
	}
'''), "a rotation about an axis that is not vertical", "the object does not stay in place")
seed("C30-aspect", "C30", [("api/spec.go", "		s.Height = (s.Width * defaultImageHeight) / defaultImageWidth\n", "		s.Height = s.Width / (defaultImageWidth / defaultImageHeight)\n")], "api", GO("api", [], '''
	s := Spec{Width: 320}
	s.InitDefaults()
	if s.Height != 180 {
		t.Fatal(s.Height)
	}
'''), "a width without a height", "the image is square instead of 16:9")

seed("C07-cylinder-end", "C07", [("tracer/objects/quadric.go", "	bMin[dir] = -height / 2\n", "	bMin[dir] = -height\n")], "tracer/objects", OBJ % '''
	o := CylinderDir(nil, 0, 1, 2, Vec{})
	h := o.Intersect(&Ray{Start: Vec{-1.5, 0, 5}, Dir: Vec{0, 0, -1}})
	if h.T > 0 {
		t.Fatal(h)
	}
''', "a ray beside the lower end of a cylinder", "the cylinder is longer than asked for")
seed("C24-header", "C24", [("imagef/ppm/ppm.go", "fmt.Fprintln(w, img.Bounds().Dx(), img.Bounds().Dy())", "fmt.Fprintln(w, img.Bounds().Dx(), img.Bounds().Dx())")], "imagef/ppm", GO("ppm", ['"bytes"', '"strings"', q("imagef")], '''
	var b bytes.Buffer
	EncodeAscii16(&b, imagef.MakeImage(2, 3))
	if !strings.Contains(b.String(), "2 3") {
		t.Fatal(b.String())
	}
'''), "an image that is not square", "the file claims the wrong height")
seed("C23-fog-end", "C23", [("tracer/media/fog.go", "	trans := math.Exp(-len * m.density)", "	trans := math.Exp(-end * m.density)")], "tracer/media", GO("media", ['"math"', CF, '. "%s/tracer"' % B, '. "%s/geom"' % B], '''
	ctx := NewCtx(1)
	ctx.CurrentRecursionDepth = 1
	r := &Ray{Start: Vec{0, 3, 0}, Dir: Vec{0, -1, 0}}
	c := Fog(1, 2, 0).Filter(ctx, NewScene(1, nil), r, 3, Color{R: 1})
	if math.Abs(c.R-math.Exp(-2)) > 1e-6 {
		t.Fatal(c)
	}
'''), "a camera above the fog", "light is absorbed before it reaches the fog")
