prop("C05", "Bounded and transformed objects are hit exactly like the original",
  "Wrapping an object in its bounding box never changes what a ray hits: the wrapped object reports the same hit as the original for every ray. A transformed object is hit by a ray exactly where the original is hit by the inversely transformed ray (same distance parameter, transformed normal, same local coordinates and material), contains exactly the images of the points the original contains, and a chain of transforms acts as its parts one after the other. Unbounded objects can be transformed too. The ray is left unmodified.",
  "all objects that keep their hits within their bounds, all invertible transforms, all rays not running within a face plane of the box",
  "the bounding-box test only matters for rays the tests do not shoot: a box too small by a sign or axis error clips objects only from some directions",
  ["tracer/objects/transformed.go","tracer/objects/bounded.go","tracer/objects/boundingbox.go"], note=REAL+" Chains of two transforms are proved for a family of non-commuting transforms.")
prop("C06", "Bounds enclose everything an object shows or contains",
  "For every object that can be built (sphere, cylinders, box, backdrop, triangle, and every combination by and, or, difference, restrict, not, hollow, bounded, transformed, re-materialed or remapped objects), every hit lies within the object's bounds and every point inside it lies strictly within them.",
  "all sizes, centers, rays and points, all part objects (structural induction)",
  "a bounding box that is too small only shows from rare directions, or when the object is nested in another accelerating structure",
  ["tracer/objects/quadric.go","tracer/objects/box.go","tracer/objects/csg.go","tracer/objects/mesh.go","tracer/objects/transformed.go"], note=REAL)
prop("C10", "Boolean combinations of objects behave as set operations",
  "For every two objects: a point is inside their intersection, union, difference or restriction exactly if set algebra says so, a negated object has the complementary inside and flipped normals, and a hollow object looks the same with nothing inside. A hit on a combination lies on the surface of one part and on the right side of the other part (intersection: inside it; union: outside it; difference: the first outside the second, the second inside the first; restriction: the first inside the second), carries that part's material, never lies in front of both parts' first hits, and first (for restriction also second) hits that qualify are not skipped. The ray is left unmodified.",
  "all pairs of objects, all rays and points, any number of marching steps (loop invariants)",
  "hits depend on the order in which a ray enters and leaves both parts; tests render a few fixed combinations",
  ["tracer/objects/csg.go","tracer/util.go"], note=REAL+" That no later qualifying hit is skipped is proved for the first hit of each part (and the second of a restriction), not for all.")
prop("C12", "A ray sees exactly the frontmost object or light",
  "The colour seen along a ray is the shading of the object or light source hit first (smallest positive distance), evaluated at that hit's distance, unit normal and local coordinates; black if nothing is hit. It is filtered by all participating media in order, up to the distance of what is seen, also when nothing is hit. Seen indirectly, light sources are black but still hide what is behind them. An image shows what its camera's rays see.",
  "all lists of objects and lights of any length (loop invariants), any objects (also ones reporting NaN or infinite distances), all materials, all rays",
  "which object is frontmost depends on the whole scene and on list order; tests render a few scenes",
  ["tracer/scene.go","tracer/util.go"], note=REAL+" Media lists are covered up to two media. Objects with exactly equal distances are excluded.")
prop("C13", "Shadows: opaque objects block light, transparent ones filter it",
  "Light reaching a point from a source is none if an opaque object is strictly between them, whatever else is on the way; unaltered if nothing is strictly between them; and filtered by every transparent object in between. Light sources do not cast shadows, and the test modifies nothing.",
  "all lists of objects and lights, all rays, lengths and colours (loop invariants)",
  "early return and accumulation depend on the order and number of objects between point and light",
  ["tracer/scene.go"], note=REAL+" Accumulated filtering is proved for one transparent object among any number and for two.")
prop("C14", "Recursion never exceeds the maximum depth and depth is restored",
  "At the maximum recursion depth a ray sees black without anything being traced. Below it, materials and media are evaluated exactly one level deeper, never beyond the maximum, and the recursion depth is the same after evaluating a ray as it was before.",
  "all scenes (any number of objects, lights and media), all depths from zero up, all rays",
  "a depth that is not restored on some path, or compared off by one, shows only in scenes with deep recursion",
  ["tracer/scene.go"], note="Materials are assumed to restore the depth themselves (they only evaluate further rays). Mutual mirrors are checked concretely for maximum depths 0 to 2. Negative maximum depths are excluded.")
prop("C15", "Recycled rays are never shared and rays are not modified",
  "Rays handed out by a context are blank and differ from all rays handed out and not yet given back, whatever was recycled before. Evaluating what a ray sees modifies nothing but the context, and an image gives its ray back only after use. Materials (reflective, varnished, refractive, transparent, matte) and fog do not give back rays that are still being followed, give none back twice, do not recycle the ray they are given and leave it as it is.",
  "all pool contents, all scenes, rays, hits and lists of lights",
  "aliasing of recycled rays corrupts results only for particular orders of use",
  ["tracer/ctx.go","tracer/util.go","tracer/scene.go","tracer/materials/reflective.go","tracer/materials/refractive.go","tracer/materials/transparent.go","tracer/materials/matte.go","tracer/media/fog.go"], note="Objects, and materials and media from elsewhere, are assumed not to modify the ray they are given.")
prop("C16", "Every pixel accumulates exactly its own samples",
  "Sampling a tile adds exactly the requested number of samples to each of its pixels and to no other pixel. The image is the mean of the samples, the standard deviation that of the samples, and samples that are not a number are left out of the sum.",
  "all image sizes, tiles, pixels, numbers of passes and colours (loop invariants)",
  "tests use small square images; tiles at image borders and any number of passes are not covered",
  ["tracer/sampler.go"], note=REAL+" Distribution of tiles over goroutines is not covered.")
prop("C17", "Pixels map to their own square of the image plane",
  "Every pixel of every image size is a square of the same size (one over the longer image side); pixels lie side by side, upright, in an image centered in the unit square, which it fills along its longer side. Every anti-aliased sample of a pixel falls within that pixel, and without anti-aliasing at its center.",
  "all image sizes and all pixels, all jitter values in the unit square",
  "tests use landscape and square images at a few sizes",
  ["tracer/sampler.go","sampler/util.go"], note=REAL)
prop("C18", "Quasi-random samples are in range, reproducible and well distributed",
  "Every quasi- or pseudo-random number pair a context hands out, for any pixel, pass and recursion depth, lies in the unit square [0,1). Halton numbers are the radical inverses of the natural numbers; those of a pixel and pass do not depend on what was generated before, and change with every pass. Mapped to the unit disk, area is preserved; mapped to a hemisphere, directions have unit length and the cosine distribution about the normal, for every normal.",
  "all bases (values: bases 2 to 7), indices, pixels, passes, depths, and all unit normals",
  "out-of-range or biased numbers occur only for particular indices, shifts or normals",
  ["tracer/sequence/halton.go","tracer/sequence/mappings.go","tracer/sequence/sequence.go","tracer/ctx.go","util/util.go"], note=REAL+" Distribution is meant pointwise (the mapping has the right radius and angle); equidistribution of Halton numbers is not stated.")
prop("C19", "Cameras cast the rays their projection prescribes",
  "A pinhole camera's rays start at its position and span exactly the field of view, x to the right and y up; with an aperture they start within the lens and all rays of an image point meet at the focus distance. Isometric cameras cast parallel rays that conserve sizes, the environment map looks in all directions by longitude and latitude. Moving or turning a camera moves or turns its rays about its own position and leaves the original camera as it was.",
  "all fields of view, apertures, focus distances, image points, positions and angles",
  "tests render a few views; depth of field and most angles are not tested at all",
  ["tracer/cameras/projective.go","tracer/cameras/isometric.go","tracer/cameras/environmentmap.go","tracer/cameras/withtransform.go"], note=REAL)
prop("C20", "Mirrors and glass obey the laws of reflection and refraction",
  "A reflective surface shows, tinted, what is seen in the direction mirrored at the normal; a refractive one adds what is seen in mirrored direction and in the direction of Snell's law, weighted by Fresnel's equations (weights between 0 and 1 that add up to 1), seen from outside or inside; beyond the critical angle everything is reflected. Secondary rays start at the surface on the right side, and the ray given is not modified.",
  "all positive indices, all unit normals and directions (either side), all surroundings",
  "sign and index-ratio errors show up only for exiting rays, grazing or beyond critical angles",
  ["tracer/materials/reflective.go","tracer/materials/refractive.go"], note=REAL)
prop("C21", "Materials combine and shade as documented",
  "Flat materials show their texture; blends are weighted sums; two-sided materials choose by the side of the normal; transparent ones show what is straight behind, filtered, and filter light alike. A matte surface shows its texture times the sum, over lights, of the arriving light weighted by the cosine of incidence on the side that is seen (none from behind, none if blocked between surface and light) plus the light from one cosine-distributed direction.",
  "all textures, part materials, rays, normals on either side, light positions and colours",
  "tests render a few pictures; sides, weights and shadow distances are sampled at few angles",
  ["tracer/materials/blend.go","tracer/materials/flat.go","tracer/materials/matte.go","tracer/materials/transparent.go","tracer/materials/twosided.go"], note=REAL+" Sums over lights are proved for up to two lights.")
prop("C22", "Lights send the power and from the places their description says",
  "A point light gives its power over 4 pi r squared in all directions and is not seen itself. Rectangular and circular lights are sampled on their surface and give, downwards only, their power (brightness times area) times the cosine over pi r squared; they look bright from below and dark from above. The sun stands where yaw and pitch say, with its angular size and the brightness asked for. A transformed light (of any kind) is where the transform takes it and lights transformed points as the original lit theirs.",
  "all powers, sizes, positions, targets, angles, transforms and random numbers",
  "tests render single views of lights, mostly centered; the power law in other geometries is not tested",
  ["tracer/lights/planar.go","tracer/lights/pointlight.go","tracer/lights/transformed.go"], note=REAL+" What a disk light looks like is not stated.")
prop("C23", "Fog attenuates and scatters exactly over the distance travelled in it",
  "On rays from the camera (and only those) light fades by exp(-density times the length of the ray below the fog's height up to where it hits), for rays going down, up or horizontally, starting inside or outside, hitting something or not; ambient fog adds its colour in the complementary proportion. Lit fog adds, in that proportion, the light that the first so many lights send unblocked to one point of the ray within the fog, drawn with exponential distribution.",
  "all densities, heights (infinite included), rays, distances, colours, lights and random numbers",
  "tests render a few views; horizontal rays and rays leaving the fog are not among them",
  ["tracer/media/expfog.go","tracer/media/fog.go"], note=REAL+" Sums over lights are proved for up to two lights. Log and exp are axiomatised (monotone, inverse of each other).")
prop("C24", "Colours are displayed and stored by the sRGB curve, in full or with an error",
  "Displayed brightness lies between 0 and 1 for every light (however bright or negative), follows the sRGB curve (within 0.0051), and never decreases with light; image files are linearised by the same curve. 16-bit values are the displayed brightness rounded down in steps of 1/65535. A PPM file holds format, width, height, and then every pixel in order of rows and columns as its three numbers; if any write fails, an error is returned. Colour sums, products, exposure and grey values are componentwise as documented.",
  "all colours (infinite ones included), image sizes, pixels and failing writes (loop invariants)",
  "tests write one small image and compare nothing; extreme values and write failures are not tested",
  ["imagef/colorf/color.go","imagef/ppm/ppm.go"], note=REAL+" Texts written by fmt are modelled as their operands in order; pow by monotonicity and numeric values at constants.")
prop("C25", "Images have the size asked for and are independent of their copies",
  "A new image, in colour or grey, is as wide and high as asked for and black; setting one pixel changes that pixel and no other. Sizes, bounds and pixel counts are those of the image, and a pixel is found by its column first and then its row. A copy has the same size and pixels, and changing it leaves the original as it was.",
  "all sizes, all pixels and colours (loop invariants)",
  "rows share one backing array; overlapping rows, transposed sizes or shared copies show only in images that are not square or are processed twice",
  ["imagef/image.go","imagef/grey.go"], note=REAL+" Decoding of image files (standard library) is not covered.")
prop("C27", "Textures show the right place of their image or pattern",
  "An image texture shows some colour at every coordinate (NaN and infinite included) and does not modify its image; coordinates repeat with period one; between pixels the four nearest are interpolated by distance. Nearest-pixel textures show a pixel within half a pixel. Panned and scaled textures look as the original elsewhere; checkers alternate in both directions (also at negative coordinates); grid lines have their width at every multiple of the pitch; fisheye images map angles from the vertical to distances from the center.",
  "all image sizes, coordinates, pitches, widths and textures",
  "tests cover the wrapping of a few numbers and nothing of interpolation, patterns or mappings",
  ["texture/interpolation.go","texture/assets.go","texture/texture2d.go","texture/uvmapper.go","texture/func2d.go","util/util.go"], note=REAL+" Nearest is stated for coordinates from 0 to 1 (it does not repeat).")
prop("C28", "Height fields are solid below their height function",
  "An iso surface of given sides fills the part of its box that lies below height times the height function. Along a ray that comes down into it between two places, the place found lies between them, is not above the surface, and the ray is above it at most 2e-6 before; on a ray that is on the same side at both places nothing is found, and rays are not modified. Normals are at right angles to the surface and point up, whatever the lengths of the sides.",
  "all side lengths, height functions with values from 0 to 1, rays and intervals (loop invariants)",
  "tests render one function on a unit square, where errors in scaling cancel",
  ["tracer/objects/isosurface.go"], note=REAL+" Normals are stated for planar height functions, where the numerical derivative is exact.")

prop("C08", "Triangles are hit between their corners, with interpolated properties",
  "A ray that is not parallel to a triangle hits it exactly if it meets the triangle's plane ahead and not outside of its sides, at that distance, with normal and texture coordinates interpolated linearly from the corners; the ray is not modified. Triangles, quadrilaterals and rectangles have the documented corners and texture coordinates, triangles the unit normal of the right-hand rule. Objects with another material or remapped coordinates are hit like the original.",
  "all triangles with some area, all rays not parallel to them, all corners",
  "tests render a few meshes; exchanged corners or weights look alike in symmetric scenes",
  ["tracer/objects/mesh.go","tracer/objects/remap.go"], note=REAL+" Smooth normals are stated for a single face; meshes read from files are not covered.")
prop("C11", "A tree of objects is hit exactly like its objects",
  "For any list of objects, however many and wherever they are, a ray hits their tree where it first hits one of them: no object's hit (less than 9e99 away) is missed or hidden by one further away, and every hit of the tree is the hit of one of its objects. A place is inside the tree exactly if it is inside one of its objects, and the tree's bounds enclose those of all objects.",
  "all lists of objects, all rays not parallel to an axis plane, all places (induction over the nodes of the tree)",
  "tests use a few meshes whose hits are checked by eye; an object lost at a split or a box that is too small shows only for particular lists and rays",
  ["tracer/objects/tree.go"], note=REAL+" Nodes are verified with ghost predicates unfolded at the nodes visited; sort.Slice is assumed to permute.")
prop("C29", "Objects are placed, resized and combined as the API says",
  "The anchors of an object (center, top, bottom, front and back) are the middles of its bounding box and of the box's sides. Translating an object moves its contents and its box; WithCenter and WithCenterBottom put that anchor at the place given. Scaling and rotating leave the object's center, or the point asked for, in place: a point is inside of the scaled object exactly if the point it was scaled from is inside of the object; ScaleToSize gives the size asked for. And, Or, AndNot, Remove, Restrict and Difference contain exactly the points that those set operations ask for.",
  "all objects with a finite box (any implementation of the object interface), all points, angles, axes and sizes",
  "tests render a few scenes with one or two of these methods; a wrong anchor or side shows only for objects that are not symmetric or not at the origin",
  ["api/object.go","tracer/objects/boundingbox.go","geom/transform.go"], note=REAL)
prop("C30", "Explicit settings are rendered, defaults fill in the rest",
  "Filling in the defaults of a specification keeps every setting made explicitly (size, recursion, passes, camera, objects, lights, media); a width or height left out follows from the other at 16:9, and both at 960 by 540. Applying a view to a specification sets the size asked for, turns the camera by yaw and pitch and then moves it, leaves all objects, lights and media (or, when normals are shown, replaces the objects by as many others), and does not modify the original specification.",
  "all specifications and views, all numbers of objects",
  "tests never apply views, and never leave out one of width and height",
  ["api/spec.go","api/view.go","tracer/cameras/withtransform.go"], note=REAL+" Cameras that are not turned already (those that are: C19).")
