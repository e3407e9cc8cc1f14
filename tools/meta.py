#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (govc VC generator on go/ssa of the real code; z3, cvc5)"
P = []
def prop(id, title, statement, text, why, files, symbols=None, over=("inputs",), note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, note=note))
import re
def anchors(p):
    t=[]
    for f in sorted(glob.glob(V+"/contracts/**/c"+p["id"][1:]+"_*.go", recursive=True)):
        for m in re.findall(r"//verif:(?:target|contract) (.*)", open(f).read()):
            if m not in t: t.append(m)
    w=p["files"]
    return {"files": w, "mechanism": [{"name": x, "where": "/".join(w[:1])} for x in t] or [{"name": "see files", "where": w[0]}]}

REAL = "Proved for all inputs over exact real arithmetic extended with IEEE special values; rounding is not modelled."

prop("C01", "Composing transforms equals applying them in sequence",
  "Composing affine transforms, in either of the offered orders and for a list of transforms, gives a transform that maps every point and every direction to what applying the parts one after the other gives. Transforming a direction ignores translation.",
  "all affine transforms, points and directions; lists of any length (loop invariants)",
  "tests sample a handful of matrices and points; composition order errors vanish on commuting samples",
  ["geom/affinetransform.go","geom/matrix.go"], note=REAL+"")
prop("C02", "Inverse of a transform undoes it",
  "For every invertible affine transform the inverse maps each transformed point and direction back to where it came from, and vice versa.",
  "all affine transforms with non-zero determinant; all points and directions",
  "tests try a few transforms; a sign or cofactor error can vanish for symmetric samples",
  ["geom/affinetransform.go","geom/matrix.go"], note=REAL)
prop("C03", "Elementary transforms do what they say",
  "Translation adds an offset, rotation turns rigidly and right-handedly about the given axis through the given point by the given angle, scaling scales about the given point, yaw-pitch-roll and reference-frame constructions compose those rotations as documented. Rotations preserve lengths and handedness for every non-zero axis.",
  "all origins, axes, angles, factors and points",
  "tests use axis-aligned rotations at a few angles",
  ["geom/affinetransform.go","geom/matrix.go","util/util.go"], note=REAL+" sin and cos enter through sin^2+cos^2=1 and values at special angles.")
prop("C04", "Vector algebra is mathematically right",
  "Vector sums, products, lengths, normalisation, cross products and triangle normals have their mathematical values: cross products are orthogonal to both factors and right-handed, normalised vectors have unit length and unchanged direction.",
  "all vectors (all IEEE values for the not-a-number test)",
  "every other computation relies on these for all vectors; tests sample a few",
  ["geom/vec.go"], note=REAL)
prop("C07", "Sphere and cylinder intersections are exact and complete",
  "A reported hit on a sphere or (finite, any-axis) cylinder lies on its surface, in front of the ray origin, with the outward normal and the object's material, and leaves the ray unmodified. A ray through any surface point in front of it reports a hit there or nearer. A point is inside exactly when it lies within the radius (and height).",
  "all positive sizes, centers, axes; all rays with non-zero direction; all points",
  "tests render a few pictures; grazing, inside-starting and axis-parallel rays are hardly sampled",
  ["tracer/objects/quadric.go"], note=REAL+" Cylinder height is decided up to the code's 1e-9 margin.")
prop("C09", "Box intersections are exact and complete",
  "A reported box hit lies on a face of the box, in front of the ray origin, with an outward unit normal of a face it lies on. Every ray through a point of the box reports a hit, at the entry point or, when started inside, at the exit point; a point is inside exactly when it is strictly within all faces.",
  "all boxes and all rays not starting exactly in the plane of a face, including axis-parallel rays",
  "axis-parallel rays divide by zero and take a different path per axis and sign; tests sample few of them",
  ["tracer/objects/box.go","tracer/objects/boundingbox.go"], note=REAL+" Rays starting exactly in the plane of a face are excluded.")

exec(open(os.path.join(V,"tools","meta_more.py")).read()) if os.path.exists(os.path.join(V,"tools","meta_more.py")) else None

NA = globals().get("NA", [])
ids = {p["id"] for p in P}
have = set()
for f in glob.glob(V+"/contracts/**/c[0-9][0-9]_*.go", recursive=True):
    have.add("C"+os.path.basename(f)[1:3])
P.sort(key=lambda p: p["id"])
with open(V+"/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80, p["id"]
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],
          "quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why"],"anchors":anchors(p)})+"\n")
na_ids={n["property"] for n in NA}
checks=[{"property":p["id"],"quick_cmd":"./check.sh %s quick"%p["id"],"thorough_cmd":"./check.sh %s thorough"%p["id"],
  "technique":TECH,"level":"proof","level_note":p["note"]} for p in P if p["id"] not in na_ids]
missing=[c["property"] for c in checks if c["property"] not in have]
assert not missing, missing
m={"version":1,"setup_cmd":"./build.sh","hooks":{"guard":"none (contracts are attached by go overlay files kept in /verif/contracts; /repo carries no hooks)","enable":"govc loads /repo with the overlay; nothing is enabled in /repo","source_commits":[]},
 "checks":checks,"not_applicable":NA}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(P),"properties",len(checks),"checks; unlisted contracts:",sorted(have-ids))
