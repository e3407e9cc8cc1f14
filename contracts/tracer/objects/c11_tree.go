package objects

import (
	. "github.com/barnex/bruteray/tracer/types"
)

// Trees are verified by induction over their nodes: what is to be shown is shown for one
// arbitrary object (vObj), one arbitrary place in it (vP) and one arbitrary statement about
// hits ("good"); the ghost predicates below are defined by unfolding them at the nodes that
// are visited. Nodes are not modified once they are built (frame conditions).
var (
	vObj Interface // ghost: any object
	vP   Vec       // ghost: any place
	vT   float64   // ghost: any distance
	vR   Ray       // ghost: any ray
)

func sBelow(n node) bool        { return ghost("below", vObj, sN(n)) }         // vObj is among the leaves
func sSound(n node) bool        { return ghost("sound", vObj, sN(n)) }         // boxes around vObj enclose vP
func sAll(n node, r Ray) bool   { return ghost("all", vObj, sNR{sN(n), r}) }   // hits of all leaves are good
func sClear(n node, r Ray) bool { return ghost("clear", vObj, sNR{sN(n), r}) } // r not within faces of boxes
func sGood(h HitRecord) bool    { return ghost("good", vObj, h) }
func sNone(n node) bool         { return ghost("none", vObj, sN(n)) } // vP is in no leaf
func sBuilt(n node) bool        { return ghost("built", vObj, sN(n)) } // all leaves are objects

// sNode is what the ghost predicates depend on.
type sNode struct {
	children *[2]node
	leafs    []Interface
}
type sNR struct {
	n sNode
	r Ray
}

func sN(n node) sNode { return sNode{n.children, n.leafs} }

func sEncl(n node) bool { return sHas(n.boundingBox.to64(), vP) }

func sHas(b BoundingBox, p Vec) bool { return holds(func() bool { return sIn(b, p) }) }

// sStructure unfolds what concerns the structure of a node.
func sStructure(n node) {
	if n.children == nil {
		assumeFact("objects below a leaf", sBelow(n) == existsInt(0, len(n.leafs), func(i int) bool { return n.leafs[i] == vObj }))
		assumeFact("leaves are sound", sSound(n))
		assumeFact("leaves are objects", sBuilt(n) == forallInt(0, len(n.leafs), func(i int) bool { return n.leafs[i] != nil }))
		return
	}
	a, b := n.children[0], n.children[1]
	assumeFact("objects in a node", holds(func() bool { return sBuilt(n) == (len(n.leafs) == 0 && sBuilt(a) && sBuilt(b)) }))
	assumeFact("objects below a node", holds(func() bool { return sBelow(n) == (sBelow(a) || sBelow(b)) }))
	assumeFact("soundness of a node", holds(func() bool { return sSound(n) == (sSound(a) && sSound(b) && (!sBelow(a) || sEncl(a)) && (!sBelow(b) || sEncl(b))) }))
}

// sHits unfolds what concerns hits of a ray.
func sHits(n node, r Ray) {
	if n.children == nil {
		assumeFact("hits of a leaf", sAll(n, r) == forallInt(0, len(n.leafs), func(i int) bool { return sGood(n.leafs[i].Intersect(&r)) }))
		assumeFact("faces of a leaf", sClear(n, r))
		return
	}
	a, b := n.children[0], n.children[1]
	assumeFact("hits of a node", sAll(n, r) == (sAll(a, r) && sAll(b, r)))
	assumeFact("faces of a node", holds(func() bool { return sClear(n, r) == (sClear(a, r) && sClear(b, r) && sNotInFace(a.boundingBox.to64(), r) && sNotInFace(b.boundingBox.to64(), r)) }))
}

// A box that encloses a place on the ray in front of its start is not missed.
//verif:contract tracer/objects.intersectAABBf local
//verif:opt noiface
//verif:opt wildresult
func C11_slabs(s *boundingBoxf, r *Ray) float64 {
	old := *r
	res := intersectAABBf(s, r)
	ensures("not missed", !(sNonzero(old.Dir) && sNotInFace(s.to64(), old) && vT > 0 && sIn(s.to64(), vP) && eqx(vP, sAt(old, vT))) || res > 0)
	return res
}

// The nearest hit of all objects below a node is found, and nothing else.
//verif:contract (*tracer/objects.node).Intersect local
//verif:opt wildT=Intersect
//verif:opt noiface
func C11_node(n *node, r *Ray) HitRecord {
	requires(sNonzero(r.Dir) && vObj != nil && sBuilt(*n))
	old := *r
	sStructure(*n)
	sHits(*n, old)
	here := vObj.Intersect(r).T == vT && eqx(vP, sAt(old, vT)) && vT > 0 && vT < 9e99
	loopinv(func(it int, front HitRecord) bool {
		return front.T > 0 && front.T <= 9e99 &&
			forallInt(0, it, func(j int) bool { return !(n.leafs[j] == vObj && here && vT < front.T) })
	})
	loopinv(func(it int, front HitRecord) bool {
		return !sAll(*n, old) || front.T == 9e99 || sGood(front)
	})
	h := n.Intersect(r)
	ensures("ray unchanged", eqx(*r, old))
	ensures("none or in range", h.T == 0 || h.T > 0 && h.T < 9e99)
	ensures("not missed", !(sBelow(*n) && sSound(*n) && sClear(*n, old) && here) || h.T > 0 && h.T <= vT)
	ensures("of an object", !sAll(*n, old) || h.T == 0 || sGood(h))
	return h
}

// A point is inside a node exactly if it is inside any of the objects below.
//verif:contract (*tracer/objects.node).Inside local
//verif:opt noiface
func C11_nodeInside(n *node, p Vec) bool {
	requires(vObj != nil && sBuilt(*n) && eqx(p, vP))
	sStructure(*n)
	sPlaces(*n)
	here := vObj.Inside(vP)
	loopinv(func(it int) bool {
		return forallInt(0, it, func(j int) bool { return !n.leafs[j].Inside(vP) })
	})
	in := n.Inside(p)
	ensures("inside", in || !(sBelow(*n) && here))
	ensures("outside", !in || !sNone(*n))
	return in
}

// sPlaces unfolds what concerns insides.
func sPlaces(n node) {
	if n.children == nil {
		assumeFact("outside of a leaf", sNone(n) == forallInt(0, len(n.leafs), func(i int) bool { return !n.leafs[i].Inside(vP) }))
		return
	}
	assumeFact("outside of a node", sNone(n) == (sNone(n.children[0]) && sNone(n.children[1])))
}

// The box around a list of points contains them all.
//verif:contract tracer/objects.boundingBoxFromHull local
//verif:opt wildresult
func C11_hull(hull []Vec) BoundingBox {
	requires(len(hull) > 0)
	loopinv(func(i int, min, max Vec) bool {
		return forallInt(0, i+1, func(j int) bool { return sIn(BoundingBox{min, max}, hull[j]) })
	})
	b := boundingBoxFromHull(hull)
	ensures("contains", forallInt(0, len(hull), func(j int) bool { return sIn(b, hull[j]) }))
	return b
}

// The box around a list of objects contains what is in the box of any of them.
//verif:contract tracer/objects.makeBoundingBox local
//verif:opt noiface
//verif:opt wildresult
func C11_box(ch []Interface) BoundingBox {
	requires(len(ch) > 0 && forallInt(0, len(ch), func(i int) bool { return ch[i] != nil }))
	loopinv(func(it int, hull []Vec) bool {
		return len(hull) == 2*it && forallInt(0, it, func(j int) bool {
			b := ch[j].Bounds()
			return samex(hull[2*j], b.Min) && samex(hull[2*j+1], b.Max)
		})
	})
	b := makeBoundingBox(ch)
	ensures("contains", forallInt(0, len(ch), func(j int) bool { return !sIn(ch[j].Bounds(), vP) || sIn(b, vP) }))
	return b
}

// A tree is built of all the given objects, and its boxes enclose what they enclose.
//verif:contract tracer/objects.buildTree local
//verif:opt noiface
//verif:opt wildresult
func C11_build(ch []Interface) node {
	requires(vObj != nil && len(ch) > 0 && forallInt(0, len(ch), func(i int) bool { return ch[i] != nil }))
	modifies(ch)
	among := existsInt(0, len(ch), func(i int) bool { return ch[i] == vObj })
	encl := sHas(vObj.Bounds(), vP)
	r := vR
	good := forallInt(0, len(ch), func(i int) bool { return sGood(ch[i].Intersect(&r)) })
	none := forallInt(0, len(ch), func(i int) bool { return !ch[i].Inside(vP) })
	n := buildTree(ch)
	sStructure(n)
	ensures("built", sBuilt(n))
	ensures("a leaf's objects", holds(func() bool { return n.children != nil || !among || sBelow(n) }))
	ensures("left and right", holds(func() bool { return n.children == nil || !among || sBelow(n.children[0]) || sBelow(n.children[1]) }))
	ensures("left is sound", holds(func() bool { return n.children == nil || !encl || sSound(n.children[0])}))
	ensures("right is sound", holds(func() bool { return n.children == nil || !encl || sSound(n.children[1])}))
	ensures("no others", holds(func() bool { return among || !sBelow(n) }))
	ensures("left is enclosed", holds(func() bool { return n.children == nil || !encl || !sBelow(n.children[0]) || sEncl(n.children[0])}))
	ensures("all objects", holds(func() bool { return !among || sBelow(n) }))
	ensures("sound", holds(func() bool { return !encl || sSound(n) }))
	ensures("boxes", holds(func() bool { return !(among && encl) || sEncl(n) }))
	sHits(n, r)
	sPlaces(n)
	ensures("hits", holds(func() bool { return !good || sAll(n, r) }))
	ensures("outside", holds(func() bool { return !none || sNone(n) }))
	ensures("clear", holds(func() bool { return !(r.Dir[0] != 0 && r.Dir[1] != 0 && r.Dir[2] != 0) || sClear(n, r) }))
	return n
}

// Nodes are split along their longest side.
//verif:contract tracer/objects.argMax local
func C11_longest(v Vec) int {
	i := argMax(v)
	ensures("a side", 0 <= i && i < 3)
	ensures("longest", v[i] >= v[0] && v[i] >= v[1] && v[i] >= v[2])
	return i
}

// Rounding a box to single precision keeps what is in it.
//verif:contract tracer/objects.boundingBoxToF local
func C11_rounded(b BoundingBox) boundingBoxf {
	roundFloat32()
	f := boundingBoxToF(b)
	ensures("contains", !sHas(b, vP) || sHas(f.to64(), vP))
	return f
}

// A tree is hit where the nearest of its objects is hit.
//verif:opt noiface
func C11_tree(objs []Interface, k int, r *Ray) {
	requires(0 <= k && k < len(objs) && forallInt(0, len(objs), func(i int) bool { return objs[i] != nil }))
	requires(r.Dir[0] != 0 && r.Dir[1] != 0 && r.Dir[2] != 0)
	h0 := objs[k].Intersect(r)
	vObj, vT, vP, vR = objs[k], h0.T, sAt(*r, h0.T), *r
	old := append([]Interface(nil), objs...)
	define(func() bool {
		return forallInt(0, len(objs), func(i int) bool { return sGood(objs[i].Intersect(&vR)) })
	})
	here := h0.T > 0 && h0.T < 9e99 && sHas(objs[k].Bounds(), vP)
	t := Tree(objs...)
	h := t.Intersect(r)
	define(func() bool {
		return sGood(h) == existsInt(0, len(old), func(i int) bool { return eqx(h, old[i].Intersect(&vR)) })
	})
	ensures("nearest", !here || h.T > 0 && h.T <= h0.T)
	ensures("of an object", h.T == 0 || existsInt(0, len(old), func(i int) bool { return eqx(h, old[i].Intersect(&vR)) }))
}

// What is inside a tree is what is inside its objects.
//verif:opt noiface
func C11_treeInside(objs []Interface, k int, p Vec) {
	requires(0 <= k && k < len(objs) && forallInt(0, len(objs), func(i int) bool { return objs[i] != nil }))
	vObj, vP = objs[k], p
	old := append([]Interface(nil), objs...)
	t := Tree(objs...)
	in := t.Inside(p)
	ensures("inside", in || !old[k].Inside(p))
	ensures("outside", !in || existsInt(0, len(old), func(i int) bool { return old[i].Inside(p) }))
}

// What is within the bounds of an object is within the bounds of the tree.
//verif:opt noiface
func C11_treeBounds(objs []Interface, k int, p Vec) {
	requires(0 <= k && k < len(objs) && forallInt(0, len(objs), func(i int) bool { return objs[i] != nil }))
	vObj, vP = objs[k], p
	b := objs[k].Bounds()
	t := Tree(objs...)
	ensures("enclosed", !sHas(b, p) || sHas(t.Bounds(), p))
}
