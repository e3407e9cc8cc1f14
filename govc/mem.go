package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// Memory: for every leaf (region type, path) a chain of nodes.

type nkind int

const (
	nBase nkind = iota
	nWrite
	nZero
	nMerge
	nHavoc
	nCopy
	nPerm
)

type MNode struct {
	kind     nkind
	id       int
	leaf     types.Type
	name     string
	old      bool
	wild     bool
	ref, idx *Term
	val      Val
	cond     *Term
	a, b     *MNode // prev = a
	pred     func(ref, idx *Term) *Term
	n, soff  *Term
	sref     *Term
	doff     *Term
	memo     map[[2]*Term]Val
	pf       func(*Term) *Term
}

var nodeCount int

func newNode(n *MNode) *MNode {
	nodeCount++
	n.id = nodeCount
	n.memo = map[[2]*Term]Val{}
	return n
}

type State struct {
	mem map[string]*MNode
	pc  *Term
	env map[interface{}]Val
	log *[]wrec // write log shared by everything executed since it was installed
	dfr []deferred
}

type deferred struct {
	cond *Term
	fn   Val
	args []Val
	meth string
	pos  string
	call interface{}
}

type wrec struct {
	key      string
	leaf     types.Type
	ref, idx *Term
}

func (s *State) clone() *State {
	n := &State{mem: make(map[string]*MNode, len(s.mem)), pc: s.pc, env: make(map[interface{}]Val, len(s.env)), log: s.log}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.dfr = append([]deferred(nil), s.dfr...)
	return n
}

func (e *E) node(s *State, key string, leaf types.Type) *MNode {
	if n, ok := s.mem[key]; ok {
		return n
	}
	n, ok := e.baseMem[key]
	if !ok {
		n = newNode(&MNode{kind: nBase, leaf: leaf, name: "M:" + key, old: true})
		e.baseMem[key] = n
	}
	return n
}

// leaves calls f for every leaf path of type t below path.
func leaves(t types.Type, path string, f func(path string, leaf types.Type)) {
	switch u := und(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leaves(u.Field(i).Type(), path+"."+strconv.Itoa(i), f)
		}
	case *types.Array:
		if u.Len() > 1024 {
			unsup("array in memory too long: %v", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			leaves(u.Elem(), path+"."+strconv.FormatInt(i, 10), f)
		}
	default:
		f(path, t)
	}
}

func (e *E) readNode(n *MNode, ref, idx *Term) Val {
	if ref.op == OIte {
		return mergeVal(ref.args[0], e.readNode(n, ref.args[1], idx), e.readNode(n, ref.args[2], idx))
	}
	k := [2]*Term{ref, idx}
	if v, ok := n.memo[k]; ok {
		return v
	}
	var v Val
	switch n.kind {
	case nBase:
		v = e.symVal(n.leaf, n.name, []*Term{ref, idx}, n.old)
	case nWrite:
		c := And(Eq(ref, n.ref), Eq(idx, n.idx))
		switch c {
		case True:
			v = n.val
		case False:
			v = e.readNode(n.a, ref, idx)
		default:
			v = mergeVal(c, n.val, e.readNode(n.a, ref, idx))
		}
	case nZero:
		c := Eq(ref, n.ref)
		switch c {
		case True:
			v = n.val
		case False:
			v = e.readNode(n.a, ref, idx)
		default:
			v = mergeVal(c, n.val, e.readNode(n.a, ref, idx))
		}
	case nMerge:
		v = mergeVal(n.cond, e.readNode(n.a, ref, idx), e.readNode(n.b, ref, idx))
	case nHavoc:
		c := n.pred(ref, idx)
		if c == False {
			v = e.readNode(n.a, ref, idx)
		} else {
			var h Val
			if n.wild {
				h = e.symWild(n.leaf, n.name, []*Term{ref, idx})
			} else {
				h = e.symVal(n.leaf, n.name, []*Term{ref, idx}, false)
			}
			if c == True {
				v = h
			} else {
				v = mergeVal(c, h, e.readNode(n.a, ref, idx))
			}
		}
	case nPerm:
		c := And(Eq(ref, n.ref), Le(n.doff, idx), Lt(idx, Add(n.doff, n.n)))
		if c == False {
			v = e.readNode(n.a, ref, idx)
		} else {
			s := e.readNode(n.a, n.ref, Add(n.doff, n.pf(Sub(idx, n.doff))))
			if c == True {
				v = s
			} else {
				v = mergeVal(c, s, e.readNode(n.a, ref, idx))
			}
		}
	case nCopy:
		c := And(Eq(ref, n.ref), Le(n.doff, idx), Lt(idx, Add(n.doff, n.n)))
		if c == False {
			v = e.readNode(n.a, ref, idx)
		} else {
			s := e.readNode(n.b, n.sref, Add(n.soff, Sub(idx, n.doff)))
			if c == True {
				v = s
			} else {
				v = mergeVal(c, s, e.readNode(n.a, ref, idx))
			}
		}
	}
	n.memo[k] = v
	return v
}

func memKey(root types.Type, path string) string { return typeKey(root) + path }

// load reads a value of type t through pointer p (no nil check).
func (e *E) load(s *State, p Ptr, t types.Type) Val {
	if p.arr {
		a, ok := und(t).(*types.Array)
		if !ok {
			unsup("load %v through array region", t)
		}
		r := &Agg{}
		for i := int64(0); i < a.Len(); i++ {
			r.f = append(r.f, e.load(s, Ptr{ref: p.ref, idx: Add(p.idx, IntC(i)), root: p.root}, a.Elem()))
		}
		return r
	}
	return e.loadPath(s, p, p.path, t)
}

func (e *E) loadPath(s *State, p Ptr, path string, t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Struct:
		r := &Agg{f: make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = e.loadPath(s, p, path+"."+strconv.Itoa(i), u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := &Agg{f: make([]Val, u.Len())}
		for i := range r.f {
			r.f[i] = e.loadPath(s, p, path+"."+strconv.Itoa(i), u.Elem())
		}
		return r
	}
	return e.readNode(e.node(s, memKey(p.root, path), t), p.ref, p.idx)
}

func (e *E) store(s *State, p Ptr, t types.Type, v Val, cond *Term) {
	if cond == False {
		return
	}
	if p.arr {
		a, ok := und(t).(*types.Array)
		if !ok {
			unsup("store %v through array region", t)
		}
		ag := v.(*Agg)
		for i := int64(0); i < a.Len(); i++ {
			e.store(s, Ptr{ref: p.ref, idx: Add(p.idx, IntC(i)), root: p.root}, a.Elem(), ag.f[i], cond)
		}
		return
	}
	if p.ref.op == OIte {
		q := p
		q.ref = p.ref.args[1]
		e.store(s, q, t, v, And(cond, p.ref.args[0]))
		q.ref = p.ref.args[2]
		e.store(s, q, t, v, And(cond, Not(p.ref.args[0])))
		return
	}
	e.storePath(s, p, p.path, t, v, cond)
}

func (e *E) storePath(s *State, p Ptr, path string, t types.Type, v Val, cond *Term) {
	switch u := und(t).(type) {
	case *types.Struct:
		ag := v.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			e.storePath(s, p, path+"."+strconv.Itoa(i), u.Field(i).Type(), ag.f[i], cond)
		}
		return
	case *types.Array:
		ag := v.(*Agg)
		for i := 0; i < int(u.Len()); i++ {
			e.storePath(s, p, path+"."+strconv.Itoa(i), u.Elem(), ag.f[i], cond)
		}
		return
	}
	k := memKey(p.root, path)
	prev := e.node(s, k, t)
	if cond != True {
		v = mergeVal(cond, v, e.readNode(prev, p.ref, p.idx))
	}
	s.mem[k] = newNode(&MNode{kind: nWrite, leaf: t, ref: p.ref, idx: p.idx, val: v, a: prev})
	if s.log != nil {
		*s.log = append(*s.log, wrec{k, t, p.ref, p.idx})
	}
}

// alloc creates a fresh zeroed region of type t (all indices).
func (e *E) alloc(s *State, t types.Type) *Term {
	e.nalloc++
	ref := IntC(int64(-e.nalloc))
	leaves(t, "", func(path string, lt types.Type) {
		k := memKey(t, path)
		prev := e.node(s, k, lt)
		s.mem[k] = newNode(&MNode{kind: nZero, leaf: lt, ref: ref, val: zeroVal(lt), a: prev})
	})
	return ref
}

// copyRegion copies n elements of type t.
func (e *E) copyRegion(s *State, t types.Type, dref, doff, sref, soff, n *Term) {
	if n.isInt(0) {
		return
	}
	leaves(t, "", func(path string, lt types.Type) {
		k := memKey(t, path)
		prev := e.node(s, k, lt)
		s.mem[k] = newNode(&MNode{kind: nCopy, leaf: lt, ref: dref, doff: doff, sref: sref, soff: soff, n: n, a: prev, b: prev})
		if s.log != nil {
			*s.log = append(*s.log, wrec{k, lt, dref, nil})
		}
	})
}

// discriminator between two path conditions, relative to what they share
func discr(p, q *Term) *Term {
	if p == q {
		return True
	}
	qs := map[*Term]bool{}
	for _, c := range conj(q) {
		qs[c] = true
	}
	var rp []*Term
	for _, c := range conj(p) {
		if !qs[c] {
			rp = append(rp, c)
		}
	}
	ps := map[*Term]bool{}
	for _, c := range conj(p) {
		ps[c] = true
	}
	var rq []*Term
	for _, c := range conj(q) {
		if !ps[c] {
			rq = append(rq, c)
		}
	}
	rqs := map[*Term]bool{}
	for _, c := range rq {
		rqs[c] = true
	}
	for _, c := range rp { // one condition may decide
		if rqs[Not(c)] {
			return c
		}
	}
	a, b := And(rp...), And(rq...)
	if len(conj(a)) == 1 && a != True {
		return a
	}
	if len(conj(b)) == 1 && b != True {
		return Not(b)
	}
	if len(rp) <= len(rq) {
		return a
	}
	return Not(b)
}

// mergeStates joins two states with disjoint path conditions.
func (e *E) mergeStates(a, b *State) *State {
	if a == nil || a.pc == False {
		return b
	}
	if b == nil || b.pc == False {
		return a
	}
	c := discr(a.pc, b.pc)
	r := &State{mem: make(map[string]*MNode, len(a.mem)), pc: Or(a.pc, b.pc), env: map[interface{}]Val{}, log: a.log}
	for k, x := range a.mem {
		y, ok := b.mem[k]
		if !ok {
			y = e.node(b, k, x.leaf)
		}
		if x == y {
			r.mem[k] = x
		} else {
			r.mem[k] = newNode(&MNode{kind: nMerge, leaf: x.leaf, cond: c, a: x, b: y})
		}
	}
	for k, y := range b.mem {
		if _, ok := a.mem[k]; !ok {
			x := e.node(a, k, y.leaf)
			if x == y {
				r.mem[k] = x
			} else {
				r.mem[k] = newNode(&MNode{kind: nMerge, leaf: y.leaf, cond: c, a: x, b: y})
			}
		}
	}
	for k, x := range a.env {
		if y, ok := b.env[k]; ok {
			r.env[k] = mergeVal(c, x, y)
		}
	}
	// deferred calls: keep the union with their conditions
	r.dfr = append(r.dfr, a.dfr...)
	for _, d := range b.dfr {
		dup := false
		for _, x := range a.dfr {
			if x.call == d.call && x.cond == d.cond {
				dup = true
			}
		}
		if !dup {
			r.dfr = append(r.dfr, d)
		}
	}
	return r
}

func (n *MNode) String() string { return fmt.Sprintf("node%d", n.id) }
