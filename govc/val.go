package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: *Term (ints, bools), FV (floats), *Agg (struct, array),
// Ptr, Slice, Iface, FuncV, Tuple, Str, MapV, ChanV, or *Choice between shapes.
type Val interface{}

type Agg struct{ f []Val }
type Ptr struct {
	ref, idx *Term
	root     types.Type // element type of the region
	path     string     // ".0.2" below root
	arr      bool       // pointer to an array whose elements are the region cells idx, idx+1, ...
	lo, n    *Term      // in frames: the n cells from lo on (idx is nil)
}
type Slice struct {
	ref, off, len, cap *Term
	elem               types.Type
}
type Iface struct {
	tag, ref *Term // unknown dynamic type
	dyn      types.Type
	val      Val
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	id   *Term // unknown function value; 0 = nil
	recv Val   // bound receiver for bound-method thunks
}
type Tuple []Val
type Str struct {
	conc  string
	known bool
	id    *Term
	len   *Term
}
type RefV struct { // map or channel
	ref *Term
}
type Alt struct {
	c *Term
	v Val
}
type Choice struct{ alts []Alt } // first alternative whose condition holds

type Unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

var nilRef = IntC(0)

func und(t types.Type) types.Type { return t.Underlying() }

func isFloat(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := und(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zeroVal is the Go zero value of a type.
func zeroVal(t types.Type) Val {
	switch u := und(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			return FC(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return IntC(0)
		case u.Info()&types.IsString != 0:
			return Str{conc: "", known: true}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{ref: nilRef, idx: IntC(0)}
		}
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, zeroVal(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &Agg{}
		if u.Len() > 4096 {
			unsup("array too long")
		}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, zeroVal(u.Elem()))
		}
		return a
	case *types.Pointer:
		return Ptr{ref: nilRef, idx: IntC(0), root: u.Elem()}
	case *types.Slice:
		return Slice{nilRef, IntC(0), IntC(0), IntC(0), u.Elem()}
	case *types.Interface:
		return Iface{tag: IntC(0), ref: nilRef}
	case *types.Signature:
		return FuncV{id: IntC(0)}
	case *types.Map, *types.Chan:
		return RefV{nilRef}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zeroVal(u.At(i).Type()))
		}
		return tp
	}
	unsup("zero value of %v", t)
	return nil
}

// symVal builds a symbolic value of type t; leaf creates the scalar terms.
func (e *E) symVal(t types.Type, name string, args []*Term, old bool) Val {
	switch u := und(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsFloat != 0:
			return Fin(App(Real, name, args...))
		case u.Info()&types.IsBoolean != 0:
			return App(Bool, name, args...)
		case u.Info()&types.IsInteger != 0:
			x := App(Int, name, args...)
			e.rangeAxiom(name, u)
			return x
		case u.Info()&types.IsString != 0:
			l := App(Int, name+".len", args...)
			e.axiom(name+".len", func(x *Term) *Term { return Ge(x, IntC(0)) })
			return Str{id: App(Int, name, args...), len: l}
		}
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, e.symVal(u.Field(i).Type(), name+"."+u.Field(i).Name(), args, old))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, e.symVal(u.Elem(), name+"."+strconv.FormatInt(i, 10), args, old))
		}
		return a
	case *types.Pointer:
		r := App(Int, name+".ref", args...)
		if old {
			r.old = true
			e.axiom(name+".ref", func(x *Term) *Term { return Ge(x, IntC(0)) })
		}
		return Ptr{ref: r, idx: IntC(0), root: u.Elem()}
	case *types.Slice:
		r := App(Int, name+".ref", args...)
		if old {
			r.old = true
			e.axiom(name+".ref", func(x *Term) *Term { return Ge(x, IntC(0)) })
		}
		l := App(Int, name+".len", args...)
		e.axiom(name+".len", func(x *Term) *Term { return Ge(x, IntC(0)) })
		c := App(Int, name+".cap", args...)
		ln := name + ".len"
		e.axiom(name+".cap", func(x *Term) *Term {
			var lt *Term
			if x.op == OVar {
				lt = Var(Int, ln)
			} else {
				lt = App(Int, ln, x.args...)
			}
			return Ge(x, lt)
		})
		return Slice{r, IntC(0), l, c, u.Elem()}
	case *types.Interface:
		tg := App(Int, name+".tag", args...)
		r := App(Int, name+".ref", args...)
		if old {
			r.old = true
		}
		e.axiom(name+".tag", func(x *Term) *Term { return Ge(x, IntC(0)) })
		return Iface{tag: tg, ref: r}
	case *types.Signature:
		return FuncV{id: App(Int, name+".fn", args...)}
	case *types.Map, *types.Chan:
		r := App(Int, name+".ref", args...)
		if old {
			r.old = true
		}
		return RefV{r}
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, e.symVal(u.At(i).Type(), name+"#"+strconv.Itoa(i), args, old))
		}
		return tp
	}
	unsup("symbolic value of %v", t)
	return nil
}

func ptrEqShape(a, b Ptr) bool {
	return a.path == b.path && a.arr == b.arr && (a.root == b.root || a.root != nil && b.root != nil && types.Identical(a.root, b.root))
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case FV:
		y, ok := b.(FV)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x.ref == y.ref && x.idx == y.idx && ptrEqShape(x, y)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.ref == y.ref && x.off == y.off && x.len == y.len && x.cap == y.cap
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.dyn == nil || y.dyn == nil {
			return x.dyn == nil && y.dyn == nil && x.tag == y.tag && x.ref == y.ref
		}
		return types.Identical(x.dyn, y.dyn) && sameVal(x.val, y.val)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.id != y.id || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return x.recv == nil && y.recv == nil || x.recv != nil && y.recv != nil && sameVal(x.recv, y.recv)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Str:
		y, ok := b.(Str)
		return ok && x == y
	case RefV:
		y, ok := b.(RefV)
		return ok && x == y
	case *Choice:
		y, ok := b.(*Choice)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].c != y.alts[i].c || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

func alts(v Val) []Alt {
	if c, ok := v.(*Choice); ok {
		return c.alts
	}
	return []Alt{{True, v}}
}

// mkChoice: exclusive alternatives; drops impossible ones and merges equal ones.
func mkChoice(as []Alt) Val {
	var out []Alt
	for _, a := range as {
		if a.c == False {
			continue
		}
		merged := false
		for i := range out {
			if m, ok := tryMerge(a.c, a.v, out[i].v); ok {
				if sameVal(a.v, out[i].v) {
					out[i].c = Or(out[i].c, a.c)
				} else {
					out[i] = Alt{Or(out[i].c, a.c), m}
				}
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return as[0].v
	}
	if len(out) == 1 {
		return out[0].v
	}
	return &Choice{out}
}

func mergeVal(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	if m, ok := tryMerge(c, a, b); ok {
		return m
	}
	var as []Alt
	for _, x := range alts(a) {
		as = append(as, Alt{And(c, x.c), x.v})
	}
	nc := Not(c)
	for _, x := range alts(b) {
		as = append(as, Alt{And(nc, x.c), x.v})
	}
	return mkChoice(as)
}

func tryMerge(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return Ite(c, x, y), true
		}
	case FV:
		if y, ok := b.(FV); ok {
			return FIte(c, x, y), true
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.f) == len(y.f) {
			r := &Agg{f: make([]Val, len(x.f))}
			for i := range x.f {
				r.f[i] = mergeVal(c, x.f[i], y.f[i])
			}
			return r, true
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && ptrEqShape(x, y) {
			return Ptr{Ite(c, x.ref, y.ref), Ite(c, x.idx, y.idx), x.root, x.path, x.arr, nil, nil}, true
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			return Slice{Ite(c, x.ref, y.ref), Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap), x.elem}, true
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if x.dyn == nil && y.dyn == nil {
				return Iface{tag: Ite(c, x.tag, y.tag), ref: Ite(c, x.ref, y.ref)}, true
			}
			if x.dyn != nil && y.dyn != nil && types.Identical(x.dyn, y.dyn) {
				if m, ok := tryMerge(c, x.val, y.val); ok {
					return Iface{dyn: x.dyn, val: m}, true
				}
			}
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if x.fn == nil && y.fn == nil {
				return FuncV{id: Ite(c, x.id, y.id)}, true
			}
			if x.fn == y.fn && len(x.bind) == len(y.bind) {
				r := FuncV{fn: x.fn}
				for i := range x.bind {
					r.bind = append(r.bind, mergeVal(c, x.bind[i], y.bind[i]))
				}
				return r, true
			}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r, true
		}
	case RefV:
		if y, ok := b.(RefV); ok {
			return RefV{Ite(c, x.ref, y.ref)}, true
		}
	case Str:
		if y, ok := b.(Str); ok {
			return Str{id: Ite(c, strID(x), strID(y)), len: Ite(c, strLen(x), strLen(y))}, true
		}
	case nil:
		if b == nil {
			return nil, true
		}
	}
	return nil, false
}

var strIDs = map[string]int64{}

func strID(s Str) *Term {
	if !s.known {
		return s.id
	}
	if s.conc == "" {
		return IntC(0)
	}
	n, ok := strIDs[s.conc]
	if !ok {
		n = int64(len(strIDs) + 1)
		strIDs[s.conc] = n
	}
	return IntC(n)
}
func strLen(s Str) *Term {
	if s.known {
		return IntC(int64(len(s.conc)))
	}
	return s.len
}

// valEq is Go's == on symbolic values of type t.
func (e *E) valEq(a, b Val) *Term {
	if ca, ok := a.(*Choice); ok {
		var r []*Term
		for _, x := range ca.alts {
			r = append(r, And(x.c, e.valEq(x.v, b)))
		}
		return Or(r...)
	}
	if _, ok := b.(*Choice); ok {
		return e.valEq(b, a)
	}
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case FV:
		return FEq(x, b.(FV))
	case *Agg:
		y := b.(*Agg)
		var r []*Term
		for i := range x.f {
			r = append(r, e.valEq(x.f[i], y.f[i]))
		}
		return And(r...)
	case Ptr:
		y := b.(Ptr)
		if x.ref == nilRef || y.ref == nilRef {
			return Eq(x.ref, y.ref)
		}
		if !ptrEqShape(x, y) {
			return False
		}
		return And(Eq(x.ref, y.ref), Eq(x.idx, y.idx))
	case Slice:
		y := b.(Slice) // the language only compares with nil, specifications compare identity
		if y.ref == nilRef || x.ref == nilRef {
			return Eq(x.ref, y.ref)
		}
		return And(Eq(x.ref, y.ref), Eq(x.off, y.off), Eq(x.len, y.len))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("iface compare")
		}
		if x.dyn == nil && y.dyn == nil {
			return And(Eq(x.tag, y.tag), Or(Eq(x.tag, IntC(0)), Eq(x.ref, y.ref)))
		}
		if x.dyn != nil && y.dyn != nil {
			if !types.Identical(x.dyn, y.dyn) {
				return False
			}
			return e.valEq(x.val, y.val)
		}
		if x.dyn == nil {
			x, y = y, x
		}
		if y.tag.isInt(0) {
			return False
		}
		// known vs unknown
		if p, ok := x.val.(Ptr); ok {
			return And(Eq(y.tag, e.typeTag(x.dyn)), Eq(y.ref, p.ref))
		}
		unsup("iface compare known/unknown")
	case FuncV:
		y := b.(FuncV)
		if x.fn != nil && y.fn == nil && y.id.isInt(0) || y.fn != nil && x.fn == nil && x.id.isInt(0) {
			return False
		}
		if x.fn == nil && y.fn == nil {
			return Eq(x.id, y.id)
		}
		unsup("func compare")
	case Str:
		y := b.(Str)
		if x.known && y.known {
			return BoolC(x.conc == y.conc)
		}
		return Eq(strID(x), strID(y))
	case RefV:
		return Eq(x.ref, b.(RefV).ref)
	}
	unsup("compare %T", a)
	return nil
}

// valSame: identical contents (NaN same as NaN, slices by header), for frames.
func (e *E) valSame(a, b Val) *Term {
	if sameVal(a, b) {
		return True
	}
	switch x := a.(type) {
	case FV:
		return FSame(x, b.(FV))
	case *Agg:
		y := b.(*Agg)
		var r []*Term
		for i := range x.f {
			r = append(r, e.valSame(x.f[i], y.f[i]))
		}
		return And(r...)
	case Slice:
		y := b.(Slice)
		return And(Eq(x.ref, y.ref), Eq(x.off, y.off), Eq(x.len, y.len))
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if x.fn == nil && y.fn == nil {
				return Eq(x.id, y.id)
			}
			return False
		}
	}
	return e.valEq(a, b)
}

// leafTerms lists the scalar terms that determine a value (for UF arguments).
func (e *E) leafTerms(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case FV:
		// value and kind, so that the same number known to be finite in one place and not
		// known to be in another is the same argument
		if x.isFin() {
			return []*Term{x.v, IntC(0)}
		}
		return []*Term{Ite(x.fin(), x.v, RealI(0)), Ite(x.nan, IntC(1), Ite(x.pi, IntC(2), Ite(x.ni, IntC(3), IntC(0))))}
	case *Agg:
		var r []*Term
		for _, f := range x.f {
			r = append(r, e.leafTerms(f)...)
		}
		return r
	case Ptr:
		return []*Term{x.ref, x.idx}
	case Slice:
		return []*Term{x.ref, x.off, x.len}
	case Iface:
		if x.dyn == nil {
			return []*Term{x.tag, x.ref}
		}
		if p, ok := x.val.(Ptr); ok && p.path == "" && p.idx.isInt(0) {
			return []*Term{e.typeTag(x.dyn), p.ref}
		}
		return append([]*Term{e.typeTag(x.dyn)}, e.leafTerms(x.val)...)
	case FuncV:
		if x.fn == nil {
			return []*Term{x.id}
		}
		r := []*Term{IntC(e.fnID(x.fn))}
		for _, b := range x.bind {
			r = append(r, e.leafTerms(b)...)
		}
		return r
	case Tuple:
		var r []*Term
		for _, f := range x {
			r = append(r, e.leafTerms(f)...)
		}
		return r
	case Str:
		return []*Term{strID(x)}
	case RefV:
		return []*Term{x.ref}
	case *Choice:
		// align: all alternatives must have the same number of leaves
		var acc []*Term
		for i := len(x.alts) - 1; i >= 0; i-- {
			l := e.leafTerms(x.alts[i].v)
			if acc == nil {
				acc = l
				continue
			}
			if len(l) != len(acc) {
				unsup("choice leaves")
			}
			n := make([]*Term, len(l))
			for j := range l {
				n[j] = Ite(x.alts[i].c, l[j], acc[j])
			}
			acc = n
		}
		return acc
	}
	unsup("leafTerms %T", v)
	return nil
}

var keyMemo = map[types.Type]string{}

// typeKey names a type uniquely; aliases are resolved.
func typeKey(t types.Type) string {
	if k, ok := keyMemo[t]; ok {
		return k
	}
	k := types.TypeString(canon(t), func(p *types.Package) string {
		s := p.Path()
		return s[strings.LastIndex(s, "/")+1:]
	})
	keyMemo[t] = k
	return k
}

// canon resolves aliases within t.
func canon(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Alias:
		return canon(types.Unalias(u))
	case *types.Pointer:
		return types.NewPointer(canon(u.Elem()))
	case *types.Slice:
		return types.NewSlice(canon(u.Elem()))
	case *types.Array:
		return types.NewArray(canon(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(canon(u.Key()), canon(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), canon(u.Elem()))
	case *types.Struct:
		var fs []*types.Var
		var tags []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), canon(f.Type()), f.Embedded()))
			tags = append(tags, u.Tag(i))
		}
		return types.NewStruct(fs, tags)
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(t.At(i).Pos(), t.At(i).Pkg(), "", canon(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	}
	return t
}
