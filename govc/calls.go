package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Registry of specification functions found in the overlay files.
type Registry struct {
	checks    []*ssa.Function          // Cnn_* harnesses
	contracts map[string]*ssa.Function // modular contracts: target function name -> contract
	wildRes   map[*ssa.Function]bool
	local     map[*ssa.Function]bool
	ifaces    map[string]*ssa.Function // method name -> contract for unknown receivers
	pure      map[string]string        // options
}

func isOverlay(fset *token.FileSet, fn *ssa.Function) bool {
	if fn == nil || !fn.Pos().IsValid() {
		return false
	}
	f := fset.Position(fn.Pos()).Filename
	return strings.Contains(f, "/zz_verif")
}

func (e *E) callCommon(fr *frame, st *State, c *ssa.CallCommon, pos token.Pos) Val {
	var args []Val
	if c.IsInvoke() {
		args = append(args, e.val(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	var fv Val
	if !c.IsInvoke() {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return e.builtin(st, b, c, args, pos)
		}
		fv = e.val(st, c.Value)
	}
	return e.invokeVals(fr, st, c, fv, args, pos)
}

// invokeVals performs a call with evaluated operands; args[0] is the receiver for
// interface method calls.
func (e *E) invokeVals(fr *frame, st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) Val {
	if c.IsInvoke() {
		recv := args[0]
		return e.forAlts(st, recv, c.Signature().Results(), func(s *State, r Val) Val {
			i, ok := r.(Iface)
			if !ok {
				unsup("invoke on %T", r)
			}
			a := append([]Val{r}, args[1:]...)
			return e.invokeIface(s, i, c.Method, a, pos)
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, c, args, pos)
	}
	return e.forAlts(st, fv, c.Signature().Results(), func(s *State, f Val) Val {
		fn, ok := f.(FuncV)
		if !ok {
			unsup("call of %T", f)
		}
		return e.callFuncV(s, fn, c.Signature(), args, pos)
	})
}

// forAlts runs f for each alternative of v in its own state and merges.
func (e *E) forAlts(st *State, v Val, res *types.Tuple, f func(*State, Val) Val) Val {
	as := alts(v)
	if len(as) == 1 {
		return f(st, as[0].v)
	}
	var out *State
	var val Val
	env, dfr := st.env, st.dfr
	for _, a := range as {
		s := &State{mem: st.mem, pc: And(st.pc, simpUnder(a.c, st.pc)), log: st.log}
		if s.pc == False {
			continue
		}
		if e.spec == 0 && e.quickProve(s.pc, False) {
			continue
		}
		s = s.clone()
		r := f(s, a.v)
		if s.pc == False {
			continue
		}
		s.env = nil
		if out == nil {
			out, val = s, r
			continue
		}
		val = mergeVal(discr(out.pc, s.pc), val, r)
		out = e.mergeStates(out, s)
	}
	if out == nil {
		st.pc = False
		return e.deadVal2(res)
	}
	st.mem, st.pc = out.mem, out.pc
	st.env, st.dfr = env, dfr
	return val
}

func (e *E) deadVal2(t *types.Tuple) Val {
	if t.Len() == 0 {
		return Tuple{}
	}
	return e.deadVal(t)
}

func (e *E) callFuncV(st *State, f FuncV, sig *types.Signature, args []Val, pos token.Pos) Val {
	if f.fn == nil {
		e.oblige(st, "nil", "call of nil function", Not(Eq(f.id, IntC(0))), pos)
		// unknown pure function: deterministic in its arguments
		name := "fn:" + typeKey(sig)
		ua := []*Term{f.id}
		for _, a := range args {
			ua = append(ua, e.leafTerms(a)...)
		}
		if sig.Results().Len() == 0 {
			return Tuple{}
		}
		if sig.Results().Len() == 1 {
			return e.symVal(sig.Results().At(0).Type(), name, ua, true)
		}
		return e.symVal(sig.Results(), name, ua, true)
	}
	return e.callFn(st, f.fn, args, f.bind, pos)
}

func (e *E) callFn(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) Val {
	if st.pc == False {
		return e.deadVal2(fn.Signature.Results())
	}
	if isOverlay(e.fset, fn) && fn.Parent() == nil {
		if v, ok := e.intrinsic(st, fn, args, pos); ok {
			return v
		}
	}
	name := fn.RelString(nil)
	if v, ok := e.stdModel(st, fn, name, args, pos); ok {
		e.modelled[name]++
		return v
	}
	if e.pureFn != "" && fnName(fn) == e.pureFn && fn.Signature.Results().Len() == 1 {
		// known only as some function of its argument values
		var ua []*Term
		for _, a := range args {
			ua = append(ua, e.leafTerms(a)...)
		}
		return e.symWild(fn.Signature.Results().At(0).Type(), "pf:"+e.pureFn, ua)
	}
	if e.reg != nil {
		if c, ok := e.reg.contracts[fnName(fn)]; ok {
			if e.useContract(fn, c) {
				return e.applyContract(st, fnName(fn), fn, c, args, pos)
			}
			if e.curUse != nil && e.curUse.fn == fn && e.inUse[c] > 0 && !e.curUse.called {
				e.curUse.called = true
				return e.havocCall(st, fn, c, args)
			}
			if e.curFn == c && e.useMode == 0 && e.spec == 0 && len(e.stack) == 1 {
				return e.framedCall(st, fn, args, bind, pos)
			}
		}
	}
	if len(fn.Blocks) == 0 || !inRepo(fn) {
		// method wrappers/thunks have bodies but no package
		if fn.Synthetic != "" && len(fn.Blocks) > 0 {
			return e.inlineCall(st, fn, args, bind)
		}
		if e.lenient {
			return e.lenientResult(fn.Signature)
		}
		unsup("external function %s", name)
	}
	return e.inlineCall(st, fn, args, bind)
}

func (e *E) lenientResult(sig *types.Signature) Val {
	if sig.Results().Len() == 0 {
		return Tuple{}
	}
	if sig.Results().Len() == 1 {
		return e.symVal(sig.Results().At(0).Type(), e.freshName("ext"), nil, true)
	}
	return e.symVal(sig.Results(), e.freshName("ext"), nil, true)
}

// useContract: inside its own verification the body is executed once; every other
// call is replaced by the contract.
func (e *E) useContract(fn, c *ssa.Function) bool {
	if e.noContracts || e.reg.local[c] && (e.curFn == nil || e.curFn.Name()[:3] != c.Name()[:3]) {
		return false
	}
	if e.inUse[c] > 0 {
		return false // the raw call inside the contract itself
	}
	if e.curFn == c {
		for _, f := range e.stack {
			if f == fn {
				return true // recursive call
			}
		}
		return false
	}
	return true
}

// applyContract executes the contract function in use mode. Inside, the call to the
// target yields an unconstrained result.
func (e *E) applyContract(st *State, key string, fn *ssa.Function, c *ssa.Function, args []Val, pos token.Pos) Val {
	e.usedC[c.Name()] = true
	e.inUse[c]++
	e.useMode++
	save := e.curUse
	e.curUse = &useCtx{key: key, fn: fn, contract: c, pos: pos}
	defer func() { e.inUse[c]--; e.useMode--; e.curUse = save }()
	return e.inlineCall(st, c, args, nil)
}

// havocCall stands for the target of a contract in use: any result, and any new content
// of what the contract says is modified.
func (e *E) havocCall(st *State, fn, c *ssa.Function, args []Val) Val {
	nm := e.freshName("ct:" + fn.Name())
	for i, p := range e.curUse.mods {
		e.havocAt(st, p, fmt.Sprintf("%s.m%d", nm, i))
	}
	res := fn.Signature.Results()
	mk := e.symVal
	if e.reg.wildRes[c] {
		mk = func(t types.Type, nm string, a []*Term, old bool) Val { return e.symWild(t, nm, a) }
	}
	switch res.Len() {
	case 0:
		return Tuple{}
	case 1:
		return mk(res.At(0).Type(), nm, nil, false)
	}
	var tp Tuple
	for k := 0; k < res.Len(); k++ {
		tp = append(tp, mk(res.At(k).Type(), nm+"#"+strconv.Itoa(k), nil, false))
	}
	return tp
}

func (e *E) havocAt(st *State, p Ptr, nm string) {
	leafT := map[string]types.Type{}
	var walk func(t types.Type, path string)
	walk = func(t types.Type, path string) {
		leaves(t, path, func(lp string, lt types.Type) { leafT[lp] = lt })
	}
	walk(typeAt(p.root, p.path), p.path)
	for lp, lt := range leafT {
		k := memKey(p.root, lp)
		prev := e.node(st, k, lt)
		ref, idx := p.ref, p.idx
		n := &MNode{kind: nHavoc, leaf: lt, name: nm + ":" + k, a: prev, pred: func(r, i *Term) *Term {
			c := Eq(r, ref)
			if idx != nil {
				c = And(c, Eq(i, idx))
			} else if p.n != nil {
				c = And(c, Le(p.lo, i), Lt(i, Add(p.lo, p.n)))
			}
			return c
		}}
		st.mem[k] = newNode(n)
		if st.log != nil {
			*st.log = append(*st.log, wrec{k, lt, ref, idx})
		}
	}
}

func typeAt(t types.Type, path string) types.Type {
	for _, f := range strings.Split(path, ".") {
		if f == "" {
			continue
		}
		i, _ := strconv.Atoi(f)
		switch u := und(t).(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

// framedCall executes the target of the contract being verified and obliges it to modify
// nothing but what the contract lists, and to return finite numbers unless stated.
func (e *E) framedCall(st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) Val {
	mem := make(map[string]*MNode, len(st.mem))
	for a, b := range st.mem {
		mem[a] = b
	}
	sn := snap{"frame", mem, e.nalloc}
	lg := st.log
	st.log = &[]wrec{}
	r := e.inlineCall(st, fn, args, bind)
	f := e.frameFormula(st, sn, e.mods)
	if lg != nil {
		*lg = append(*lg, *st.log...)
	}
	st.log = lg
	if st.pc == False {
		return r
	}
	if f != True {
		e.oblige(st, "frame", "modifies nothing else", f, pos)
	}
	if !e.reg.wildRes[e.curFn] {
		if g := finTerm(r); g != True {
			e.oblige(st, "finite", "finite result", g, pos)
		}
	}
	return r
}

func finTerm(v Val) *Term {
	switch x := v.(type) {
	case FV:
		return x.fin()
	case *Agg:
		r := True
		for _, f := range x.f {
			r = And(r, finTerm(f))
		}
		return r
	case Tuple:
		r := True
		for _, f := range x {
			r = And(r, finTerm(f))
		}
		return r
	case *Choice:
		r := True
		for _, a := range alts(x) {
			r = And(r, Imp(a.c, finTerm(a.v)))
		}
		return r
	}
	return True
}

type useCtx struct {
	called   bool
	mods     []Ptr
	key      string
	fn       *ssa.Function
	contract *ssa.Function
	pos      token.Pos
}

func (e *E) invokeIface(st *State, i Iface, m *types.Func, args []Val, pos token.Pos) Val {
	sig := m.Type().(*types.Signature)
	if i.dyn != nil {
		fn := e.prog.LookupMethod(i.dyn, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %v of %v", m, i.dyn)
		}
		return e.callFn(st, fn, append([]Val{i.val}, args[1:]...), nil, pos)
	}
	if i.tag.isInt(0) {
		e.oblige(st, "nil", "method call on nil interface", False, pos)
		st.pc = False
		return e.deadVal2(sig.Results())
	}
	nn := Not(Eq(i.tag, IntC(0)))
	if simpUnder(nn, st.pc) != True {
		e.oblige(st, "nil", "method call on nil interface "+m.Name(), nn, pos)
	}
	// objects that may be of the named type are told apart
	if e.devirt != "" {
		for _, t := range e.tagTypes {
			if strings.ReplaceAll(types.TypeString(canon(t), nil), modPath+"/", "") != e.devirt ||
				!types.Implements(t, m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)) {
				continue
			}
			is := Eq(i.tag, e.typeTag(t))
			if is == False || e.decide(st.pc, Not(is)) == True {
				break
			}
			fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
			con := Iface{tag: i.tag, ref: i.ref, dyn: t, val: e.unbox(i, t)}
			ch := mkChoice([]Alt{{is, con}, {Not(is), i}})
			return e.forAlts(st, ch, sig.Results(), func(s *State, v Val) Val {
				dv := e.devirt
				e.devirt = ""
				defer func() { e.devirt = dv }()
				if v.(Iface).dyn != nil {
					return e.callFn(s, fn, append([]Val{con.val}, args[1:]...), nil, pos)
				}
				return e.invokeIface(s, i, m, args, pos)
			})
		}
	}
	// a value carried by a loop whose invariant determines its type
	if mentions(i.tag, "L") {
		for _, t := range e.tagTypes {
			if !types.Implements(t, m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)) {
				continue
			}
			fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
			if fn != nil && e.quickProve(st.pc, Eq(i.tag, e.typeTag(t))) {
				return e.callFn(st, fn, append([]Val{e.unbox(i, t)}, args[1:]...), nil, pos)
			}
		}
	}
	if c, ok := e.reg.ifaces[m.Name()]; ok && !e.noIface && e.inUse[c] == 0 && types.Identical(sigNoRecv(sig), contractSig(c)) {
		e.usedC[c.Name()] = true
		return e.applyContract(st, m.Name(), nil, c, args, pos)
	}
	return e.rawIface(st, i, m, args, pos)
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, stripTuple(s.Params(), 0), stripTuple(s.Results(), 0), s.Variadic())
}

func stripTuple(t *types.Tuple, from int) *types.Tuple {
	var vs []*types.Var
	for i := from; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func contractSig(c *ssa.Function) *types.Signature {
	s := c.Signature
	return types.NewSignatureType(nil, nil, nil, stripTuple(s.Params(), 1), stripTuple(s.Results(), 0), s.Variadic())
}

// rawIface: result of an unknown object's method. Deterministic in receiver and
// argument contents unless the method is declared nondeterministic.
func (e *E) rawIface(st *State, i Iface, m *types.Func, args []Val, pos token.Pos) Val {
	sig := m.Type().(*types.Signature)
	if sig.Results().Len() == 0 {
		return Tuple{}
	}
	var ua []*Term
	ua = append(ua, i.tag, i.ref)
	for k, a := range args[1:] {
		ua = append(ua, e.contentTerms(st, a, sig.Params().At(k).Type())...)
	}
	name := "if:" + m.Name()
	if e.reg.pure["nondet:"+m.Name()] != "" {
		name = e.freshName(name)
		ua = nil
	}
	mk := func(t types.Type, nm string) Val {
		if e.reg.pure["wild:"+m.Name()] != "" {
			return e.symWild(t, nm, ua)
		}
		v := e.symVal(t, nm, ua, true)
		if ag, ok := v.(*Agg); ok && (e.reg.pure["wildT:"+m.Name()] != "" || e.wildT == m.Name()) { // only the first field is arbitrary
			c := &Agg{f: append([]Val(nil), ag.f...)}
			c.f[0] = e.wildFV(nm+".0w", ua...)
			return c
		}
		return v
	}
	if sig.Results().Len() == 1 {
		return mk(sig.Results().At(0).Type(), name)
	}
	var tp Tuple
	for k := 0; k < sig.Results().Len(); k++ {
		tp = append(tp, mk(sig.Results().At(k).Type(), name+"#"+strconv.Itoa(k)))
	}
	return tp
}

// contentTerms: scalar terms describing an argument; small structs behind pointers
// (rays) count by content, contexts not at all.
func (e *E) contentTerms(st *State, a Val, t types.Type) []*Term {
	if p, ok := und(t).(*types.Pointer); ok {
		tk := typeKey(p.Elem())
		if strings.HasSuffix(tk, ".Ctx") {
			return nil
		}
		if strings.HasSuffix(tk, ".Ray") {
			if _, isC := a.(*Choice); isC {
				unsup("choice of rays")
			}
			pp := a.(Ptr)
			v := e.load(st, pp, p.Elem())
			r := e.leafTerms(v.(*Agg).f[0])
			return append(r, e.leafTerms(v.(*Agg).f[1])...)
		}
	}
	return e.leafTerms(a)
}

// ---------- builtins ----------

func (e *E) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Slice:
			if b.Name() == "cap" {
				return x.cap
			}
			return x.len
		case Str:
			return strLen(x)
		case *Agg:
			return IntC(int64(len(x.f)))
		case Ptr:
			n := und(c.Args[0].Type()).(*types.Pointer).Elem()
			return IntC(und(n).(*types.Array).Len())
		case RefV:
			r := App(Int, "reflen", x.ref)
			e.axiom("reflen", func(t *Term) *Term { return Ge(t, IntC(0)) })
			return r
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case Slice:
			e.appendAlias(st, s, pos)
			return e.appendSlice(st, s, y)
		case Str:
			unsup("append string")
		}
	case "copy":
		d, ok1 := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if ok1 && ok2 {
			n := Ite(Le(d.len, s.len), d.len, s.len)
			if d.len == s.len {
				n = d.len
			}
			e.copyRegion(st, d.elem, d.ref, d.off, s.ref, s.off, n)
			return n
		}
	case "min", "max":
		if f, ok := args[0].(FV); ok {
			r := f
			for _, a := range args[1:] {
				g := a.(FV)
				if b.Name() == "min" {
					r = fminmax(r, g, true)
				} else {
					r = fminmax(r, g, false)
				}
			}
			return r
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if b.Name() == "min" {
				r = Ite(Le(r, y), r, y)
			} else {
				r = Ite(Ge(r, y), r, y)
			}
		}
		return r
	case "print", "println":
		return Tuple{}
	case "close":
		return Tuple{}
	case "delete":
		return Tuple{}
	case "ssa:wrapnilchk":
		e.nilCheck(st, args[0], pos)
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

type appendRec struct {
	s   Slice
	pos token.Pos
	pc  *Term
}

// appendAlias: two appends to the same slice must not share its spare capacity, since
// the second would overwrite what the first stored.
func (e *E) appendAlias(st *State, s Slice, pos token.Pos) {
	if e.spec > 0 || s.len == s.cap || s.ref == nilRef {
		return
	}
	root := func(r *Term) *Term {
		for e.sliceRoot[r] != nil {
			r = e.sliceRoot[r]
		}
		return r
	}
	for _, a := range e.appends {
		if a.pos != pos && root(a.s.ref) == root(s.ref) && a.s.off == s.off && (a.s.len == s.len || a.s.ref != s.ref) {
			both := simpUnder(a.pc, st.pc)
			if both == False {
				continue
			}
			e.oblige(st, "append", "append does not overwrite another slice's elements", Or(Not(both), Eq(s.len, s.cap)), pos)
			break
		}
	}
	e.appends = append(e.appends, appendRec{s, pos, st.pc})
}

func (e *E) appendSlice(st *State, s, y Slice) Val {
	n := Add(s.len, y.len)
	// in-place growth is not observable here: the result is modelled as a fresh array
	// (assumption: no live alias of the spare capacity).
	r := e.alloc(st, s.elem)
	e.copyRegion(st, s.elem, r, IntC(0), s.ref, s.off, s.len)
	if k, ok := y.len.constInt(); ok && k <= 64 {
		for i := int64(0); i < k; i++ {
			v := e.load(st, Ptr{ref: y.ref, idx: Add(y.off, IntC(i)), root: y.elem}, y.elem)
			e.store(st, Ptr{ref: r, idx: Add(s.len, IntC(i)), root: s.elem}, s.elem, v, True)
		}
	} else {
		e.copyRegion(st, s.elem, r, s.len, y.ref, y.off, y.len)
	}
	cap := Var(Int, e.freshName("cap"))
	e.fact(True, Ge(cap, n))
	return Slice{r, IntC(0), n, cap, s.elem}
}

func fminmax(a, b FV, min bool) FV {
	lt := FLt(a, b)
	if !min {
		lt = FLt(b, a)
	}
	r := FIte(lt, a, b)
	r.nan = Or(a.nan, b.nan)
	if r.nan != False {
		r.pi = And(r.pi, Not(r.nan))
		r.ni = And(r.ni, Not(r.nan))
	}
	return r
}

// ---------- goroutines and channels ----------

func (e *E) goStmt(fr *frame, st *State, x *ssa.Go) {
	unsup("go statement")
}

func (e *E) chanSend(st *State, x *ssa.Send) {
	unsup("channel send")
}

// ---------- specification intrinsics ----------

func (e *E) intrinsic(st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	switch fn.Name() {
	case "requires":
		c := args[0].(*Term)
		if e.curUse != nil && e.useMode > 0 {
			if e.spec > 0 {
				st.pc = And(st.pc, c)
				return Tuple{}, true
			}
			e.oblige(st, "requires", "precondition of "+e.curUse.key, c, e.curUse.pos)
			return Tuple{}, true
		}
		for _, p := range goalParts(c) {
			if hasForall(p) || p.ht > 14 {
				e.fact(st.pc, p)
			} else {
				st.pc = And(st.pc, p)
			}
		}
		return Tuple{}, true
	case "ensures":
		c := args[1].(*Term)
		nm := "ensures"
		if s, ok := args[0].(Str); ok {
			nm = s.conc
		}
		if e.useMode > 0 {
			if e.without == "" || !strings.Contains(nm, e.without) {
				e.fact(st.pc, c)
			}
			return Tuple{}, true
		}
		e.oblige(st, "ensures", nm, c, pos)
		e.fact(st.pc, c)
		return Tuple{}, true
	case "lemma":
		// as ensures, but the formula is kept as written so that it helps later proofs
		sv := e.noSplitPrune
		e.noSplitPrune = true
		c := e.evalIn(st, args[1].(FuncV), nil)
		e.noSplitPrune = sv
		if e.useMode == 0 {
			e.oblige(st, "lemma", args[0].(Str).conc, c, pos)
		}
		e.fact(st.pc, c)
		return Tuple{}, true
	case "calcInt", "calcReal":
		// an equation, proved here, by which later obligations are rewritten from left to right
		name := args[0].(Str).conc
		var a, b, c *Term
		if fn.Name() == "calcInt" {
			a, b = args[1].(*Term), args[2].(*Term)
			c = Eq(a, b)
		} else {
			c = FEq(args[1].(FV), args[2].(FV))
			a, b = args[1].(FV).v, args[2].(FV).v
		}
		if e.useMode == 0 {
			e.oblige(st, "lemma", name, c, pos)
		}
		e.fact(st.pc, c)
		if a != nil && b != nil && a.op != OConst && a != b && !contains(b, a) {
			e.rewr = append(e.rewr, rewrule{a, b, st.pc})
		}
		return Tuple{}, true
	case "forallInt":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(FuncV)
		if a, ok := lo.constInt(); ok {
			if b, ok := hi.constInt(); ok && b-a <= 8 {
				r := True
				for k := a; k < b; k++ {
					r = And(r, e.evalIn(st, f, []Val{IntC(k)}))
				}
				return r, true
			}
		}
		e.fresh++
		v := Var(Int, fmt.Sprintf("?i%d", e.fresh))
		g := And(Le(lo, v), Lt(v, hi))
		body := e.underBinder(st, []*Term{v}, g, f, []Val{v})
		return Forall([]*Term{v}, Imp(g, body)), true
	case "existsInt":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(FuncV)
		e.fresh++
		v := Var(Int, fmt.Sprintf("?i%d", e.fresh))
		g := And(Le(lo, v), Lt(v, hi))
		body := e.underBinder(st, []*Term{v}, g, f, []Val{v})
		return Not(Forall([]*Term{v}, Not(And(g, body)))), true
	case "forallReal":
		f := args[0].(FuncV)
		e.fresh++
		v := Var(Real, fmt.Sprintf("?r%d", e.fresh))
		body := e.underBinder(st, []*Term{v}, True, f, []Val{Fin(v)})
		return Forall([]*Term{v}, body), true
	case "existsReal":
		f := args[0].(FuncV)
		e.fresh++
		v := Var(Real, fmt.Sprintf("?r%d", e.fresh))
		body := e.underBinder(st, []*Term{v}, True, f, []Val{Fin(v)})
		return Not(Forall([]*Term{v}, Not(body))), true
	case "eq":
		return FEq(args[0].(FV), args[1].(FV)), true
	case "le":
		return FLe(args[0].(FV), args[1].(FV)), true
	case "same":
		return FSame(args[0].(FV), args[1].(FV)), true
	case "eqx":
		return e.valEq(args[0].(Iface).val, args[1].(Iface).val), true
	case "samex":
		return e.valSame(args[0].(Iface).val, args[1].(Iface).val), true
	case "loopinv":
		if e.useMode > 0 {
			return Tuple{}, true
		}
		i, ok := args[0].(Iface)
		if !ok {
			unsup("loopinv argument")
		}
		e.invs = append(e.invs, i.val.(FuncV))
		return Tuple{}, true
	case "wild":
		// arbitrary IEEE value
		return e.wildFV(e.freshName("wild")), true
	case "anyfloat":
		return Fin(Var(Real, e.freshName("anyf"))), true
	case "exactFloat32":
		e.round32 = false
		return Tuple{}, true
	case "roundFloat32":
		e.round32 = true
		return Tuple{}, true
	case "snapshot":
		e.fresh++
		k := fmt.Sprintf("snap%d", e.fresh)
		mem := make(map[string]*MNode, len(st.mem))
		for a, b := range st.mem {
			mem[a] = b
		}
		e.snaps = append(e.snaps, snap{k, mem, e.nalloc})
		if st.log == nil {
			st.log = &[]wrec{}
		}
		return IntC(int64(len(e.snaps) - 1)), true
	case "unchanged":
		// nothing allocated before the snapshot differs now, except the listed pointers
		k, _ := args[0].(*Term).constInt()
		sn := e.snaps[k]
		except := e.ptrArgs(st, args[1])
		return e.frameFormula(st, sn, except), true
	case "modifies":
		ps := e.ptrArgs(st, args[0])
		if e.useMode > 0 && e.curUse != nil {
			e.curUse.mods = append(e.curUse.mods, ps...)
		} else {
			e.mods = append(e.mods, ps...)
		}
		return Tuple{}, true
	case "wellposed", "wellposedf":
		return Tuple{}, true
	case "ghost":
		// uninterpreted predicate of an object and a value
		o := args[1].(Iface)
		if o.dyn != nil {
			return True, true // nothing is claimed about objects built by the code itself
		}
		ua := append([]*Term{o.tag, o.ref}, e.leafTerms(args[2].(Iface).val)...)
		return App(Bool, "ghost:"+args[0].(Str).conc, ua...), true
	case "holds": // the value of a specification, evaluated apart from the program's branches
		return e.evalPred(st, args[0].(FuncV), nil), true
	case "printedInt": // the k-th (non-blank) operand of a text written by fmt
		b := args[0].(Slice)
		return App(Int, "printedInt", b.ref, args[1].(*Term)), true
	case "entryInt", "entryReal": // a value as it was when the loop was entered
		f := args[0].(FuncV)
		if len(e.entries) == 0 {
			unsup("%s outside of a loop invariant", fn.Name())
		}
		s := st.clone()
		s.mem = e.entries[len(e.entries)-1].clone().mem
		s.log = nil
		e.spec++
		defer func() { e.spec-- }()
		return e.inlineCall(s, f.fn, nil, f.bind), true
	case "printedCount":
		b := args[0].(Slice)
		if n, ok := e.printed[b.ref]; ok {
			return IntC(n), true
		}
		return App(Int, "printedCount", b.ref), true
	case "printedString":
		b := args[0].(Slice)
		return Str{id: App(Int, "printedString", b.ref, args[1].(*Term)), len: Var(Int, e.freshName("strlen"))}, true
	case "thorough":
		return BoolC(tier == "thorough"), true
	case "define":
		e.fact(st.pc, e.evalPred(st, args[0].(FuncV), nil))
		return Tuple{}, true
	case "assumeFact": // named, listed assumption
		c := args[1].(*Term)
		nm := args[0].(Str).conc
		e.assumed[nm] = true
		e.fact(st.pc, c)
		return Tuple{}, true
	}
	return nil, false
}

func (e *E) ptrArgs(st *State, a Val) (except []Ptr) {
	sl, ok := a.(Slice)
	if !ok {
		return
	}
	n, _ := sl.len.constInt()
	for j := int64(0); j < n; j++ {
		v := e.load(st, Ptr{ref: sl.ref, idx: Add(sl.off, IntC(j)), root: sl.elem}, sl.elem)
		i := v.(Iface)
		switch p := i.val.(type) {
		case Ptr:
			except = append(except, p)
		case Slice:
			except = append(except, Ptr{ref: p.ref, idx: nil, root: p.elem, lo: p.off, n: p.len})
		default:
			unsup("frame: %T", i.val)
		}
	}
	return
}

type snap struct {
	name   string
	mem    map[string]*MNode
	nalloc int
}

// frameFormula: every location written since the snapshot holds its old value, unless
// it was allocated later or is excepted.
func (e *E) frameFormula(st *State, sn snap, except []Ptr) *Term {
	if st.log == nil {
		return True
	}
	var cs []*Term
	done := map[string]bool{}
	for _, w := range *st.log {
		if c, ok := w.ref.constInt(); ok && c < int64(-sn.nalloc) && c > -1000000000 {
			continue
		}
		old := sn.mem[w.key]
		if old == nil {
			old = e.baseMem[w.key]
		}
		cur := st.mem[w.key]
		if cur == nil || cur == old {
			continue
		}
		idx := w.idx
		guard := True
		if idx == nil {
			e.fresh++
			idx = Var(Int, fmt.Sprintf("?i%d", e.fresh))
		}
		k := fmt.Sprintf("%s/%d/%d", w.key, w.ref.id, idx.id)
		if done[k] {
			continue
		}
		done[k] = true
		skip := false
		for _, p := range except {
			pk := typeKey(p.root) + p.path
			if w.key == pk || strings.HasPrefix(w.key, pk+".") {
				c := Eq(w.ref, p.ref)
				if p.idx != nil && !p.arr {
					c = And(c, Eq(idx, p.idx))
				}
				if p.idx == nil && p.n != nil {
					c = And(c, Le(p.lo, idx), Lt(idx, Add(p.lo, p.n)))
				}
				if c == True {
					skip = true
				}
				guard = And(guard, Not(c))
			}
		}
		if skip {
			continue
		}
		a, b := e.readNode(cur, w.ref, idx), e.readNode(old, w.ref, idx)
		body := Imp(guard, e.valSame(a, b))
		if idx.op == OVar && idx.bound {
			body = Forall([]*Term{idx}, body)
		}
		cs = append(cs, body)
	}
	return And(cs...)
}

func (e *E) evalIn(st *State, f FuncV, args []Val) *Term {
	s := st.clone()
	s.log = nil
	e.spec++
	defer func() { e.spec-- }()
	v := e.inlineCall(s, f.fn, args, f.bind)
	return v.(*Term)
}

// underBinder evaluates a closure on bound variables; facts about them are generalised.
func (e *E) underBinder(st *State, vars []*Term, guard *Term, f FuncV, args []Val) *Term {
	s := st.clone()
	s.log = nil
	s.pc = And(s.pc, guard)
	n := len(e.facts)
	e.spec++
	v := e.inlineCall(s, f.fn, args, f.bind)
	e.spec--
	for i := n; i < len(e.facts); i++ {
		if e.facts[i].bound {
			e.facts[i] = Forall(vars, e.facts[i])
		}
	}
	return v.(*Term)
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		return inRepo(fn.Parent())
	}
	if p == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath) || stdBodies[p.Pkg.Path()]
}
