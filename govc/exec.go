package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	name   string
	pos    string
	pc     *Term
	goal   *Term
	nfacts int
	kind   string
}

type E struct {
	prog         *ssa.Program
	fset         *token.FileSet
	facts        []*Term
	obligs       []Oblig
	baseMem      map[string]*MNode
	initMem      map[string]*MNode
	nalloc       int
	quiet        int // no obligations
	spec         int // executing specification code
	useMode      int // executing a contract in use mode
	quick        *quickZ3
	ntrivial     int
	nquick       int
	fresh        int
	stack        []*ssa.Function
	made         map[string][]*Term
	pureFn       string
	appends      []appendRec
	sliceRoot    map[*Term]*Term
	devirt       string
	wildT        string
	noIface      bool
	globals      map[*ssa.Global]*Term
	tags         map[string]*Term
	tagTypes     []types.Type
	fnIDs        map[*ssa.Function]int64
	lenient      bool
	executed     map[string]int
	modelled     map[string]int
	loops        map[string]string
	cInfo        map[*ssa.Function]*cfgInfo
	reg          *Registry
	curName      string
	curFn        *ssa.Function
	invs         []FuncV
	usedC        map[string]bool
	inUse        map[*ssa.Function]int
	round32      bool
	trace        bool
	allocT       map[int64]types.Type
	maxUnroll    int
	qcache       map[string]string
	bounds       []*Term
	chans        map[string]*chanModel
	ghost        map[string]Val
	noSplitPrune bool
	unitName     string
	peel         int
	deadline     time.Time
	specFn       map[*ssa.Function]bool
	noContracts  bool
	without      string // clauses of used contracts (by name) that the proof does without
	mods         []Ptr
	opaque       map[*Term]bool
	curUse       *useCtx
	snaps        []snap
	printed      map[*Term]int64
	rewr         []rewrule
	entries      []*State // on entry of the loops whose invariants are being evaluated
	assumed      map[string]bool
}

type chanModel struct{}

func (e *E) freshName(p string) string {
	e.fresh++
	return fmt.Sprintf("%s!%d", p, e.fresh)
}

func (e *E) fact(pc, f *Term) {
	t := Imp(pc, f)
	if t != True {
		e.facts = append(e.facts, t)
	}
}

func (e *E) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if e.quiet > 0 || e.spec > 0 {
		return
	}
	g := simpUnder(goal, st.pc)
	if st.pc == False {
		g = True
	}
	if g == True && kind != "ensures" {
		e.ntrivial++
		return
	}
	pc0 := st.pc
	if len(e.rewr) > 0 {
		has := map[*Term]bool{}
		for _, c := range conj(pc0) {
			has[c] = true
		}
		for _, r := range e.rewr {
			ok := true
			for _, c := range conj(r.pc) {
				ok = ok && has[c] // proved on this very path
			}
			if !ok {
				continue
			}
			m := map[*Term]*Term{r.a: r.b}
			g = subst(g, m)
			pc0 = subst(pc0, m)
		}
	}
	e.obligs = append(e.obligs, Oblig{name: name, pos: e.posStr(pos), pc: pc0, goal: g, nfacts: len(e.facts), kind: kind})
	if kind != "ensures" && g != True {
		// execution continues only where the check passed
		st.pc = And(st.pc, g)
	}
}

// rewrule is an equation proved by calcInt or calcReal, under the path condition pc.
type rewrule struct{ a, b, pc *Term }

func (e *E) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

// isSpecFn: fn is a specification function other than the contract being verified.
func (e *E) isSpecFn(fn *ssa.Function) bool {
	r, ok := e.specFn[fn]
	if !ok {
		r = strings.Contains(e.fset.Position(fn.Pos()).Filename, "/zz_verif_") && fn.Name() != e.unitName
		if e.specFn == nil {
			e.specFn = map[*ssa.Function]bool{}
		}
		e.specFn[fn] = r
	}
	return r
}

// decide tries to establish cond (or its negation) under pc cheaply.
func (e *E) decide(pc, cond *Term) *Term {
	c := simpUnder(cond, pc)
	if c == True || c == False || e.noSplitPrune {
		return c
	}
	if e.quickProve(pc, c) {
		return True
	}
	return c
}

var qdebug = os.Getenv("GOVC_Q") != ""

func (e *E) quickProve(pc, goal *Term) bool {
	if goal == True || pc == False {
		return true
	}
	if goal == False && pc == True {
		return false
	}
	k := fmt.Sprintf("%d/%d/%d", pc.id, goal.id, len(e.facts))
	if r, ok := e.qcache[k]; ok {
		return r == "unsat"
	}
	t0 := time.Now()
	r := e.quickRun(pc, goal)
	if d := time.Since(t0); qdebug && d > 50*time.Millisecond {
		fn := ""
		if len(e.stack) > 0 {
			fn = fnName(e.stack[len(e.stack)-1])
		}
		gs := goal.String()
		if len(gs) > 150 {
			gs = gs[:150]
		}
		fmt.Fprintf(os.Stderr, "  [quick] %.2fs %s %s %s\n", d.Seconds(), r, fn, gs)
	}
	e.qcache[k] = r
	return r == "unsat"
}

func (e *E) quickRun(pc, goal *Term) string {
	if polyProve(goal) {
		return "unsat"
	}
	rel := relevant(e.facts, []*Term{pc, goal}, 1)
	if len(rel) > 60 {
		rel = rel[len(rel)-60:]
	}
	lm := litMap(pc)
	hyps := []*Term{pc}
	for _, f := range rel {
		hyps = append(hyps, nnf(subst(f, lm), true))
	}
	hyps = append(hyps, nnf(goal, false))
	hyps = propagate(hyps)
	if hyps == nil {
		return "unsat"
	}
	g := instantiate(hyps, hyps[len(hyps)-1], 1, 40)
	g = propagate(abstractForalls(g))
	if g == nil {
		return "unsat"
	}
	g = addAxioms(g)
	n := 0
	subterms(g, func(*Term) { n++ })
	if n > 3000 {
		return "unknown"
	}
	s := smtlib(unbind(g), smtOpts{purify: true})
	e.nquick++
	if e.quick == nil {
		e.quick = newQuick()
	}
	if lin, ch := linearize(g); ch {
		r := e.quick.check(smtlib(unbind(lin), smtOpts{purify: true}), 200)
		if r == "dead" {
			e.quick = newQuick()
		}
		if r == "unsat" {
			return r
		}
		if r == "sat" && !nonlinear(goal) {
			return "unknown" // a linear goal is rarely decided by the non-linear hypotheses
		}
	}
	ms := 400
	if strings.Contains(s, "QF_NRA") || strings.Count(s, "(* ") > 20 {
		ms = 100
	}
	r := e.quick.check(s, ms)
	if r == "dead" {
		e.quick = newQuick()
	}
	return r
}

func nonlinear(t *Term) bool {
	r := false
	subterms([]*Term{t}, func(x *Term) {
		if x.op == OMul && x.sort == Real {
			n := 0
			for _, a := range x.args {
				if a.op != OConst {
					n++
				}
			}
			r = r || n > 1
		}
	})
	return r
}

// unbind turns bound variables into constants (for queries under a binder).
func unbind(ts []*Term) []*Term {
	m := map[*Term]*Term{}
	subterms(ts, func(t *Term) {
		if t.op == OVar && t.bound {
			m[t] = Var(t.sort, "bv!"+t.name[1:])
		}
	})
	if len(m) == 0 {
		return ts
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = subst(t, m)
	}
	return addAxioms(out)
}

func (e *E) rangeAxiom(name string, b *types.Basic) {
	lo, hi, ok := intRange(b)
	if !ok {
		return
	}
	e.axiom(name, func(x *Term) *Term { return And(Ge(x, IntR(lo)), Le(x, IntR(hi))) })
}

func intRange(b *types.Basic) (lo, hi *big.Rat, ok bool) {
	p := func(n uint) *big.Rat { return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n)) }
	one := big.NewRat(1, 1)
	sub := func(a *big.Rat) *big.Rat { return new(big.Rat).Sub(a, one) }
	neg := func(a *big.Rat) *big.Rat { return new(big.Rat).Neg(a) }
	switch b.Kind() {
	case types.Uint8:
		return new(big.Rat), sub(p(8)), true
	case types.Uint16:
		return new(big.Rat), sub(p(16)), true
	case types.Uint32:
		return new(big.Rat), sub(p(32)), true
	case types.Uint64, types.Uint, types.Uintptr:
		return new(big.Rat), sub(p(64)), true
	case types.Int8:
		return neg(p(7)), sub(p(7)), true
	case types.Int16:
		return neg(p(15)), sub(p(15)), true
	case types.Int32:
		return neg(p(31)), sub(p(31)), true
	}
	return nil, nil, false
}

func (e *E) typeTag(t types.Type) *Term {
	k := types.TypeString(canon(t), nil)
	if x, ok := e.tags[k]; ok {
		return x
	}
	x := IntC(int64(len(e.tags) + 1))
	e.tags[k] = x
	e.tagTypes = append(e.tagTypes, t)
	return x
}

func (e *E) fnID(f *ssa.Function) int64 {
	if n, ok := e.fnIDs[f]; ok {
		return n
	}
	n := int64(len(e.fnIDs) + 1)
	e.fnIDs[f] = -n
	return -n
}

// ---------- control flow ----------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
	ord   map[*ssa.BasicBlock]int
}

func (e *E) cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := e.cInfo[fn]; ok {
		return c
	}
	c := &cfgInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, ord: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for i, b := range c.rpo {
		c.ord[b] = i
	}
	n := 0
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
					n++
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.cInfo[fn] = c
	return c
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type frame struct {
	fn       *ssa.Function
	cfg      *cfgInfo
	rets     []retRec
	concrete bool // an exit test of the current loop was decided concretely
	symbolic bool // some loop exit condition was not decided
	curLoop  *loopInfo
	bind     []Val
}

type retRec struct {
	st  *State
	val Val
}

// inlineCall executes fn's body.
func (e *E) inlineCall(st *State, fn *ssa.Function, args, bind []Val) Val {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	depth := 0
	for _, f := range e.stack {
		if f == fn {
			depth++
		}
	}
	if depth >= 3 || len(e.stack) > 60 {
		unsup("recursion without contract: %s", fn)
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if e.spec == 0 {
		e.executed[fnName(fn)]++
	}
	fr := &frame{fn: fn, cfg: e.cfg(fn), bind: bind}
	in := &State{mem: st.mem, pc: st.pc, env: map[interface{}]Val{}, log: st.log}
	in = in.clone()
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		in.env[fv] = bind[i]
	}
	e.runRegion(fr, fn.Blocks[0], []edge{{nil, in}}, nil, nil, false)
	var out *State
	var val Val
	for _, r := range fr.rets {
		if r.st.pc == False {
			continue
		}
		if out == nil {
			out, val = r.st, r.val
			continue
		}
		c := discr(out.pc, r.st.pc)
		val = mergeVal(c, val, r.val)
		a, b := out, r.st
		a.env, b.env = nil, nil
		out = e.mergeStates(a, b)
	}
	if out == nil {
		st.pc = False
		if fn.Signature.Results().Len() == 0 {
			return Tuple{}
		}
		return e.deadVal(fn.Signature.Results())
	}
	st.mem = out.mem
	st.pc = out.pc
	return val
}

func (e *E) deadVal(t *types.Tuple) Val {
	if t.Len() == 1 {
		return zeroVal(t.At(0).Type())
	}
	return zeroVal(t)
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}

// runRegion executes blocks reachable from start inside region (nil = all).
// Edges leaving the region (or returning to hdr) are handed back.
func (e *E) runRegion(fr *frame, start *ssa.BasicBlock, in []edge, region map[*ssa.BasicBlock]bool, hdr *ssa.BasicBlock, phisDone bool) map[*ssa.BasicBlock][]edge {
	pending := map[*ssa.BasicBlock][]edge{start: in}
	exits := map[*ssa.BasicBlock][]edge{}
	push := func(to *ssa.BasicBlock, ed edge) {
		if ed.st.pc == False {
			return
		}
		if to == hdr || region != nil && !region[to] {
			exits[to] = append(exits[to], ed)
			return
		}
		pending[to] = append(pending[to], ed)
	}
	for _, b := range fr.cfg.rpo[fr.cfg.ord[start]:] {
		eds := pending[b]
		if len(eds) == 0 {
			continue
		}
		delete(pending, b)
		if l := fr.cfg.loops[b]; l != nil && b != hdr {
			for to, es := range e.runLoop(fr, l, eds) {
				for _, ed := range es {
					push(to, ed)
				}
			}
			continue
		}
		var st *State
		if b == start && phisDone {
			st = eds[0].st
		} else {
			st = e.joinEdges(b, eds)
		}
		e.execBlock(fr, b, st, push)
	}
	return exits
}

// joinEdges evaluates phis on each incoming edge and merges.
func (e *E) joinEdges(b *ssa.BasicBlock, eds []edge) *State {
	var out *State
	for _, ed := range eds {
		s := ed.st
		var phis []*ssa.Phi
		var vals []Val
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == ed.from {
					phis = append(phis, p)
					vals = append(vals, e.val(s, p.Edges[i]))
					break
				}
			}
		}
		if len(eds) > 1 || len(phis) > 0 {
			s = s.clone()
		}
		for i, p := range phis {
			s.env[p] = vals[i]
		}
		out = e.mergeStates(out, s)
	}
	return out
}

func (e *E) execBlock(fr *frame, b *ssa.BasicBlock, st *State, push func(*ssa.BasicBlock, edge)) {
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		unsup("obligation generation exceeded its time budget")
	}
	for _, in := range b.Instrs {
		if st.pc == False {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.val(st, x.Cond).(*Term)
			c = simpUnder(c, st.pc)
			if c != True && c != False && e.spec == 0 && !(fr.curLoop == nil && (e.useMode > 0 || e.isSpecFn(fr.fn))) {
				if e.quickProve(st.pc, c) {
					c = True
				} else if e.quickProve(st.pc, Not(c)) {
					c = False
				}
			}
			if fr.curLoop != nil && fr.curLoop.blocks[b] {
				ex := !fr.curLoop.blocks[b.Succs[0]] || !fr.curLoop.blocks[b.Succs[1]]
				if ex && (c == True || c == False) {
					fr.concrete = true
				} else if ex {
					fr.symbolic = true
				}
			}
			if c == True {
				push(b.Succs[0], edge{b, st})
				return
			}
			if c == False {
				push(b.Succs[1], edge{b, st})
				return
			}
			s2 := st.clone()
			st.pc = And(st.pc, c)
			s2.pc = And(s2.pc, Not(c))
			push(b.Succs[0], edge{b, st})
			push(b.Succs[1], edge{b, s2})
			return
		case *ssa.Jump:
			push(b.Succs[0], edge{b, st})
			return
		case *ssa.Return:
			var v Val
			switch len(x.Results) {
			case 0:
				v = Tuple{}
			case 1:
				v = e.val(st, x.Results[0])
			default:
				tp := Tuple{}
				for _, r := range x.Results {
					tp = append(tp, e.val(st, r))
				}
				v = tp
			}
			fr.rets = append(fr.rets, retRec{st, v})
			return
		case *ssa.Panic:
			e.oblige(st, "panic", "no panic", False, x.Pos())
			st.pc = False
			return
		default:
			e.instr(fr, st, in)
		}
	}
}

// ---------- loops ----------

func (e *E) runLoop(fr *frame, l *loopInfo, in []edge) map[*ssa.BasicBlock][]edge {
	s0 := e.joinEdges(l.header, in)
	saveLoop, saveConc, saveSym := fr.curLoop, fr.concrete, fr.symbolic
	defer func() { fr.curLoop, fr.concrete, fr.symbolic = saveLoop, saveConc, saveSym }()
	loopName := fmt.Sprintf("%s loop@%s", fnName(fr.fn), e.posStr(loopPos(l)))
	// attempt unrolling
	nf, no, nr := len(e.facts), len(e.obligs), len(fr.rets)
	exits := map[*ssa.BasicBlock][]edge{}
	st := s0.clone()
	ok := false
	limit := e.maxUnroll
	for it := 0; it < limit; it++ {
		fr.curLoop = l
		fr.concrete, fr.symbolic = false, false
		ex := e.runRegion(fr, l.header, []edge{{nil, st}}, l.blocks, l.header, true)
		conc := fr.concrete
		for to, es := range ex {
			if to == l.header {
				continue
			}
			exits[to] = append(exits[to], es...)
		}
		back := ex[l.header]
		if len(back) == 0 {
			ok = true
			break
		}
		if !conc || fr.symbolic && (it >= 8 || it >= 3 && len(e.invs) > 0) {
			break
		}
		st = e.joinEdges(l.header, back)
	}
	if ok {
		if e.spec == 0 {
			e.loops[loopName] = "unrolled completely"
		}
		return exits
	}
	e.facts = e.facts[:nf]
	e.obligs = e.obligs[:no]
	fr.rets = fr.rets[:nr]
	if e.spec == 0 {
		e.loops[loopName] = "invariant"
	}
	if e.peel == 0 {
		return e.invLoop(fr, l, s0, loopName)
	}
	// execute the first iterations as they are, the invariant covers the rest
	exits = map[*ssa.BasicBlock][]edge{}
	st = s0.clone()
	for it := 0; it <= e.peel; it++ {
		var ex map[*ssa.BasicBlock][]edge
		if it == e.peel {
			ex = e.invLoop(fr, l, st, loopName)
		} else {
			fr.curLoop = l
			ex = e.runRegion(fr, l.header, []edge{{nil, st}}, l.blocks, l.header, true)
		}
		for to, es := range ex {
			if to != l.header {
				exits[to] = append(exits[to], es...)
			}
		}
		if it == e.peel || len(ex[l.header]) == 0 {
			break
		}
		st = e.joinEdges(l.header, ex[l.header])
	}
	return exits
}

func loopPos(l *loopInfo) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

type havocLoc struct {
	ref, idx *Term // idx nil: all indices; ref nil: all refs
}

// mentionsLoop: t depends on a variable of loop number n or of one inside it.
func mentionsLoop(t *Term, n int) bool {
	r := false
	subterms([]*Term{t}, func(x *Term) {
		if x.op != OVar && x.op != OApp {
			return
		}
		nm := strings.TrimPrefix(x.name, "W")
		if strings.HasPrefix(nm, "L") {
			if i := strings.IndexByte(nm, '!'); i > 0 {
				if k, err := strconv.Atoi(nm[1:i]); err == nil && k >= n {
					r = true
				}
			}
		}
	})
	return r
}

func mentions(t *Term, prefix string) bool {
	r := false
	subterms([]*Term{t}, func(x *Term) {
		if (x.op == OVar || x.op == OApp) && strings.HasPrefix(x.name, prefix) {
			r = true
		}
	})
	return r
}

func (e *E) wildFV(name string, args ...*Term) FV {
	f := FV{App(Bool, name+".nan", args...), App(Bool, name+".pinf", args...), App(Bool, name+".ninf", args...), App(Real, name, args...)}
	base := name
	ex := func(x *Term) *Term {
		a, b, c := App(Bool, base+".nan", x.args...), App(Bool, base+".pinf", x.args...), App(Bool, base+".ninf", x.args...)
		return And(Or(Not(a), Not(b)), Or(Not(a), Not(c)), Or(Not(b), Not(c)))
	}
	e.axiom(name+".nan", ex)
	e.axiom(name+".pinf", ex)
	e.axiom(name+".ninf", ex)
	return f
}

// symWild: like symVal but floats are arbitrary IEEE values.
func (e *E) symWild(t types.Type, name string, args []*Term) Val {
	switch u := und(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return e.wildFV(name, args...)
		}
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, e.symWild(u.Field(i).Type(), name+"."+u.Field(i).Name(), args))
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, e.symWild(u.Elem(), name+"."+strconv.FormatInt(i, 10), args))
		}
		return a
	}
	return e.symVal(t, name, args, false)
}

func allFin(v Val) bool {
	switch x := v.(type) {
	case FV:
		return x.isFin()
	case *Agg:
		for _, f := range x.f {
			if !allFin(f) {
				return false
			}
		}
	case *Choice:
		for _, a := range x.alts {
			if !allFin(a.v) {
				return false
			}
		}
	}
	return true
}

func (e *E) invLoop(fr *frame, l *loopInfo, s0 *State, loopName string) map[*ssa.BasicBlock][]edge {
	e.fresh++
	prefix := fmt.Sprintf("L%d!", e.fresh)
	it := Var(Int, prefix+"it")
	e.axiom(prefix+"it", func(x *Term) *Term { return Ge(x, IntC(0)) })
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	type phiMode struct {
		mode string // sym, wild, linear, const
		step *Term
	}
	modes := make([]phiMode, len(phis))
	for i, p := range phis {
		modes[i].mode = "sym"
		_ = p
	}
	locs := map[string][]havocLoc{}
	leafT := map[string]types.Type{}
	wildKey := map[string]bool{}

	// appended slices: every iteration works on an array of its own (see appendSlice)
	sliceRef := make([]*Term, len(phis))
	for i, p := range phis {
		if _, ok := und(p.Type()).(*types.Slice); ok {
			e.nalloc++
			sliceRef[i] = IntC(-int64(e.nalloc))
			if in, ok := s0.env[p].(Slice); ok && in.ref != nilRef {
				if e.sliceRoot == nil {
					e.sliceRoot = map[*Term]*Term{}
				}
				e.sliceRoot[sliceRef[i]] = in.ref
			}
		}
	}
	allocMark := int64(-e.nalloc)
	head := func() *State {
		s := s0.clone()
		for i, p := range phis {
			init := s0.env[p]
			nm := fmt.Sprintf("%s%d", prefix, i)
			switch modes[i].mode {
			case "const":
				s.env[p] = init
			case "linear":
				s.env[p] = Add(init.(*Term), Mul(modes[i].step, it))
			case "wild":
				s.env[p] = e.symWild(p.Type(), nm, nil)
			case "appended":
				sl := e.symVal(p.Type(), nm, nil, false).(Slice)
				sl.ref, sl.off = sliceRef[i], IntC(0)
				s.env[p] = sl
			default:
				if _, ok := und(p.Type()).(*types.Pointer); ok {
					nm = fmt.Sprintf("%s!%d", nm, -allocMark)
				}
				s.env[p] = e.symVal(p.Type(), nm, nil, false)
				if q, ok := s.env[p].(Ptr); ok {
					// objects made by earlier iterations are not those this iteration makes
					// (which have the numbers below allocMark)
					s.pc = And(s.pc, Or(Ge(q.ref, IntC(allocMark)), Le(q.ref, IntC(-1000000000))))
					q.ref.mark = allocMark
				}
			}
		}
		keys := make([]string, 0, len(locs))
		for k := range locs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			ls := locs[k]
			lt := leafT[k]
			prev := e.node(s0, k, lt)
			n := &MNode{kind: nHavoc, leaf: lt, name: prefix + "M:" + k, a: prev, pred: func(ref, idx *Term) *Term {
				var r []*Term
				for _, x := range ls {
					if x.ref == nil {
						return True
					}
					c := Eq(ref, x.ref)
					if x.idx != nil {
						c = And(c, Eq(idx, x.idx))
					}
					r = append(r, c)
				}
				return Or(r...)
			}}
			if wildKey[k] {
				n.name = "W" + n.name
				n.wild = true
			}
			s.mem[k] = newNode(n)
		}
		return s
	}
	loopNo := e.fresh
	varies := func(t *Term) bool { return mentionsLoop(t, loopNo) }
	addLoc := func(w wrec) bool {
		if w.ref.op == OIte {
			unsup("ite ref in write log")
		}
		var h havocLoc
		if c, ok := w.ref.constInt(); ok && c < allocMark {
			return false // allocated inside this iteration
		}
		if varies(w.ref) {
			h = havocLoc{}
		} else {
			h.ref = w.ref
			if w.idx != nil && !varies(w.idx) {
				h.idx = w.idx
			}
		}
		leafT[w.key] = w.leaf
		for i, x := range locs[w.key] {
			if x.ref == nil || x.ref == h.ref && (x.idx == nil || x.idx == h.idx) {
				return false
			}
			if h.ref == nil || x.ref == h.ref && h.idx == nil {
				locs[w.key][i] = h
				return true
			}
		}
		locs[w.key] = append(locs[w.key], h)
		return true
	}
	// run executes one iteration from the head state; returns back edge state and exits.
	var backEdges []edge // of the last run
	run := func(h *State) (*State, map[*ssa.BasicBlock][]edge) {
		fr.curLoop = l
		ex := e.runRegion(fr, l.header, []edge{{nil, h}}, l.blocks, l.header, true)
		var back *State
		if len(ex[l.header]) > 0 {
			back = e.joinEdges(l.header, ex[l.header])
		}
		backEdges = ex[l.header]
		delete(ex, l.header)
		return back, ex
	}
	// candidate invariants
	type cand struct {
		name string
		f    func(s *State, iter *Term) *Term
	}
	var cands []cand
	candsBuilt := false

	nf0, nr0 := len(e.facts), len(fr.rets)
	evalC := func(c cand, s *State, iter *Term) (r *Term) {
		e.entries = append(e.entries, s0)
		defer func() { e.entries = e.entries[:len(e.entries)-1] }()
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(Unsupported); ok {
					r = nil
					return
				}
				panic(x)
			}
		}()
		return c.f(s, iter)
	}

	// phase 1: shapes and write set to a fixpoint
	shapeRound := func(assume func(h *State)) bool {
		h := head()
		var lg []wrec
		saved := h.log
		h.log = &lg
		if assume != nil {
			assume(h)
		}
		hv := make([]Val, len(phis))
		for i, p := range phis {
			hv[i] = h.env[p]
		}
		e.quiet++
		back, _ := run(h.cloneKeepLog())
		e.quiet--
		fr.rets = fr.rets[:nr0]
		changed := false
		for i, p := range phis {
			if back == nil {
				break
			}
			nx := back.env[p]
			switch modes[i].mode {
			case "sym":
				if sameVal(nx, hv[i]) {
					modes[i].mode = "const"
					changed = true
					break
				}
				if sl, ok := nx.(Slice); ok {
					in, ok2 := s0.env[p].(Slice)
					if c, ok3 := sl.ref.constInt(); ok2 && ok3 && c < allocMark {
						if _, isSl := s0.env[p].(Slice); isSl && in.ref != nil {
							modes[i].mode = "appended"
							changed = true
							break
						}
					}
				}
				if !allFin(nx) || !allFin(s0.env[p]) {
					modes[i].mode = "wild"
					changed = true
					break
				}
				if t, ok := nx.(*Term); ok && t.sort == Int && isInteger(p.Type()) {
					d := Sub(t, hv[i].(*Term))
					if d.isConst() {
						modes[i] = phiMode{"linear", d}
						changed = true
					}
				}
			case "appended":
				sl, ok := nx.(Slice)
				if ok {
					var c int64
					c, ok = sl.ref.constInt()
					ok = ok && (c < allocMark || sl.ref == sliceRef[i])
				}
				if !ok {
					modes[i].mode = "sym!"
					changed = true
				}
			case "const":
				if !sameVal(nx, s0.env[p]) {
					modes[i].mode = "sym!"
					changed = true
				}
			case "sym!":
				if !allFin(nx) || !allFin(s0.env[p]) {
					modes[i].mode = "wild"
					changed = true
				}
			case "linear":
				if t, ok := nx.(*Term); !ok || Sub(t, hv[i].(*Term)) != modes[i].step {
					modes[i].mode = "sym!"
					changed = true
				}
			}
		}
		for _, w := range lg {
			if addLoc(w) {
				changed = true
			}
		}
		// wildness of havocked float leaves
		for k, ls := range locs {
			if wildKey[k] || !isFloat(leafT[k]) {
				continue
			}
			for _, x := range ls {
				if x.ref == nil {
					continue
				}
				ix := x.idx
				if ix == nil {
					ix = Var(Int, prefix+"anyidx")
				}
				chk := func(s *State) {
					if s != nil && !allFin(e.readNode(e.node(s, k, leafT[k]), x.ref, ix)) {
						wildKey[k] = true
						changed = true
					}
				}
				chk(s0)
				chk(back)
			}
		}
		_ = saved
		return changed
	}
	for r := 0; ; r++ {
		if r > 12 {
			unsup("loop shape does not stabilise: %s", loopName)
		}
		ch := shapeRound(nil)
		e.facts = e.facts[:nf0]
		if !ch {
			break
		}
	}
	build := func() {
		candsBuilt = true
		// automatic bounds from exit tests
		for b := range l.blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			in0, in1 := l.blocks[b.Succs[0]], l.blocks[b.Succs[1]]
			if in0 == in1 || b != l.header {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !isInteger(bo.X.Type()) {
				continue
			}
			cands = append(cands, cand{"auto:exit-bound", func(s *State, iter *Term) *Term {
				x, y := e.pureVal(s, bo.X, l), e.pureVal(s, bo.Y, l)
				if x == nil || y == nil {
					return nil
				}
				switch bo.Op {
				case token.LSS, token.LEQ:
					r := Le(x, y)
					if bo.Op == token.LEQ {
						r = Le(x, Add(y, IntC(1)))
					}
					return r
				case token.GTR, token.GEQ:
					if bo.Op == token.GEQ {
						return Ge(x, Sub(y, IntC(1)))
					}
					return Ge(x, y)
				case token.NEQ:
					return Le(x, y)
				}
				return nil
			}})
		}
		// non-negativity and sign of integer phis, finiteness of floats
		for i, p := range phis {
			p := p
			if isInteger(p.Type()) && (modes[i].mode == "sym" || modes[i].mode == "sym!") {
				init, _ := s0.env[p].(*Term)
				cands = append(cands, cand{"auto:nonneg", func(s *State, iter *Term) *Term {
					x, _ := s.env[p].(*Term)
					if x == nil {
						return nil
					}
					return Ge(x, IntC(0))
				}})
				if init != nil {
					cands = append(cands, cand{"auto:ge-init", func(s *State, iter *Term) *Term {
						x, _ := s.env[p].(*Term)
						if x == nil {
							return nil
						}
						return Ge(x, init)
					}}, cand{"auto:le-init", func(s *State, iter *Term) *Term {
						x, _ := s.env[p].(*Term)
						if x == nil {
							return nil
						}
						return Le(x, init)
					}})
				}
			}
			if _, ok := und(p.Type()).(*types.Pointer); ok && modes[i].mode != "const" {
				cands = append(cands, cand{"auto:not-nil", func(s *State, iter *Term) *Term {
					q, ok := s.env[p].(Ptr)
					if !ok {
						return nil
					}
					return Not(Eq(q.ref, nilRef))
				}})
			}
			if isFloat(p.Type()) && modes[i].mode == "wild" {
				cands = append(cands, cand{"auto:not-nan", func(s *State, iter *Term) *Term {
					x, ok := s.env[p].(FV)
					if !ok {
						return nil
					}
					return Not(x.nan)
				}}, cand{"auto:finite", func(s *State, iter *Term) *Term {
					x, ok := s.env[p].(FV)
					if !ok {
						return nil
					}
					return x.fin()
				}})
			}
		}
		// templates from the specification
		for ti, inv := range e.invs {
			for bi, bd := range e.bindings(inv, l, phis, s0) {
				inv, bd := inv, bd
				cands = append(cands, cand{fmt.Sprintf("template%d.%d", ti, bi), func(s *State, iter *Term) *Term {
					args := make([]Val, len(bd))
					for i, f := range bd {
						args[i] = f(s, iter)
						if args[i] == nil {
							return nil
						}
					}
					return e.evalPred(s, inv, args)
				}})
			}
		}
	}
	_ = candsBuilt
	build()
	// phase 2: initiation
	var live []cand
	it0 := IntC(0)
	for _, c := range cands {
		n := len(e.facts)
		g := evalC(c, s0, it0)
		if g == nil {
			e.facts = e.facts[:n]
			continue
		}
		if e.proveNow(s0.pc, g) {
			live = append(live, c)
		} else if e.trace {
			fmt.Fprintf(os.Stderr, "  [inv] %s %s fails initially\n", loopName, c.name)
		}
		e.facts = e.facts[:n]
	}
	// phase 3: consecution (Houdini)
	assume := func(h *State) {
		for _, c := range live {
			if g := evalC(c, h, it); g != nil {
				for _, p := range goalParts(g) {
					if !hasForall(p) && p.ht < 12 {
						h.pc = And(h.pc, p)
					} else {
						e.fact(h.pc, p)
					}
				}
			}
		}
	}
	initial := live
	houdini := func() {
		for round := 0; round < 20; round++ {
			for shapeRound(assume) { // writes may only become visible under invariants
				e.facts = e.facts[:nf0]
			}
			e.facts = e.facts[:nf0]
			h := head()
			assume(h)
			e.quiet++
			back, _ := run(h)
			e.quiet--
			fr.rets = fr.rets[:nr0]
			var next []cand
			for _, c := range live {
				if back == nil {
					next = append(next, c)
					continue
				}
				n := len(e.facts)
				g := evalC(c, back, Add(it, IntC(1)))
				ok := g != nil && e.proveNow(back.pc, g)
				if g != nil && !ok && strings.HasPrefix(c.name, "template") && len(backEdges) > 1 && len(backEdges) <= 4 {
					ok = true // way by way
					for _, be := range backEdges {
						b1 := e.joinEdges(l.header, []edge{be})
						g1 := evalC(c, b1, Add(it, IntC(1)))
						if g1 == nil || !e.proveNow(b1.pc, g1) {
							ok = false
							break
						}
					}
				}
				if ok {
					next = append(next, c)
				} else if e.trace {
					fmt.Fprintf(os.Stderr, "  [inv] %s %s not preserved\n", loopName, c.name)
				}
				e.facts = e.facts[:n]
			}
			done := len(next) == len(live)
			live = next
			e.facts = e.facts[:nf0]
			if done {
				break
			}
		}
	}
	houdini()
	// a template none of whose bindings survived may have been disturbed by its own
	// wrong bindings: each of them gets another try without the others
	tmpl := func(c cand) string {
		if i := strings.IndexByte(c.name, '.'); i > 0 && strings.HasPrefix(c.name, "template") {
			return c.name[:i]
		}
		return ""
	}
	count := func(cs []cand) map[string]int {
		m := map[string]int{}
		for _, c := range cs {
			m[tmpl(c)]++
		}
		return m
	}
	was, is := count(initial), count(live)
	for _, c := range initial {
		t := tmpl(c)
		if t == "" || was[t] < 2 || was[t] > 4 || is[t] > 0 {
			continue
		}
		kept := live
		live = append(append([]cand{}, live...), c)
		houdini()
		if n := count(live); n[t] > 0 {
			is = n
		} else {
			live = kept
		}
	}
	if e.trace && e.quiet == 0 {
		var ns []string
		for _, c := range live {
			ns = append(ns, c.name)
		}
		fmt.Fprintf(os.Stderr, "  [loop] %s: invariants %v\n", loopName, ns)
	}
	// final pass
	h := head()
	assume(h)
	_, ex := run(h)
	return ex
}

func (s *State) cloneKeepLog() *State { return s.clone() }

// pureVal evaluates an integer SSA value defined in the loop header (cheap recomputation).
func (e *E) pureVal(s *State, v ssa.Value, l *loopInfo) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			r = nil
		}
	}()
	switch x := v.(type) {
	case *ssa.BinOp:
		if l.blocks[x.Block()] {
			a, b := e.pureVal(s, x.X, l), e.pureVal(s, x.Y, l)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.ADD:
				return Add(a, b)
			case token.SUB:
				return Sub(a, b)
			case token.MUL:
				return Mul(a, b)
			}
			return nil
		}
	case *ssa.Call:
		if l.blocks[x.Block()] {
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a := x.Call.Args[0]; a != nil {
					if sl, ok := e.pureAny(s, a, l).(Slice); ok {
						return sl.len
					}
				}
			}
			return nil
		}
	case *ssa.Phi:
	case *ssa.UnOp:
		if l.blocks[x.Block()] {
			t, _ := e.pureAny(s, v, l).(*Term)
			return t
		}
	}
	t, _ := e.val(s, v).(*Term)
	return t
}

func (e *E) pureAny(s *State, v ssa.Value, l *loopInfo) Val {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && l.blocks[u.Block()] {
		p := e.pureAny(s, u.X, l)
		if pp, ok := p.(Ptr); ok {
			return e.load(s, pp, u.Type())
		}
		return nil
	}
	if f, ok := v.(*ssa.FieldAddr); ok && l.blocks[f.Block()] {
		p := e.pureAny(s, f.X, l)
		if pp, ok := p.(Ptr); ok {
			return Ptr{ref: pp.ref, idx: pp.idx, root: pp.root, path: pp.path + "." + strconv.Itoa(f.Field)}
		}
		return nil
	}
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
		if _, isPhi := v.(*ssa.Phi); !isPhi {
			return nil
		}
	}
	return e.val(s, v)
}

// bindings enumerates ways to bind a template's parameters to loop-carried values.
func (e *E) bindings(inv FuncV, l *loopInfo, phis []*ssa.Phi, s0 *State) [][]func(*State, *Term) Val {
	ps := inv.fn.Params
	choices := make([][]func(*State, *Term) Val, len(ps))
	for i, p := range ps {
		if p.Name() == "it" {
			choices[i] = append(choices[i], func(_ *State, it *Term) Val { return it })
			continue
		}
		if strings.HasPrefix(p.Name(), "any_") {
			// any value visible at the loop (parameters, values defined before it)
			var keys []ssa.Value
			for k := range s0.env {
				v, ok := k.(ssa.Value)
				if ok && types.Identical(v.Type(), p.Type()) {
					keys = append(keys, v)
				}
			}
			sort.Slice(keys, func(a, b int) bool { return keys[a].Name() < keys[b].Name() })
			var seenV []Val
		nextKey:
			for _, k := range keys {
				k := k
				for _, sv := range seenV {
					if sameVal(sv, s0.env[k]) {
						if _, isphi := k.(*ssa.Phi); !isphi {
							continue nextKey
						}
					}
				}
				seenV = append(seenV, s0.env[k])
				choices[i] = append(choices[i], func(s *State, _ *Term) Val { return s.env[k] })
			}
			continue
		}
		for _, ph := range phis {
			ph := ph
			if types.Identical(ph.Type(), p.Type()) {
				choices[i] = append(choices[i], func(s *State, _ *Term) Val { return s.env[ph] })
			}
		}
		// address-taken locals of the right type
		var cells []ssa.Value
		for k := range s0.env {
			v, ok := k.(ssa.Value)
			if !ok {
				continue
			}
			pt, ok := und(v.Type()).(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), p.Type()) {
				continue
			}
			if _, ok := s0.env[k].(Ptr); !ok {
				continue
			}
			switch v.(type) {
			case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter:
				cells = append(cells, v)
			}
		}
		sort.Slice(cells, func(a, b int) bool { return cells[a].Name() < cells[b].Name() })
		for _, c := range cells {
			c := c
			t := p.Type()
			choices[i] = append(choices[i], func(s *State, _ *Term) Val {
				pp, ok := s.env[c].(Ptr)
				if !ok {
					return nil
				}
				return e.load(s, pp, t)
			})
		}
	}
	out := [][]func(*State, *Term) Val{{}}
	for i := range ps {
		var nx [][]func(*State, *Term) Val
		for _, o := range out {
			for _, c := range choices[i] {
				nx = append(nx, append(append([]func(*State, *Term) Val(nil), o...), c))
			}
		}
		out = nx
		if len(out) > 64 {
			out = out[:64]
		}
	}
	return out
}

// evalPred evaluates a boolean specification closure in state s without side effects.
func (e *E) evalPred(s *State, f FuncV, args []Val) *Term {
	st := s.clone()
	st.log = nil
	st.pc = True
	e.spec++
	defer func() { e.spec-- }()
	nf := len(e.facts)
	v := e.inlineCall(st, f.fn, args, f.bind)
	// facts produced under pc=True must be guarded by the state's pc
	for i := nf; i < len(e.facts); i++ {
		e.facts[i] = Imp(s.pc, e.facts[i])
	}
	return v.(*Term)
}

// proveNow discharges an invariant candidate synchronously.
func (e *E) proveNow(pc, g *Term) bool {
	g = simpUnder(g, pc)
	for _, p := range goalParts(g) {
		if p == True {
			continue
		}
		if !hasForall(p) && e.quickProve(pc, p) {
			continue
		}
		r := prove(e.facts, pc, p, proveCfg{ms: [3]int{1500, 4000, 0}, split: 3})
		if !r.ok {
			if os.Getenv("GOVC_INV") != "" {
				fmt.Fprintf(os.Stderr, "  [invfail] pc=%v\n   goal=%v\n   out=%s\n", pc, p, r.out)
			}
			return false
		}
	}
	return true
}

// ---------- values ----------

func (e *E) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Global:
		return Ptr{ref: e.globalRef(x), idx: IntC(0), root: x.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		unsup("builtin value")
	}
	r, ok := st.env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (e *E) globalRef(g *ssa.Global) *Term {
	if r, ok := e.globals[g]; ok {
		return r
	}
	r := IntC(int64(-1000000000 - len(e.globals)))
	e.globals[g] = r
	return r
}

func (e *E) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type()
	switch {
	case isFloat(t):
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if und(t).(*types.Basic).Kind() == types.Float32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			f = float64(f32)
		}
		return FC(f)
	case isInteger(t):
		v := constant.ToInt(c.Value)
		r, _ := new(big.Int).SetString(v.ExactString(), 10)
		return IntR(new(big.Rat).SetInt(r))
	case isBool(t):
		return BoolC(constant.BoolVal(c.Value))
	case isString(t):
		return Str{conc: constant.StringVal(c.Value), known: true}
	}
	unsup("const %v", c)
	return nil
}

func (e *E) simpFV(st *State, f FV) FV {
	if f.isFin() {
		return f
	}
	d := func(t *Term) *Term {
		t = simpUnder(t, st.pc)
		if t == True || t == False || e.spec > 0 {
			return t
		}
		if e.quickProve(st.pc, Not(t)) {
			return False
		}
		return t
	}
	f.nan = d(f.nan)
	f.pi = d(f.pi)
	f.ni = d(f.ni)
	return f
}

func (e *E) instr(fr *frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		st.env[x] = e.allocFor(st, x, t)
	case *ssa.BinOp:
		st.env[x] = e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Pos())
	case *ssa.UnOp:
		st.env[x] = e.unop(st, x)
	case *ssa.Call:
		st.env[x] = e.callCommon(fr, st, x.Common(), x.Pos())
	case *ssa.ChangeInterface:
		st.env[x] = e.val(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = e.val(st, x.X)
	case *ssa.Convert:
		st.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		v := e.val(st, x.Tuple)
		st.env[x] = v.(Tuple)[x.Index]
	case *ssa.Field:
		st.env[x] = e.val(st, x.X).(*Agg).f[x.Field]
	case *ssa.FieldAddr:
		v := e.val(st, x.X)
		st.env[x] = e.mapPtr(st, v, func(p Ptr) Val {
			if p.arr {
				unsup("field of array region")
			}
			p.path += "." + strconv.Itoa(x.Field)
			return p
		})
		e.nilCheck(st, v, x.Pos())
	case *ssa.Index:
		v := e.val(st, x.X)
		i := e.val(st, x.Index).(*Term)
		ag, ok := v.(*Agg)
		if !ok {
			unsup("index of %T", v)
		}
		st.env[x] = e.indexAgg(st, ag, i, x.Pos())
	case *ssa.IndexAddr:
		st.env[x] = e.indexAddr(st, x)
	case *ssa.Lookup:
		st.env[x] = e.lookup(st, x)
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.val(st, b))
		}
		st.env[x] = f
	case *ssa.MakeInterface:
		st.env[x] = Iface{dyn: x.X.Type(), val: e.val(st, x.X)}
	case *ssa.MakeSlice:
		t := und(x.Type()).(*types.Slice)
		n := e.val(st, x.Len).(*Term)
		c := e.val(st, x.Cap).(*Term)
		e.oblige(st, "make", "make: length in range", And(Ge(n, IntC(0)), Ge(c, n)), x.Pos())
		r := e.alloc(st, t.Elem())
		if e.made == nil {
			e.made = map[string][]*Term{}
		}
		if k := typeKey(t.Elem()); len(e.made[k]) < 8 {
			e.made[k] = append(e.made[k], r)
		}
		st.env[x] = Slice{r, IntC(0), n, c, t.Elem()}
	case *ssa.MakeMap:
		e.nalloc++
		st.env[x] = RefV{IntC(int64(-e.nalloc))}
	case *ssa.MakeChan:
		e.nalloc++
		st.env[x] = RefV{IntC(int64(-e.nalloc))}
	case *ssa.MapUpdate:
		if !e.lenient {
			unsup("map update")
		}
	case *ssa.Slice:
		st.env[x] = e.sliceOp(st, x)
	case *ssa.Store:
		v := e.val(st, x.Addr)
		e.nilCheck(st, v, x.Pos())
		t := x.Addr.Type().(*types.Pointer).Elem()
		val := e.val(st, x.Val)
		for _, a := range alts(v) {
			p, ok := a.v.(Ptr)
			if !ok {
				unsup("store through %T", a.v)
			}
			if p.ref == nilRef {
				continue
			}
			e.store(st, p, t, val, a.c)
		}
	case *ssa.TypeAssert:
		st.env[x] = e.typeAssert(st, x)
	case *ssa.Defer:
		d := deferred{cond: st.pc, call: x}
		var av []Val
		if x.Call.IsInvoke() {
			av = append(av, e.val(st, x.Call.Value))
		} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			d.fn = e.val(st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			av = append(av, e.val(st, a))
		}
		d.args = av
		st.dfr = append(st.dfr, d)
	case *ssa.RunDefers:
		for i := len(st.dfr) - 1; i >= 0; i-- {
			d := st.dfr[i]
			dc := d.call.(*ssa.Defer)
			if simpUnder(d.cond, st.pc) != True {
				unsup("conditional defer")
			}
			e.invokeVals(fr, st, &dc.Call, d.fn, d.args, dc.Pos())
		}
		st.dfr = nil
	case *ssa.Go:
		e.goStmt(fr, st, x)
	case *ssa.Send:
		if !e.lenient {
			e.chanSend(st, x)
		}
	case *ssa.Range, *ssa.Next, *ssa.Select:
		unsup("%T", in)
	case *ssa.SliceToArrayPointer:
		unsup("%T", in)
	default:
		unsup("instruction %T", in)
	}
}

func (e *E) allocFor(st *State, x *ssa.Alloc, t types.Type) Val {
	if a, ok := und(t).(*types.Array); ok {
		sliced := false
		for _, r := range *x.Referrers() {
			if _, ok := r.(*ssa.Slice); ok {
				sliced = true
			}
		}
		if sliced || a.Len() > 64 {
			ref := e.alloc(st, a.Elem())
			return Ptr{ref: ref, idx: IntC(0), root: a.Elem(), arr: true}
		}
	}
	return Ptr{ref: e.alloc(st, t), idx: IntC(0), root: t}
}

func (e *E) mapPtr(st *State, v Val, f func(Ptr) Val) Val {
	var out []Alt
	for _, a := range alts(v) {
		p, ok := a.v.(Ptr)
		if !ok {
			unsup("pointer expected, got %T", a.v)
		}
		r := f(p)
		for _, b := range alts(r) {
			out = append(out, Alt{And(a.c, b.c), b.v})
		}
	}
	return mkChoice(out)
}

func (e *E) nilCheck(st *State, v Val, pos token.Pos) {
	for _, a := range alts(v) {
		p, ok := a.v.(Ptr)
		if !ok {
			continue
		}
		c := Not(Eq(p.ref, nilRef))
		if c != True {
			e.oblige(st, "nil", "nil dereference", Imp(a.c, c), pos)
		}
	}
}

func (e *E) indexAgg(st *State, ag *Agg, i *Term, pos token.Pos) Val {
	n := int64(len(ag.f))
	e.oblige(st, "index", "index in range", And(Ge(i, IntC(0)), Lt(i, IntC(n))), pos)
	if k, ok := i.constInt(); ok {
		if k < 0 || k >= n {
			return ag.f[0]
		}
		return ag.f[k]
	}
	r := ag.f[n-1]
	for k := n - 2; k >= 0; k-- {
		r = mergeVal(Eq(i, IntC(k)), ag.f[k], r)
	}
	return r
}

func (e *E) indexAddr(st *State, x *ssa.IndexAddr) Val {
	v := e.val(st, x.X)
	i := e.val(st, x.Index).(*Term)
	switch u := und(x.X.Type()).(type) {
	case *types.Slice:
		var out []Alt
		for _, a := range alts(v) {
			s := a.v.(Slice)
			e.oblige(st, "index", "index in range", Imp(a.c, And(Ge(i, IntC(0)), Lt(i, s.len))), x.Pos())
			if nn := Not(Eq(s.ref, nilRef)); nn != True {
				e.fact(And(st.pc, a.c), nn) // a slice with elements is not nil
			}
			ref := s.ref
			if e.spec == 0 && ref.op == OApp && len(ref.args) > 0 {
				// rows of grids: which array is it?
				for _, c := range e.made[typeKey(u.Elem())] {
					if e.quickProve(And(st.pc, a.c), Eq(ref, c)) {
						ref = c
						break
					}
				}
			}
			out = append(out, Alt{a.c, Ptr{ref: ref, idx: Add(s.off, i), root: u.Elem()}})
		}
		return mkChoice(out)
	case *types.Pointer:
		ar := und(u.Elem()).(*types.Array)
		e.nilCheck(st, v, x.Pos())
		e.oblige(st, "index", "index in range", And(Ge(i, IntC(0)), Lt(i, IntC(ar.Len()))), x.Pos())
		return e.mapPtr(st, v, func(p Ptr) Val {
			if p.arr {
				return Ptr{ref: p.ref, idx: Add(p.idx, i), root: p.root}
			}
			if k, ok := i.constInt(); ok {
				p.path += "." + strconv.FormatInt(k, 10)
				return p
			}
			if ar.Len() > 64 {
				unsup("symbolic index into large array")
			}
			var as []Alt
			for k := int64(0); k < ar.Len(); k++ {
				q := p
				q.path += "." + strconv.FormatInt(k, 10)
				as = append(as, Alt{Eq(i, IntC(k)), q})
			}
			return mkChoice(as)
		})
	}
	unsup("IndexAddr %v", x.X.Type())
	return nil
}

func (e *E) sliceOp(st *State, x *ssa.Slice) Val {
	v := e.val(st, x.X)
	opt := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return e.val(st, s).(*Term)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = IntC(0)
	}
	switch und(x.X.Type()).(type) {
	case *types.Slice:
		var out []Alt
		for _, a := range alts(v) {
			s := a.v.(Slice)
			h := hi
			if h == nil {
				h = s.len
			}
			c := s.cap
			if mx != nil {
				c = mx
			}
			e.oblige(st, "slice", "slice bounds in range", Imp(a.c, And(Ge(lo, IntC(0)), Le(lo, h), Le(h, c), Le(c, s.cap))), x.Pos())
			out = append(out, Alt{a.c, Slice{s.ref, Add(s.off, lo), Sub(h, lo), Sub(c, lo), s.elem}})
		}
		return mkChoice(out)
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok || !p.arr {
			unsup("slice of array without region: %s", x)
		}
		n := und(x.X.Type().(*types.Pointer).Elem()).(*types.Array).Len()
		h := hi
		if h == nil {
			h = IntC(n)
		}
		c := IntC(n)
		if mx != nil {
			c = mx
		}
		e.oblige(st, "slice", "slice bounds in range", And(Ge(lo, IntC(0)), Le(lo, h), Le(h, c), Le(c, IntC(n))), x.Pos())
		return Slice{p.ref, Add(p.idx, lo), Sub(h, lo), Sub(c, lo), p.root}
	}
	// string
	if s, ok := v.(Str); ok {
		h := hi
		if h == nil {
			h = strLen(s)
		}
		e.oblige(st, "slice", "slice bounds in range", And(Ge(lo, IntC(0)), Le(lo, h), Le(h, strLen(s))), x.Pos())
		if s.known {
			a, ok1 := lo.constInt()
			b, ok2 := h.constInt()
			if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(s.conc)) {
				return Str{conc: s.conc[a:b], known: true}
			}
		}
		return Str{id: App(Int, "substr", strID(s), lo, h), len: Sub(h, lo)}
	}
	unsup("slice of %v", x.X.Type())
	return nil
}

func (e *E) unop(st *State, x *ssa.UnOp) Val {
	v := e.val(st, x.X)
	switch x.Op {
	case token.MUL: // load
		e.nilCheck(st, v, x.Pos())
		var out []Alt
		for _, a := range alts(v) {
			p, ok := a.v.(Ptr)
			if !ok {
				unsup("load through %T", a.v)
			}
			if p.ref == nilRef {
				continue
			}
			if p.root == nil {
				unsup("load through untyped pointer")
			}
			out = append(out, Alt{a.c, e.load(st, p, x.Type())})
		}
		if len(out) == 0 {
			st.pc = False
			return zeroVal(x.Type())
		}
		// plain merge
		r := out[len(out)-1].v
		for i := len(out) - 2; i >= 0; i-- {
			r = mergeVal(out[i].c, out[i].v, r)
		}
		return r
	case token.SUB:
		if f, ok := v.(FV); ok {
			return FNeg(f)
		}
		return Neg(v.(*Term))
	case token.NOT:
		return Not(v.(*Term))
	case token.XOR:
		return App(Int, "bitnot", v.(*Term))
	case token.ARROW:
		if x.CommaOk {
			return Tuple{e.symVal(x.Type().(*types.Tuple).At(0).Type(), e.freshName("recv"), nil, true), Var(Bool, e.freshName("recvok"))}
		}
		return e.symVal(x.Type(), e.freshName("recv"), nil, true)
	}
	unsup("unop %v", x.Op)
	return nil
}

func truncDiv(a, b *Term) *Term {
	if b.op == OConst && b.rat.Sign() > 0 {
		return Ite(Ge(a, IntC(0)), IDiv(a, b), Neg(IDiv(Neg(a), b)))
	}
	pos := Ite(Ge(a, IntC(0)), IDiv(a, b), Neg(IDiv(Neg(a), b)))
	nb := Neg(b)
	neg := Ite(Ge(a, IntC(0)), Neg(IDiv(a, nb)), IDiv(Neg(a), nb))
	return Ite(Gt(b, IntC(0)), pos, neg)
}

func (e *E) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return e.valEq(a, b)
	case token.NEQ:
		return Not(e.valEq(a, b))
	}
	switch x := a.(type) {
	case FV:
		y := b.(FV)
		switch op {
		case token.ADD:
			return e.simpFV(st, FAdd(x, y))
		case token.SUB:
			return e.simpFV(st, FSub(x, y))
		case token.MUL:
			return e.simpFV(st, FMul(x, y))
		case token.QUO:
			z := Eq(y.v, RealI(0))
			if z != True && z != False {
				z = simpUnder(z, st.pc)
				if z != False && z != True && e.quickProve(And(st.pc, y.fin()), Not(z)) {
					z = False
				}
			}
			return e.simpFV(st, FDiv(x, y, z))
		case token.LSS:
			return FLt(x, y)
		case token.LEQ:
			return FLe(x, y)
		case token.GTR:
			return FLt(y, x)
		case token.GEQ:
			return FLe(y, x)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("binop operand")
		}
		if x.sort == Bool {
			switch op {
			case token.AND, token.LAND:
				return And(x, y)
			case token.OR, token.LOR:
				return Or(x, y)
			}
			unsup("bool op %v", op)
		}
		switch op {
		case token.ADD:
			return e.wrap(Add(x, y), t)
		case token.SUB:
			return e.wrap(Sub(x, y), t)
		case token.MUL:
			return e.wrap(Mul(x, y), t)
		case token.QUO:
			e.oblige(st, "div", "division by zero", Not(Eq(y, IntC(0))), pos)
			return truncDiv(x, y)
		case token.REM:
			e.oblige(st, "div", "division by zero", Not(Eq(y, IntC(0))), pos)
			if y.op == OConst && y.rat.Sign() > 0 && e.quickProve(st.pc, Ge(x, IntC(0))) {
				return IMod(x, y)
			}
			return Sub(x, Mul(y, truncDiv(x, y)))
		case token.LSS:
			return Lt(x, y)
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Gt(x, y)
		case token.GEQ:
			return Ge(x, y)
		case token.SHL:
			if k, ok := y.constInt(); ok && k >= 0 && k < 64 {
				return e.wrap(Mul(x, IntR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k))))), t)
			}
		case token.SHR:
			if k, ok := y.constInt(); ok && k >= 0 && k < 64 {
				return IDiv(x, IntR(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))))
			}
		case token.AND:
			if k, ok := y.constInt(); ok && k >= 0 && (k+1)&k == 0 {
				return IMod(x, IntC(k+1))
			}
			if k, ok := x.constInt(); ok && k >= 0 && (k+1)&k == 0 {
				return IMod(y, IntC(k+1))
			}
			return App(Int, "bitand", x, y)
		case token.OR:
			return App(Int, "bitor", x, y)
		case token.XOR:
			return App(Int, "bitxor", x, y)
		}
	case Str:
		y := b.(Str)
		if op == token.ADD {
			if x.known && y.known {
				return Str{conc: x.conc + y.conc, known: true}
			}
			return Str{id: App(Int, "concat", strID(x), strID(y)), len: Add(strLen(x), strLen(y))}
		}
		return App(Bool, "strcmp"+op.String(), strID(x), strID(y))
	}
	unsup("binop %v on %T", op, a)
	return nil
}

// wrap: unsigned arithmetic wraps only when it provably can; machine integers are
// otherwise treated as mathematical (assumption listed in the evidence).
func (e *E) wrap(x *Term, t types.Type) *Term {
	b, ok := und(t).(*types.Basic)
	if !ok || x.isConst() && x.rat.Sign() >= 0 {
		return x
	}
	switch b.Kind() {
	case types.Uint8, types.Uint16:
		_, hi, _ := intRange(b)
		return IMod(x, Add(IntR(hi), IntC(1)))
	}
	return x
}

func (e *E) convert(st *State, v Val, from, to types.Type) Val {
	if c, ok := v.(*Choice); ok {
		var out []Alt
		for _, a := range c.alts {
			out = append(out, Alt{a.c, e.convert(st, a.v, from, to)})
		}
		return mkChoice(out)
	}
	switch {
	case isInteger(from) && isFloat(to):
		f := Fin(ToReal(v.(*Term)))
		if e.round32 && und(to).(*types.Basic).Kind() == types.Float32 {
			return rnd32(f)
		}
		return f
	case isFloat(from) && isFloat(to):
		fk, tk := und(from).(*types.Basic).Kind(), und(to).(*types.Basic).Kind()
		f := v.(FV)
		if fk == types.Float64 && tk == types.Float32 {
			if f.isFin() && f.v.isConst() {
				x, _ := f.v.rat.Float64()
				return FC(float64(float32(x)))
			}
			if e.round32 {
				return rnd32(f)
			}
		}
		return f
	case isFloat(from) && isInteger(to):
		f := v.(FV)
		fl := ToInt(f.v)
		tr := Ite(Ge(f.v, RealI(0)), fl, Neg(ToInt(Neg(f.v))))
		if simpUnder(Ge(f.v, RealI(0)), st.pc) == True || e.spec == 0 && !f.v.isConst() && e.quickProve(And(st.pc, f.fin()), Ge(f.v, RealI(0))) {
			tr = fl
		}
		if !f.isFin() {
			tr = Ite(f.fin(), tr, Var(Int, e.freshName("convbad")))
		}
		if lo, hi, ok := intRange(und(to).(*types.Basic)); ok && und(to).(*types.Basic).Kind() != types.Uint64 && und(to).(*types.Basic).Kind() != types.Uint {
			in := And(Ge(tr, IntR(lo)), Le(tr, IntR(hi)))
			if simpUnder(in, st.pc) != True && !(e.spec == 0 && e.quickProve(st.pc, in)) {
				tr = Ite(in, tr, App(Int, "convoob", tr))
			}
		}
		return tr
	case isInteger(from) && isInteger(to):
		x := v.(*Term)
		flo, fhi, fok := intRange(und(from).(*types.Basic))
		lo, hi, ok := intRange(und(to).(*types.Basic))
		if !ok {
			return x
		}
		if fok && flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			return x
		}
		in := And(Ge(x, IntR(lo)), Le(x, IntR(hi)))
		if simpUnder(in, st.pc) == True || e.spec == 0 && e.quickProve(st.pc, in) {
			return x
		}
		m := new(big.Rat).Sub(hi, lo)
		m.Add(m, rat1)
		if lo.Sign() == 0 {
			return IMod(x, IntR(m))
		}
		return Sub(IMod(Sub(x, IntR(lo)), IntR(m)), IntR(new(big.Rat).Neg(lo)))
	case isString(to) || isString(from):
		switch x := v.(type) {
		case Str:
			if sl, ok := und(to).(*types.Slice); ok {
				r := e.alloc(st, sl.Elem())
				n := strLen(x)
				if x.known {
					for i := 0; i < len(x.conc); i++ {
						e.store(st, Ptr{ref: r, idx: IntC(int64(i)), root: sl.Elem()}, sl.Elem(), IntC(int64(x.conc[i])), True)
					}
					return Slice{r, IntC(0), n, n, sl.Elem()}
				}
				return Slice{Var(Int, e.freshName("bytes")), IntC(0), n, n, sl.Elem()}
			}
			return x
		case Slice:
			return Str{id: Var(Int, e.freshName("str")), len: x.len}
		case *Term:
			return Str{id: Var(Int, e.freshName("str")), len: Var(Int, e.freshName("strlen"))}
		}
	}
	if types.Identical(und(from), und(to)) {
		return v
	}
	if _, ok := v.(Ptr); ok {
		return v
	}
	unsup("convert %v to %v", from, to)
	return nil
}

func (e *E) lookup(st *State, x *ssa.Lookup) Val {
	v := e.val(st, x.X)
	if s, ok := v.(Str); ok {
		i := e.val(st, x.Index).(*Term)
		e.oblige(st, "index", "index in range", And(Ge(i, IntC(0)), Lt(i, strLen(s))), x.Pos())
		if k, ok := i.constInt(); ok && s.known && k >= 0 && k < int64(len(s.conc)) {
			return IntC(int64(s.conc[k]))
		}
		c := App(Int, "strbyte", strID(s), i)
		e.axiom("strbyte", func(x *Term) *Term { return And(Ge(x, IntC(0)), Lt(x, IntC(256))) })
		return c
	}
	if e.lenient {
		return e.symVal(x.Type(), e.freshName("mapget"), nil, true)
	}
	r := e.symVal(x.Type(), e.freshName("mapget"), nil, true)
	return r
}

func (e *E) typeAssert(st *State, x *ssa.TypeAssert) Val {
	v := e.val(st, x.X)
	var vals []Alt
	var okc []*Term
	for _, a := range alts(v) {
		i, isI := a.v.(Iface)
		if !isI {
			unsup("type assert on %T", a.v)
		}
		if types.IsInterface(x.AssertedType) {
			if i.dyn != nil {
				im := types.Implements(i.dyn, und(x.AssertedType).(*types.Interface))
				if im {
					okc = append(okc, a.c)
					vals = append(vals, Alt{a.c, i})
				}
				continue
			}
			if i.tag.isInt(0) {
				continue
			}
			c := App(Bool, "implements:"+typeKey(x.AssertedType), i.tag)
			c = And(c, Not(Eq(i.tag, IntC(0))))
			okc = append(okc, And(a.c, c))
			vals = append(vals, Alt{And(a.c, c), i})
			continue
		}
		if i.dyn != nil {
			if types.Identical(i.dyn, x.AssertedType) {
				okc = append(okc, a.c)
				vals = append(vals, Alt{a.c, i.val})
			}
			continue
		}
		if i.tag.isInt(0) {
			continue
		}
		if e.opaque[i.tag] {
			continue // of a type unknown to the repository
		}
		c := Eq(i.tag, e.typeTag(x.AssertedType))
		okc = append(okc, And(a.c, c))
		vals = append(vals, Alt{And(a.c, c), e.unbox(i, x.AssertedType)})
	}
	ok := Or(okc...)
	var r Val
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		r = z
		if len(vals) > 0 {
			var as []Alt
			as = append(as, vals...)
			as = append(as, Alt{Not(ok), z})
			if m, good := foldMerge(as); good {
				r = m
			} else {
				r = mkChoice(as)
			}
		}
		return Tuple{r, ok}
	}
	e.oblige(st, "typeassert", "type assertion holds", ok, x.Pos())
	if len(vals) == 0 {
		st.pc = False
		return zeroVal(x.AssertedType)
	}
	if m, good := foldMerge(vals); good {
		return m
	}
	return mkChoice(vals)
}

func foldMerge(as []Alt) (Val, bool) {
	r := as[len(as)-1].v
	for i := len(as) - 2; i >= 0; i-- {
		m, ok := tryMerge(as[i].c, as[i].v, r)
		if !ok {
			return nil, false
		}
		r = m
	}
	return r, true
}

// unbox views an unknown interface value as concrete type t.
func (e *E) unbox(i Iface, t types.Type) Val {
	if p, ok := und(t).(*types.Pointer); ok {
		return Ptr{ref: i.ref, idx: IntC(0), root: p.Elem()}
	}
	return e.symVal(t, "box:"+typeKey(t), []*Term{i.ref}, true)
}

func floatConst(v Val) (float64, bool) {
	f, ok := v.(FV)
	if !ok || !f.isFin() || !f.v.isConst() {
		return 0, false
	}
	x, _ := f.v.rat.Float64()
	return x, true
}

var _ = math.Pi
