package main

// Assumed contracts of standard-library functions (listed in every evidence file).

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var piF = new(big.Rat).SetFloat64(math.Pi)

func ratF(f float64) *Term { r := new(big.Rat); r.SetFloat64(f); return RatC(r) }

func piMul(num, den int64) *Term {
	return RatC(new(big.Rat).Mul(piF, big.NewRat(num, den)))
}

// quarterTurns: x = r + k quarter turns, for sums with such a constant term.
func quarterTurns(x *Term) (r *Term, k int) {
	if x.op != OAdd {
		return x, 0
	}
	for _, a := range x.args {
		if a.isConst() {
			for k := -8; k <= 8; k++ {
				if k != 0 && a == piMul(int64(k), 2) {
					return Sub(x, a), k
				}
			}
		}
	}
	return x, 0
}

func sinT(x *Term) *Term {
	if x.isConst() {
		for _, k := range []struct {
			n, d int64
			v    int64
		}{{0, 1, 0}, {1, 1, 0}, {-1, 1, 0}, {2, 1, 0}, {-2, 1, 0}, {1, 2, 1}, {-1, 2, -1}, {3, 2, -1}, {-3, 2, 1}} {
			if x == piMul(k.n, k.d) {
				return RealI(k.v)
			}
		}
	}
	if r, k := quarterTurns(x); k != 0 {
		switch k & 3 {
		case 1:
			return cosT(r)
		case 2:
			return Neg(sinT(r))
		case 3:
			return Neg(cosT(r))
		}
		return sinT(r)
	}
	if c, _ := toMono(lead(x)); c.Sign() < 0 { // odd
		return Neg(sinT(Neg(x)))
	}
	if x.op == OApp && x.name == "atan2" { // of atan2(b, a), the length of (a, b) being positive
		b, a := x.args[0], x.args[1]
		return Ite(And(Eq(a, RealI(0)), Eq(b, RealI(0))), RealI(0), Mul(b, Inv(Sqrt(Add(Mul(a, a), Mul(b, b))))))
	}
	return App(Real, "sin", x)
}

func cosT(x *Term) *Term {
	if x.isConst() {
		for _, k := range []struct {
			n, d int64
			v    int64
		}{{0, 1, 1}, {1, 1, -1}, {-1, 1, -1}, {2, 1, 1}, {-2, 1, 1}, {1, 2, 0}, {-1, 2, 0}, {3, 2, 0}, {-3, 2, 0}} {
			if x == piMul(k.n, k.d) {
				return RealI(k.v)
			}
		}
	}
	if r, k := quarterTurns(x); k != 0 {
		switch k & 3 {
		case 1:
			return Neg(sinT(r))
		case 2:
			return Neg(cosT(r))
		case 3:
			return sinT(r)
		}
		return cosT(r)
	}
	if c, _ := toMono(lead(x)); c.Sign() < 0 { // even
		return cosT(Neg(x))
	}
	if x.op == OApp && x.name == "atan2" {
		b, a := x.args[0], x.args[1]
		return Ite(And(Eq(a, RealI(0)), Eq(b, RealI(0))), RealI(1), Mul(a, Inv(Sqrt(Add(Mul(a, a), Mul(b, b))))))
	}
	return App(Real, "cos", x)
}

func rnd32(f FV) FV {
	if f.isFin() && f.v.isConst() {
		x, _ := f.v.rat.Float64()
		return FC(float64(float32(x)))
	}
	f.v = App(Real, "rnd32", f.v)
	return f
}

func init() {
	pyth := func(x *Term) *Term {
		s, c := App(Real, "sin", x), App(Real, "cos", x)
		one := RealI(1)
		return And(Eq(mk(OMul, Real, "sq", []*Term{s, s}), Sub(one, Mul(c, c))),
			Le(s, one), Le(RealI(-1), s), Le(c, one), Le(RealI(-1), c))
	}
	signs := func(x *Term) *Term {
		s, c := App(Real, "sin", x), App(Real, "cos", x)
		z := RealI(0)
		return And(
			Imp(And(Lt(z, x), Lt(x, piMul(1, 1))), Lt(z, s)),
			Imp(And(Lt(piMul(-1, 1), x), Lt(x, z)), Lt(s, z)),
			Imp(And(Lt(piMul(-1, 2), x), Lt(x, piMul(1, 2))), Lt(z, c)),
			Imp(Eq(x, z), And(Eq(s, z), Eq(c, RealI(1)))),
			Imp(Eq(x, piMul(1, 2)), And(Eq(s, RealI(1)), Eq(c, z))),
			Imp(Eq(x, piMul(-1, 2)), And(Eq(s, RealI(-1)), Eq(c, z))),
			Imp(Eq(x, piMul(1, 1)), And(Eq(s, z), Eq(c, RealI(-1)))),
			Imp(Eq(x, piMul(-1, 1)), And(Eq(s, z), Eq(c, RealI(-1)))))
	}
	for _, n := range []string{"sin", "cos"} {
		axiomSet[n] = true
		axioms[n] = append(axioms[n], func(a *Term) *Term { return And(pyth(a.args[0]), signs(a.args[0])) })
	}
	reg := func(n string, f axiomFn) { axiomSet[n] = true; axioms[n] = append(axioms[n], f) }
	z, one := RealI(0), RealI(1)
	reg("exp", func(a *Term) *Term {
		x := a.args[0]
		return And(Lt(z, a), Imp(Le(x, z), Le(a, one)), Imp(Lt(x, z), Lt(a, one)), Imp(Ge(x, z), Ge(a, one)), Imp(Eq(x, z), Eq(a, one)))
	})
	pairAxioms["exp"] = func(a, b *Term) *Term {
		return And(Imp(Lt(a.args[0], b.args[0]), Lt(a, b)), Imp(Lt(b.args[0], a.args[0]), Lt(b, a)), Imp(Eq(a.args[0], b.args[0]), Eq(a, b)))
	}
	reg("pow", func(a *Term) *Term {
		x, y := a.args[0], a.args[1]
		num := True
		if x.isConst() && y.isConst() && x.rat.Sign() > 0 { // numeric enclosure
			fx, _ := x.rat.Float64()
			fy, _ := y.rat.Float64()
			if f := math.Pow(fx, fy); f > 1e-6 && f < 1e6 {
				num = And(Le(ratF(f*(1-1e-12)), a), Le(a, ratF(f*(1+1e-12))))
			}
		}
		return And(num, Imp(Lt(z, x), Lt(z, a)),
			Imp(And(Le(z, x), Le(x, one), Lt(z, y)), And(Le(z, a), Le(a, one))),
			Imp(And(Eq(x, z), Lt(z, y)), Eq(a, z)),
			Imp(And(Eq(x, one)), Eq(a, one)),
			Imp(And(Le(one, x), Lt(z, y)), Le(one, a)))
	})
	pairAxioms["pow"] = func(a, b *Term) *Term {
		if a.args[1] != b.args[1] {
			return True
		}
		y := a.args[1]
		return And(Imp(And(Le(z, a.args[0]), Lt(a.args[0], b.args[0]), Lt(z, y)), Lt(a, b)),
			Imp(And(Le(z, b.args[0]), Lt(b.args[0], a.args[0]), Lt(z, y)), Lt(b, a)))
	}
	reg("log", func(a *Term) *Term {
		x := a.args[0]
		return And(Imp(Lt(one, x), Lt(z, a)), Imp(And(Lt(z, x), Lt(x, one)), Lt(a, z)), Imp(Eq(x, one), Eq(a, z)),
			Imp(Lt(z, x), Eq(App(Real, "exp", a), x)))
	})
	pairAxioms["log"] = func(a, b *Term) *Term {
		return And(Imp(And(Lt(z, a.args[0]), Lt(a.args[0], b.args[0])), Lt(a, b)),
			Imp(And(Lt(z, b.args[0]), Lt(b.args[0], a.args[0])), Lt(b, a)))
	}
	reg("tan", func(a *Term) *Term {
		x := a.args[0]
		return And(Imp(And(Lt(z, x), Lt(x, piMul(1, 2))), Lt(z, a)),
			Imp(Eq(x, z), Eq(a, z)))
	})
	// rounding to float32: monotone, sign preserving, within half an ulp
	reg("rnd32", func(a *Term) *Term {
		x := a.args[0]
		eps := RatC(big.NewRat(1, 1<<23))
		tiny := ratF(1e-45)
		return And(
			Le(a, Add(x, Mul(eps, absT(x)), tiny)), Le(Sub(Sub(x, Mul(eps, absT(x))), tiny), a),
			Imp(Le(z, x), Le(z, a)), Imp(Le(x, z), Le(a, z)))
	})
	pairAxioms["rnd32"] = func(a, b *Term) *Term {
		return And(Imp(Le(a.args[0], b.args[0]), Le(a, b)), Imp(Le(b.args[0], a.args[0]), Le(b, a)))
	}
	// next float32 above/below: neighbours enclose everything that rounds to x
	reg("next32up", func(a *Term) *Term {
		r := Lt(a.args[0], a)
		if b := a.args[0]; b.op == OApp && b.name == "rnd32" {
			r = And(r, Le(b.args[0], a))
		}
		return r
	})
	reg("next32dn", func(a *Term) *Term {
		r := Lt(a, a.args[0])
		if b := a.args[0]; b.op == OApp && b.name == "rnd32" {
			r = And(r, Le(a, b.args[0]))
		}
		return r
	})
	reg("atan2", func(a *Term) *Term { return And(Le(a, piMul(1, 1)), Le(piMul(-1, 1), a)) })
	reg("asin", func(a *Term) *Term {
		x := a.args[0]
		s := App(Real, "sin", a)
		return Imp(And(Le(x, one), Le(RealI(-1), x)), And(Le(a, piMul(1, 2)), Le(piMul(-1, 2), a), Eq(s, x)))
	})
	reg("acos", func(a *Term) *Term {
		x := a.args[0]
		s := App(Real, "cos", a)
		return Imp(And(Le(x, one), Le(RealI(-1), x)), And(Le(a, piMul(1, 1)), Le(z, a), Eq(s, x)))
	})
}

func absT(x *Term) *Term { return Ite(Ge(x, RealI(0)), x, Neg(x)) }

func (e *E) mathFin(st *State, a FV, what string) FV {
	if a.isFin() {
		return a
	}
	a = e.simpFV(st, a)
	return a
}

func (e *E) stdModel(st *State, fn *ssa.Function, name string, args []Val, pos token.Pos) (Val, bool) {
	f := func(i int) FV { return args[i].(FV) }
	z := RealI(0)
	switch name {
	case "math.Sqrt":
		a := f(0)
		neg := Lt(a.v, z)
		if neg != False {
			neg = simpUnder(neg, st.pc)
			if neg != False && neg != True && e.spec == 0 && e.quickProve(And(st.pc, a.fin()), Not(neg)) {
				neg = False
			}
		}
		r := FV{nan: Or(a.nan, a.ni, And(a.fin(), neg)), pi: a.pi, ni: False, v: Sqrt(a.v)}
		return e.simpFV(st, r.norm()), true
	case "math.Abs":
		a := f(0)
		return FV{a.nan, Or(a.pi, a.ni), False, absT(a.v)}, true
	case "math.Inf":
		i := args[0].(*Term)
		return FV{False, Ge(i, IntC(0)), Lt(i, IntC(0)), z}, true
	case "math.NaN":
		return FC(math.NaN()), true
	case "math.IsNaN":
		return f(0).nan, true
	case "math.IsInf":
		a := f(0)
		s := args[1].(*Term)
		return Or(And(Ge(s, IntC(0)), a.pi), And(Le(s, IntC(0)), a.ni)), true
	case "math.Signbit":
		return f(0).signbit(), true
	case "math.Min":
		return fminmaxStd(f(0), f(1), true), true
	case "math.Max":
		return fminmaxStd(f(0), f(1), false), true
	case "math.Floor":
		a := f(0)
		return FV{a.nan, a.pi, a.ni, ToReal(ToInt(a.v))}, true
	case "math.Ceil":
		a := f(0)
		return FV{a.nan, a.pi, a.ni, ToReal(Neg(ToInt(Neg(a.v))))}, true
	case "math.Trunc":
		a := f(0)
		return FV{a.nan, a.pi, a.ni, Ite(Ge(a.v, z), ToReal(ToInt(a.v)), ToReal(Neg(ToInt(Neg(a.v)))))}, true
	case "math.Round":
		a := f(0)
		h := RatC(big.NewRat(1, 2))
		return FV{a.nan, a.pi, a.ni, Ite(Ge(a.v, z), ToReal(ToInt(Add(a.v, h))), ToReal(Neg(ToInt(Add(Neg(a.v), h)))))}, true
	case "math.Modf":
		a := f(0)
		ip := Ite(Ge(a.v, z), ToReal(ToInt(a.v)), ToReal(Neg(ToInt(Neg(a.v)))))
		return Tuple{FV{a.nan, a.pi, a.ni, ip}, FV{Or(a.nan, a.pi, a.ni), False, False, Sub(a.v, ip)}}, true
	case "math.Mod":
		a, b := f(0), f(1)
		if a.isFin() && b.isFin() {
			q := Mul(a.v, Inv(b.v))
			tq := Ite(Ge(q, z), ToReal(ToInt(q)), ToReal(Neg(ToInt(Neg(q)))))
			return FV{Eq(b.v, z), False, False, Sub(a.v, Mul(tq, b.v))}, true
		}
	case "math.Sin":
		a := f(0)
		return FV{Or(a.nan, a.inf()), False, False, sinT(a.v)}, true
	case "math.Cos":
		a := f(0)
		return FV{Or(a.nan, a.inf()), False, False, cosT(a.v)}, true
	case "math.Sincos":
		a := f(0)
		n := Or(a.nan, a.inf())
		return Tuple{FV{n, False, False, sinT(a.v)}, FV{n, False, False, cosT(a.v)}}, true
	case "math.Tan":
		a := f(0)
		if a.isFin() && a.v.isInt(0) {
			return a, true
		}
		return FV{Or(a.nan, a.inf()), False, False, App(Real, "tan", a.v)}, true
	case "math.Atan2":
		a, b := f(0), f(1)
		return FV{Or(a.nan, b.nan), False, False, App(Real, "atan2", a.v, b.v)}, true
	case "math.Asin":
		a := f(0)
		bad := Or(Lt(a.v, RealI(-1)), Gt(a.v, RealI(1)))
		return e.simpFV(st, FV{Or(a.nan, a.inf(), bad), False, False, App(Real, "asin", a.v)}), true
	case "math.Acos":
		a := f(0)
		bad := Or(Lt(a.v, RealI(-1)), Gt(a.v, RealI(1)))
		return e.simpFV(st, FV{Or(a.nan, a.inf(), bad), False, False, App(Real, "acos", a.v)}), true
	case "math.Exp":
		a := f(0)
		if a.isFin() && a.v.isConst() && a.v.rat.Sign() == 0 {
			return FC(1), true
		}
		v := App(Real, "exp", a.v)
		if a.ni != False {
			v = Ite(a.ni, z, v)
		}
		return FV{a.nan, a.pi, False, v}, true
	case "math.Log":
		a := f(0)
		return e.simpFV(st, FV{Or(a.nan, a.ni, And(a.fin(), Lt(a.v, z))), a.pi, And(a.fin(), Eq(a.v, z)), App(Real, "log", a.v)}), true
	case "math.Pow":
		a, b := f(0), f(1)
		if b.isFin() && b.v.isConst() && b.v.rat.IsInt() && b.v.rat.Num().IsInt64() {
			if n := b.v.rat.Num().Int64(); n >= 0 && n <= 8 && a.isFin() {
				r := RealI(1)
				for i := int64(0); i < n; i++ {
					r = Mul(r, a.v)
				}
				return Fin(r), true
			}
		}
		if a.isFin() && b.isFin() {
			nan := And(Lt(a.v, z), Not(Eq(ToReal(ToInt(b.v)), b.v)))
			inf := And(Eq(a.v, z), Lt(b.v, z))
			return e.simpFV(st, FV{nan, inf, False, App(Real, "pow", a.v, b.v)}), true
		}
		if b.isFin() && b.v.isConst() && b.v.rat.Sign() > 0 && !b.v.rat.IsInt() {
			return e.simpFV(st, FV{Or(a.nan, And(a.fin(), Lt(a.v, z))), Or(a.pi, a.ni), False, App(Real, "pow", a.v, b.v)}), true
		}
	case "math.Hypot":
		a, b := f(0), f(1)
		if a.isFin() && b.isFin() {
			return Fin(Sqrt(Add(Mul(a.v, a.v), Mul(b.v, b.v)))), true
		}
	case "math.Copysign":
		a, b := f(0), f(1)
		ab := absT(a.v)
		return FIte(b.signbit(), FV{a.nan, False, a.inf(), Neg(ab)}, FV{a.nan, a.inf(), False, ab}), true
	case "math.Nextafter32":
		a, b := f(0), f(1)
		up := FLt(a, b)
		eqv := FEq(a, b)
		r := FIte(up, Fin(App(Real, "next32up", a.v)), Fin(App(Real, "next32dn", a.v)))
		r = FIte(eqv, b, r)
		if a.nan != False || b.nan != False || a.pi != False || a.ni != False {
			r.nan = Or(r.nan, a.nan, b.nan)
			r = FIte(a.inf(), a, r)
		}
		return r, true
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		return e.symStr(), true
	case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf": // writes, at once, text that holds the operands in order
		return e.fprint(st, fn, args, pos), true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return Tuple{e.symVal(types.Typ[types.Int], e.freshName("n"), nil, true), e.symVal(types.Universe.Lookup("error").Type(), e.freshName("err"), nil, true)}, true
	case "fmt.Errorf", "errors.New":
		t := Var(Int, e.freshName("errtag"))
		e.fact(True, Gt(t, IntC(0)))
		return Iface{tag: t, ref: Var(Int, e.freshName("errref"))}, true
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf":
		e.oblige(st, "panic", "no fatal exit", False, pos)
		st.pc = False
		return e.deadVal2(fn.Signature.Results()), true
	case "log.Println", "log.Printf", "log.Print":
		return Tuple{}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return Tuple{}, true
	case "(*math/rand.Rand).Float64", "math/rand.Float64":
		v := Var(Real, e.freshName("rand"))
		e.fact(True, And(Ge(v, z), Lt(v, RealI(1))))
		return Fin(v), true
	case "(*math/rand.Rand).Intn", "math/rand.Intn":
		v := Var(Int, e.freshName("rand"))
		n := args[len(args)-1].(*Term)
		e.oblige(st, "requires", "rand.Intn argument positive", Gt(n, IntC(0)), pos)
		e.fact(st.pc, And(Ge(v, IntC(0)), Lt(v, n)))
		return v, true
	case "math/rand.Int31n", "(*math/rand.Rand).Int31n":
		v := Var(Int, e.freshName("rand"))
		n := args[len(args)-1].(*Term)
		e.fact(st.pc, And(Ge(v, IntC(0)), Lt(v, n)))
		return v, true
	case "math/rand.NewSource":
		return e.symVal(fn.Signature.Results().At(0).Type(), e.freshName("src"), nil, true), true
	case "math/rand.New":
		r := e.alloc(st, types.Typ[types.Int])
		return Ptr{ref: r, idx: IntC(0), root: fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()}, true
	case "time.Now", "time.Since", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).Sub":
		return e.symVal(fn.Signature.Results().At(0).Type(), e.freshName("time"), nil, true), true
	case "sort.Slice":
		e.modelSort(st, args)
		return Tuple{}, true
	}
	return nil, false
}

func fminmaxStd(a, b FV, min bool) FV { return fminmax(a, b, min) }

func (e *E) symStr() Val {
	l := Var(Int, e.freshName("strlen"))
	e.fact(True, Ge(l, IntC(0)))
	return Str{id: Var(Int, e.freshName("str")), len: l}
}

// sort.Slice permutes: new[i] = old[perm(i)], perm a bijection of [0,n). The ordering
// itself is not assumed.
func (e *E) modelSort(st *State, args []Val) {
	i, ok := args[0].(Iface)
	if !ok {
		unsup("sort.Slice argument")
	}
	s := i.val.(Slice)
	e.fresh++
	p := e.freshName("perm")
	q := p + "inv"
	pf := func(x *Term) *Term { return App(Int, p, x) }
	qf := func(x *Term) *Term { return App(Int, q, x) }
	v := Var(Int, "?p"+p)
	in := func(x *Term) *Term { return And(Ge(x, IntC(0)), Lt(x, s.len)) }
	var where *Term
	leaves(s.elem, "", func(path string, lt types.Type) {
		k := memKey(s.elem, path)
		prev := e.node(st, k, lt)
		st.mem[k] = newNode(&MNode{kind: nPerm, leaf: lt, ref: s.ref, doff: s.off, n: s.len, a: prev, pf: pf})
		if st.log != nil {
			*st.log = append(*st.log, wrec{k, lt, s.ref, nil})
		}
		if where == nil && !isFloat(lt) { // what was at v is now at q(v)
			old := e.leafTerms(e.readNode(prev, s.ref, Add(s.off, v)))
			now := e.leafTerms(e.readNode(st.mem[k], s.ref, Add(s.off, qf(v))))
			if len(old) == len(now) && len(old) > 0 {
				where = Eq(now[0], old[0])
			}
		}
	})
	if where == nil {
		where = True
	}
	e.facts = append(e.facts,
		Forall([]*Term{v}, Imp(in(v), And(in(pf(v)), Eq(qf(pf(v)), v)))),
		Forall([]*Term{v}, Imp(in(v), And(in(qf(v)), Eq(pf(qf(v)), v), where))))
}

// fprint models fmt.Fprint, Fprintln and Fprintf: one Write of a text that depends on the
// operands only. Numbers and words in it can be referred to by printedInt, printedString.
func (e *E) fprint(st *State, fn *ssa.Function, args []Val, pos token.Pos) Val {
	w, ok := args[0].(Iface)
	ops, ok2 := args[len(args)-1].(Slice)
	n, ok3 := int64(0), false
	if ok2 {
		n, ok3 = ops.len.constInt()
	}
	if !ok || !ok2 || !ok3 {
		unsup("operands of %s", fn)
	}
	var vals []Val
	for j := int64(0); j < n; j++ {
		v := e.load(st, Ptr{ref: ops.ref, idx: Add(ops.off, IntC(j)), root: ops.elem}, ops.elem)
		i, ok := v.(Iface)
		if !ok || i.dyn == nil {
			unsup("operand of %s", fn)
		}
		vals = append(vals, i.val)
	}
	name := "print"
	if fn.Name() == "Fprintln" {
		name = "println"
	}
	if fn.Name() == "Fprintf" {
		f, ok := args[1].(Str)
		if !ok || !f.known {
			unsup("format of %s", fn)
		}
		name = "printf:" + f.conc
		var vs []Val
		k := 0
		for _, w := range strings.Fields(f.conc) {
			switch {
			case (w == "%v" || w == "%d" || w == "%s") && k < len(vals):
				vs = append(vs, vals[k])
				k++
			case !strings.Contains(w, "%"):
				vs = append(vs, Str{known: true, conc: w})
			default:
				unsup("format %q", f.conc)
			}
		}
		vals = vs
	}
	e.nalloc++
	ref := IntC(int64(-e.nalloc))
	k, min := int64(0), int64(0)
	if name == "println" {
		min = 1
	}
	var ua []*Term
	for _, v := range vals {
		switch x := v.(type) {
		case Str:
			ua = append(ua, strID(x))
			if x.known {
				min += int64(len(x.conc))
				if strings.TrimSpace(x.conc) == "" {
					continue
				}
			}
			e.fact(True, Eq(App(Int, "printedString", ref, IntC(k)), strID(x)))
		case *Term:
			ua = append(ua, x)
			min++
			if x.sort == Int {
				e.fact(True, Eq(App(Int, "printedInt", ref, IntC(k)), x))
			}
		default:
			unsup("operand of %s", fn)
		}
		k++
	}
	if e.printed == nil {
		e.printed = map[*Term]int64{}
	}
	e.printed[ref] = k
	var l *Term
	if len(ua) == 0 {
		l = IntC(min)
	} else {
		l = App(Int, fmt.Sprintf("len:%s/%d", name, len(ua)), ua...)
		e.fact(True, Ge(l, IntC(min)))
	}
	wm := fn.Signature.Params().At(0).Type().Underlying().(*types.Interface).Method(0)
	return e.invokeIface(st, w, wm, []Val{w, Slice{ref: ref, off: IntC(0), len: l, cap: l, elem: types.Typ[types.Uint8]}}, pos)
}
