package main

// Hash-consed first-order terms with an eager simplifier.
// Real and Int arithmetic is kept in expanded polynomial normal form as long as
// the expansion stays small, so that two formulations of the same computation
// usually become the same term.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OConst // numeric constant (sort Int or Real)
	OVar
	OApp // uninterpreted function application, name + args
	OAnd
	OOr
	ONot
	OIte
	OEq
	OLe
	OLt
	OAdd
	OMul
	OIDiv   // integer floor division
	OIMod   // integer modulo, result >= 0 for positive divisor
	OToReal // int -> real
	OToInt  // floor real -> int
	OInv    // 1/x, meaningful for x != 0
	OSqrt   // meaningful for x >= 0
	OForall // bound vars in args[:n-1], body last
)

type Sort string

const (
	Bool Sort = "Bool"
	Int  Sort = "Int"
	Real Sort = "Real"
)

type Term struct {
	op    Op
	sort  Sort
	name  string
	rat   *big.Rat
	args  []*Term
	id    int
	mark  int64 // a reference that is not between farBelow and mark
	old   bool  // Int reference known to be older than every allocation (>= 0)
	ht    int
	bound bool // contains a bound variable
}

var (
	consTab = map[string]*Term{}
	nterm   = 0
	True    = mk(OTrue, Bool, "", nil)
	False   = mk(OFalse, Bool, "", nil)
)

const maxMono = 160

func key(op Op, s Sort, name string, rat *big.Rat, args []*Term) string {
	var b strings.Builder
	b.WriteByte(byte('A' + op))
	b.WriteString(string(s))
	b.WriteByte('|')
	b.WriteString(name)
	if rat != nil {
		b.WriteByte('#')
		b.WriteString(rat.RatString())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return b.String()
}

func mkr(op Op, s Sort, name string, rat *big.Rat, args []*Term) *Term {
	k := key(op, s, name, rat, args)
	if t, ok := consTab[k]; ok {
		return t
	}
	nterm++
	t := &Term{op: op, sort: s, name: name, rat: rat, args: args, id: nterm}
	for _, a := range args {
		if a.ht >= t.ht {
			t.ht = a.ht + 1
		}
		if a.bound {
			t.bound = true
		}
	}
	if op == OVar && strings.HasPrefix(name, "?") {
		t.bound = true
	}
	if op == OForall {
		t.bound = false
		// still bound if the body mentions variables other than its own
		own := map[*Term]bool{}
		for _, a := range args[:len(args)-1] {
			own[a] = true
		}
		for v := range boundVars(args[len(args)-1]) {
			if !own[v] {
				t.bound = true
			}
		}
	}
	consTab[k] = t
	return t
}

func mk(op Op, s Sort, name string, args []*Term) *Term { return mkr(op, s, name, nil, args) }

func boundVars(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			r[t] = true
		}
		if t.op == OForall {
			inner := boundVars(t.args[len(t.args)-1])
			for _, a := range t.args[:len(t.args)-1] {
				delete(inner, a)
			}
			for v := range inner {
				r[v] = true
			}
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return r
}

func Var(s Sort, name string) *Term { return mk(OVar, s, name, nil) }
func App(s Sort, name string, args ...*Term) *Term {
	if len(args) == 0 {
		return Var(s, name)
	}
	return mk(OApp, s, name, append([]*Term(nil), args...))
}

func RatC(r *big.Rat) *Term { return mkr(OConst, Real, "", r, nil) }
func RealI(i int64) *Term   { return RatC(big.NewRat(i, 1)) }
func IntC(i int64) *Term    { return mkr(OConst, Int, "", big.NewRat(i, 1), nil) }
func IntR(r *big.Rat) *Term { return mkr(OConst, Int, "", r, nil) }
func numC(s Sort, r *big.Rat) *Term {
	return mkr(OConst, s, "", r, nil)
}
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt(i int64) bool {
	return t.op == OConst && t.rat.IsInt() && t.rat.Num().IsInt64() && t.rat.Num().Int64() == i
}
func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

// ---------- booleans ----------

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe:
		return Lt(a.args[1], a.args[0])
	case OLt:
		return Le(a.args[1], a.args[0])
	}
	return mk(ONot, Bool, "", []*Term{a})
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }

func nary(op Op, ts []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	set := map[*Term]bool{}
	var list []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || set[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[Not(t)] {
			return false
		}
		set[t] = true
		list = append(list, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(list) == 0 {
		return unit
	}
	if len(list) == 1 {
		return list[0]
	}
	// unit propagation into nested dual connectives
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	for i, t := range list {
		if t.op != dual {
			continue
		}
		var keep []*Term
		drop, absorbed := false, false
		for _, a := range t.args {
			if set[a] {
				absorbed = true // x & (x | y) = x
				break
			}
			if set[Not(a)] {
				drop = true
				continue
			}
			keep = append(keep, a)
		}
		if absorbed {
			list[i] = unit
			changed = true
		} else if drop {
			list[i] = nary(dual, keep)
			changed = true
		}
	}
	if changed {
		return nary(op, list)
	}
	if op == OOr {
		// factor common conjuncts
		if f := factorOr(list); f != nil {
			return f
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	return mk(op, Bool, "", list)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func factorOr(list []*Term) *Term {
	var common []*Term
	for _, c := range conj(list[0]) {
		all := true
		for _, t := range list[1:] {
			has := false
			for _, d := range conj(t) {
				if d == c {
					has = true
					break
				}
			}
			if !has {
				all = false
				break
			}
		}
		if all {
			common = append(common, c)
		}
	}
	if len(common) == 0 {
		return nil
	}
	cs := map[*Term]bool{}
	for _, c := range common {
		cs[c] = true
	}
	var rest []*Term
	for _, t := range list {
		var r []*Term
		for _, d := range conj(t) {
			if !cs[d] {
				r = append(r, d)
			}
		}
		rest = append(rest, And(r...))
	}
	return And(append(common, Or(rest...))...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == Bool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if a == Not(b) {
			return Eq(c, a)
		}
	}
	// nested with same condition
	for a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	for b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return Ite(Or(c, Not(b.args[0])), a, b.args[1])
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	t := mk(OIte, a.sort, "", []*Term{c, a, b})
	if a.old && b.old {
		t.old = true
	}
	return t
}

// ---------- arithmetic: polynomials ----------

type mono struct {
	c *big.Rat
	m []*Term // sorted by id, repetitions allowed
}

func monoKey(m []*Term) string {
	var b strings.Builder
	for _, t := range m {
		fmt.Fprintf(&b, "%d.", t.id)
	}
	return b.String()
}

type poly map[string]*mono

func (p poly) add(c *big.Rat, m []*Term) {
	k := monoKey(m)
	if e, ok := p[k]; ok {
		s := new(big.Rat).Add(e.c, c)
		if s.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = &mono{s, m}
		}
		return
	}
	if c.Sign() != 0 {
		p[k] = &mono{c, m}
	}
}

// toPoly views a term as polynomial over atoms without further expansion
func toPoly(t *Term) poly {
	p := poly{}
	switch t.op {
	case OAdd:
		for _, a := range t.args {
			c, m := toMono(a)
			p.add(c, m)
		}
	default:
		c, m := toMono(t)
		p.add(c, m)
	}
	return p
}

var rat1 = big.NewRat(1, 1)

func toMono(t *Term) (*big.Rat, []*Term) {
	switch t.op {
	case OConst:
		return t.rat, nil
	case OMul:
		if t.args[0].op == OConst {
			return t.args[0].rat, t.args[1:]
		}
		return rat1, t.args
	}
	return rat1, []*Term{t}
}

func fromPoly(s Sort, p poly) *Term {
	if len(p) == 0 {
		return numC(s, new(big.Rat))
	}
	var ms []*mono
	for _, m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return lessMono(ms[i].m, ms[j].m) })
	var args []*Term
	for _, m := range ms {
		args = append(args, fromMono(s, m))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk(OAdd, s, "", args)
}

func lessMono(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

func fromMono(s Sort, m *mono) *Term {
	if len(m.m) == 0 {
		return numC(s, m.c)
	}
	one := m.c.Cmp(rat1) == 0
	if len(m.m) == 1 && one {
		return m.m[0]
	}
	var args []*Term
	if !one {
		args = append(args, numC(s, m.c))
	}
	args = append(args, m.m...)
	return mk(OMul, s, "", args)
}

func Add(ts ...*Term) *Term {
	s := ts[0].sort
	p := poly{}
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("Add: sort mismatch %v %v", s, t.sort))
		}
		for _, m := range toPoly(t) {
			p.add(m.c, m.m)
		}
	}
	return fromPoly(s, reduceInv(p))
}

func Neg(a *Term) *Term { return Scale(big.NewRat(-1, 1), a) }
func Scale(c *big.Rat, a *Term) *Term {
	p := poly{}
	for _, m := range toPoly(a) {
		p.add(new(big.Rat).Mul(c, m.c), m.m)
	}
	return fromPoly(a.sort, p)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

// mulMono multiplies monomials, reducing s*s -> D for square roots and x*inv(x) -> 1.
// Returns a polynomial because reduction can produce sums.
func mulMono(a, b *mono) poly {
	c := new(big.Rat).Mul(a.c, b.c)
	m := make([]*Term, 0, len(a.m)+len(b.m))
	m = append(m, a.m...)
	m = append(m, b.m...)
	sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
	// reductions
	for i := 0; i < len(m); i++ {
		t := m[i]
		if t.op == OSqrt && i+1 < len(m) && m[i+1] == t {
			rest := append(append([]*Term(nil), m[:i]...), m[i+2:]...)
			return mulPoly(poly{monoKey(rest): {c, rest}}, toPoly(t.args[0]))
		}
		if t.op == OApp && t.name == "sin" && i+1 < len(m) && m[i+1] == t {
			rest := append(append([]*Term(nil), m[:i]...), m[i+2:]...)
			cs := App(Real, "cos", t.args[0])
			return mulPoly(poly{monoKey(rest): {c, rest}}, poly{monoKey(nil): {rat1, nil}, monoKey([]*Term{cs, cs}): {big.NewRat(-1, 1), []*Term{cs, cs}}})
		}
		if t.op == OInv {
			if t.args[0].op == OSqrt && i+1 < len(m) && m[i+1] == t {
				rest := append(append([]*Term(nil), m[:i]...), m[i+2:]...)
				return mulPoly(poly{monoKey(rest): {c, rest}}, toPoly(Inv(t.args[0].args[0])))
			}
			for j := range m {
				if m[j] == t.args[0] {
					lo, hi := i, j
					if lo > hi {
						lo, hi = hi, lo
					}
					rest := append([]*Term(nil), m[:lo]...)
					rest = append(rest, m[lo+1:hi]...)
					rest = append(rest, m[hi+1:]...)
					return mulMono(&mono{c, nil}, &mono{rat1, rest})
				}
			}
		}
	}
	p := poly{}
	p.add(c, m)
	return p
}

func mulPoly(a, b poly) poly {
	r := poly{}
	for _, x := range a {
		for _, y := range b {
			for _, z := range mulMono(x, y) {
				r.add(z.c, z.m)
			}
		}
	}
	return r
}

func Mul(ts ...*Term) *Term {
	s := ts[0].sort
	r := ts[0]
	for _, t := range ts[1:] {
		r = mul2(s, r, t)
	}
	return r
}

func mul2(s Sort, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("Mul: sort mismatch")
	}
	if a.op == OConst {
		return Scale(a.rat, b)
	}
	if b.op == OConst {
		return Scale(b.rat, a)
	}
	pa, pb := toPoly(a), toPoly(b)
	if len(pa)*len(pb) > maxMono && len(pa) > 1 && len(pb) > 1 {
		// keep as opaque product of sums
		ms := []*Term{a, b}
		sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
		return mk(OMul, s, "", ms)
	}
	return fromPoly(s, reduceInv(mulPoly(pa, pb)))
}

// reduceInv rewrites P*inv(q) as Q + R*inv(q) by polynomial division where that does
// not make the expression larger.
func reduceInv(p poly) poly {
	if len(p) > 80 || len(p) < 2 {
		return p
	}
	var invs []*Term
	seen := map[*Term]bool{}
	for _, m := range p {
		for _, a := range m.m {
			if a.op == OInv && a.args[0].op == OAdd && !seen[a] {
				seen[a] = true
				invs = append(invs, a)
			}
		}
	}
	if len(invs) == 0 {
		return p
	}
	sort.Slice(invs, func(i, j int) bool { return invs[i].id < invs[j].id })
	for _, inv := range invs {
		q := toPoly(inv.args[0])
		if len(q) > 20 {
			continue
		}
		ql := leadMono(q)
		for {
			P := poly{}
			rest := poly{}
			for k, m := range p {
				d, idx := 0, 0
				for i, a := range m.m {
					if a == inv {
						d++
						idx = i
					}
				}
				if d == 0 {
					rest[k] = m
					continue
				}
				r := append(append([]*Term(nil), m.m[:idx]...), m.m[idx+1:]...)
				P.add(m.c, r)
			}
			if len(P) < len(q) {
				break
			}
			Q := poly{}
			R := poly{}
			for _, m := range P {
				R.add(m.c, m.m)
			}
			N := poly{} // part of P not divisible
			for k := 0; k < 60 && len(R) > 0; k++ {
				l := leadMono(R)
				d, ok := divMono(l.m, ql.m)
				if !ok {
					N.add(l.c, l.m)
					delete(R, monoKey(l.m))
					continue
				}
				c := new(big.Rat).Quo(l.c, ql.c)
				Q.add(c, d)
				for _, z := range q {
					mm := append(append([]*Term(nil), d...), z.m...)
					sort.Slice(mm, func(i, j int) bool { return mm[i].id < mm[j].id })
					R.add(new(big.Rat).Neg(new(big.Rat).Mul(c, z.c)), mm)
				}
			}
			if len(R) > 0 || len(Q) == 0 || len(Q)+len(N) >= len(P) {
				break
			}
			np := poly{}
			for _, m := range rest {
				np.add(m.c, m.m)
			}
			for _, m := range Q {
				np.add(m.c, m.m)
			}
			for _, m := range N {
				mm := append(append([]*Term(nil), m.m...), inv)
				sort.Slice(mm, func(i, j int) bool { return mm[i].id < mm[j].id })
				np.add(m.c, mm)
			}
			p = np
		}
	}
	return p
}

// divMono divides sorted monomials.
func divMono(a, b []*Term) ([]*Term, bool) {
	var r []*Term
	i := 0
	for _, f := range b {
		for i < len(a) && a[i].id < f.id {
			r = append(r, a[i])
			i++
		}
		if i >= len(a) || a[i] != f {
			return nil, false
		}
		i++
	}
	return append(r, a[i:]...), true
}

// fullPoly expands everything, including opaque products, clearing denominators
// of Inv atoms. ok=false when too large.
func fullExpand(t *Term, limit int) (poly, bool) {
	memo := map[*Term]poly{}
	ok := true
	var ex func(t *Term) poly
	ex = func(t *Term) poly {
		if !ok {
			return poly{}
		}
		if p, h := memo[t]; h {
			return p
		}
		var p poly
		switch t.op {
		case OAdd:
			p = poly{}
			for _, a := range t.args {
				for _, m := range ex(a) {
					p.add(m.c, m.m)
				}
			}
		case OMul:
			p = poly{"": {rat1, nil}}
			for _, a := range t.args {
				q := ex(a)
				if len(p)*len(q) > limit*4 {
					ok = false
					return poly{}
				}
				p = mulPoly(p, q)
			}
		case OConst:
			p = poly{}
			p.add(t.rat, nil)
		default:
			p = poly{}
			p.add(rat1, []*Term{t})
		}
		if len(p) > limit {
			ok = false
		}
		memo[t] = p
		return p
	}
	p := ex(t)
	return p, ok
}

// zeroModInv decides whether the polynomial is identically zero once denominators
// are cleared and square roots reduced.
func isZeroPoly(t *Term) bool {
	const limit = 6000
	p, ok := fullExpand(t, limit)
	if !ok {
		return false
	}
	for iter := 0; iter < 12; iter++ {
		if len(p) == 0 {
			return true
		}
		// find the Inv atom with greatest height
		var inv *Term
		deg := 0
		for _, m := range p {
			for _, a := range m.m {
				if a.op == OInv && (inv == nil || a.ht > inv.ht || (a.ht == inv.ht && a.id > inv.id)) {
					inv = a
				}
			}
		}
		if inv == nil {
			return false
		}
		for _, m := range p {
			d := 0
			for _, a := range m.m {
				if a == inv {
					d++
				}
			}
			if d > deg {
				deg = d
			}
		}
		q, ok := fullExpand(inv.args[0], 400)
		if !ok {
			return false
		}
		pow := []poly{{"": {rat1, nil}}}
		for i := 1; i <= deg; i++ {
			pow = append(pow, mulPoly(pow[i-1], q))
		}
		r := poly{}
		for _, m := range p {
			d := 0
			var rest []*Term
			for _, a := range m.m {
				if a == inv {
					d++
				} else {
					rest = append(rest, a)
				}
			}
			base := poly{}
			base.add(m.c, rest)
			if len(r) > 4*limit {
				return false
			}
			for _, z := range mulPoly(base, pow[deg-d]) {
				r.add(z.c, z.m)
			}
		}
		p = r
	}
	return len(p) == 0
}

func Inv(a *Term) *Term {
	switch a.op {
	case OConst:
		if a.rat.Sign() == 0 {
			return RealI(0)
		}
		return RatC(new(big.Rat).Inv(a.rat))
	case OInv:
		return a.args[0]
	case OMul:
		c, m := toMono(a)
		r := RatC(new(big.Rat).Inv(c))
		for _, t := range m {
			r = Mul(r, Inv(t))
		}
		return r
	case OAdd:
		c, _ := toMono(a.args[0])
		if c.Cmp(rat1) != 0 {
			ic := new(big.Rat).Inv(c)
			return Scale(ic, mk(OInv, Real, "", []*Term{Scale(ic, a)}))
		}
	}
	return mk(OInv, Real, "", []*Term{a})
}

func Sqrt(a *Term) *Term {
	if a.op == OConst && a.rat.Sign() >= 0 {
		n, d := new(big.Int).Sqrt(a.rat.Num()), new(big.Int).Sqrt(a.rat.Denom())
		if new(big.Int).Mul(n, n).Cmp(a.rat.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(a.rat.Denom()) == 0 {
			return RatC(new(big.Rat).SetFrac(n, d))
		}
	}
	if a.op == OAdd || a.op == OMul {
		if r, ok := sqrtMemo[a]; ok {
			return r
		}
		r := sqrtPoly(a)
		sqrtMemo[a] = r
		return r
	}
	return mk(OSqrt, Real, "", []*Term{a})
}

var sqrtMemo = map[*Term]*Term{}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n, d := new(big.Int).Sqrt(r.Num()), new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

// sqrtPoly recognises perfect squares and pulls out rational square factors.
func sqrtPoly(a *Term) *Term {
	if p, ok := fullExpand(a, 300); ok && len(p) > 0 {
		if q, ok := polyRoot(p); ok {
			t := fromPoly(Real, q)
			return Ite(Ge(t, RealI(0)), t, Neg(t))
		}
		if e := fromPoly(Real, p); len(p) < 60 {
			a = e
		}
	}
	c, _ := toMono(lead(a))
	if c.Cmp(rat1) != 0 {
		if r, ok := ratSqrt(c); ok {
			return Scale(r, Sqrt(Scale(new(big.Rat).Inv(c), a)))
		}
	}
	return mk(OSqrt, Real, "", []*Term{a})
}

func leadMono(p poly) *mono {
	var b *mono
	for _, m := range p {
		if b == nil || lexLess(b.m, m.m) {
			b = m
		}
	}
	return b
}

// lexLess is a monomial order (compatible with multiplication): higher powers of
// lower ids are greater.
func lexLess(a, b []*Term) bool {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i == len(b) {
		return false
	}
	if i == len(a) {
		return true
	}
	return a[i].id > b[i].id
}

func polyRoot(p poly) (poly, bool) {
	for _, m := range p {
		for _, t := range m.m {
			if t.op == OSqrt || t.op == OInv {
				if t.op == OSqrt {
					return nil, false
				}
			}
		}
	}
	l := leadMono(p)
	c, ok := ratSqrt(l.c)
	if !ok || len(l.m)%2 != 0 {
		return nil, false
	}
	var root []*Term
	for i := 0; i < len(l.m); i += 2 {
		if l.m[i] != l.m[i+1] {
			return nil, false
		}
		root = append(root, l.m[i])
	}
	q := poly{}
	q.add(c, root)
	den := new(big.Rat).Inv(new(big.Rat).Mul(big.NewRat(2, 1), c))
	for k := 0; k < 40; k++ {
		r := poly{}
		for _, m := range p {
			r.add(m.c, m.m)
		}
		for _, m := range mulPoly(q, q) {
			r.add(new(big.Rat).Neg(m.c), m.m)
		}
		if len(r) == 0 {
			return q, true
		}
		lr := leadMono(r)
		// divide by root
		rest := append([]*Term(nil), lr.m...)
		for _, f := range root {
			j := -1
			for i, x := range rest {
				if x == f {
					j = i
					break
				}
			}
			if j < 0 {
				return nil, false
			}
			rest = append(rest[:j], rest[j+1:]...)
		}
		q.add(new(big.Rat).Mul(lr.c, den), rest)
	}
	return nil, false
}

func ToReal(a *Term) *Term {
	switch a.op {
	case OConst:
		return RatC(a.rat)
	case OIte:
		return Ite(a.args[0], ToReal(a.args[1]), ToReal(a.args[2]))
	case OAdd, OMul:
		p := poly{}
		for _, m := range toPoly(a) {
			var ms []*Term
			for _, x := range m.m {
				ms = append(ms, mk(OToReal, Real, "", []*Term{x}))
			}
			sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
			p.add(m.c, ms)
		}
		return fromPoly(Real, p)
	case OToInt:
	}
	return mk(OToReal, Real, "", []*Term{a})
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean; denom > 0 so floor
	return new(big.Rat).SetInt(q)
}

// ToInt is floor.
func ToInt(a *Term) *Term {
	if a.op == OConst {
		return IntR(floorRat(a.rat))
	}
	if a.op == OToReal {
		return a.args[0]
	}
	// floor(x + integer-valued part) : pull out ToReal monomials with integer coefficients
	p := toPoly(a)
	rest := poly{}
	intp := poly{}
	for _, m := range p {
		isint := m.c.IsInt()
		var ms []*Term
		for _, x := range m.m {
			if x.op != OToReal {
				isint = false
				break
			}
			ms = append(ms, x.args[0])
		}
		if isint {
			sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
			intp.add(m.c, ms)
		} else {
			rest.add(m.c, m.m)
		}
	}
	if len(intp) > 0 {
		ip := fromPoly(Int, intp)
		if len(rest) == 0 {
			return ip
		}
		return Add(ip, mk(OToInt, Int, "", []*Term{fromPoly(Real, rest)}))
	}
	return mk(OToInt, Int, "", []*Term{a})
}

func IDiv(a, b *Term) *Term { // floor division (b>0 expected)
	if a.op == OConst && b.op == OConst && b.rat.Sign() > 0 {
		return IntR(floorRat(new(big.Rat).Quo(a.rat, b.rat)))
	}
	if b.isInt(1) {
		return a
	}
	return mk(OIDiv, Int, "", []*Term{a, b})
}

func IMod(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.rat.Sign() > 0 {
		return Sub(a, Mul(b, IDiv(a, b)))
	}
	if b.isInt(1) {
		return IntC(0)
	}
	return mk(OIMod, Int, "", []*Term{a, b})
}

// ---------- comparisons ----------

func isRef(t *Term) (int64, bool) {
	if c, ok := t.constInt(); ok {
		return c, true
	}
	return 0, false
}

var farBelow = big.NewRat(-1000000000, 1)

func (a *Term) mark64() *big.Rat { return big.NewRat(a.mark, 1) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sort mismatch %v:%v %v:%v", a, a.sort, b, b.sort))
	}
	if a.sort == Bool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	} else if a.sort == Int || a.sort == Real {
		if a.op == OConst && b.op == OConst {
			return BoolC(a.rat.Cmp(b.rat) == 0)
		}
		// old references are never equal to fresh (negative) ones
		if a.old && b.op == OConst && b.rat.Sign() < 0 {
			return False
		}
		if b.old && a.op == OConst && a.rat.Sign() < 0 {
			return False
		}
		// what earlier iterations of a loop made is none of what this one makes
		if a.mark != 0 && b.op == OConst && b.rat.Cmp(a.mark64()) < 0 && b.rat.Cmp(farBelow) > 0 {
			return False
		}
		if b.mark != 0 && a.op == OConst && a.rat.Cmp(b.mark64()) < 0 && a.rat.Cmp(farBelow) > 0 {
			return False
		}
		// lift ite when one side decides
		if a.op == OIte && (b.op == OConst || b.op != OIte) {
			l, r := Eq(a.args[1], b), Eq(a.args[2], b)
			if l == True || l == False || r == True || r == False {
				return Ite(a.args[0], l, r)
			}
		}
		if b.op == OIte && a.op != OIte {
			l, r := Eq(b.args[1], a), Eq(b.args[2], a)
			if l == True || l == False || r == True || r == False {
				return Ite(b.args[0], l, r)
			}
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
		}
		d := Sub(a, b)
		if d.op == OConst {
			return BoolC(d.rat.Sign() == 0)
		}
		// canonical: leading coefficient 1
		if a.sort == Real {
			c, _ := toMono(lead(d))
			d = Scale(new(big.Rat).Inv(c), d)
			// monomial == 0 -> some atom == 0
			if d.op == OMul {
				var ds []*Term
				for _, x := range d.args {
					if x.op != OConst {
						ds = append(ds, Eq(x, RealI(0)))
					}
				}
				return Or(ds...)
			}
			if d.op == OInv {
				// 1/x == 0 never for x != 0; value irrelevant otherwise
				return False
			}
			if d.op == OSqrt {
				return Eq(d.args[0], RealI(0))
			}
		} else {
			c, _ := toMono(lead(d))
			if c.Sign() < 0 {
				d = Neg(d)
			}
		}
		return splitConst(OEq, d)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, Bool, "", []*Term{a, b})
}

func lead(d *Term) *Term {
	if d.op == OAdd {
		return d.args[0]
	}
	return d
}

// splitConst renders d `op` 0 as (d - c) op (-c), keeping atoms readable.
func splitConst(op Op, d *Term) *Term {
	p := toPoly(d)
	c := new(big.Rat)
	if m, ok := p[""]; ok {
		c = m.c
		delete(p, "")
	}
	lhs := fromPoly(d.sort, p)
	rhs := numC(d.sort, new(big.Rat).Neg(c))
	return mk(op, Bool, "", []*Term{lhs, rhs})
}

func Le(a, b *Term) *Term { return cmp(OLe, a, b) }
func Lt(a, b *Term) *Term { return cmp(OLt, a, b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("cmp: sort mismatch %v %v", a, b))
	}
	if a == b {
		return BoolC(op == OLe)
	}
	if a.op == OConst && b.op == OConst {
		c := a.rat.Cmp(b.rat)
		return BoolC(c < 0 || op == OLe && c == 0)
	}
	if a.op == OIte && b.op != OIte {
		l, r := cmp(op, a.args[1], b), cmp(op, a.args[2], b)
		if l == True || l == False || r == True || r == False {
			return Ite(a.args[0], l, r)
		}
	}
	if b.op == OIte && a.op != OIte {
		l, r := cmp(op, a, b.args[1]), cmp(op, a, b.args[2])
		if l == True || l == False || r == True || r == False {
			return Ite(b.args[0], l, r)
		}
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return Ite(a.args[0], cmp(op, a.args[1], b.args[1]), cmp(op, a.args[2], b.args[2]))
	}
	d := Sub(a, b) // d op 0
	if d.op == OConst {
		s := d.rat.Sign()
		return BoolC(s < 0 || op == OLe && s == 0)
	}
	if d.sort == Int && op == OLt { // a < b  <=>  a+1 <= b
		op = OLe
		d = Add(d, IntC(1))
		if d.op == OConst {
			return BoolC(d.rat.Sign() <= 0)
		}
	}
	// obvious signs
	if d.sort == Real {
		switch signOf(d) {
		case 1: // > 0
			return False
		case 2: // >= 0
			if op == OLt {
				return False
			}
		case -1:
			return True
		case -2:
			if op == OLe {
				return True
			}
		}
	}
	c, _ := toMono(lead(d))
	if d.sort == Real {
		ic := new(big.Rat).Inv(c)
		neg := ic.Sign() < 0
		ic.Abs(ic)
		d = Scale(ic, d)
		if neg { // lead coefficient -1:  -p op 0  =>  0 op p
			d = Neg(d)
			return splitConstR(op, d, true)
		}
		return splitConstR(op, d, false)
	}
	if c.Sign() < 0 {
		return splitConstR(op, Neg(d), true)
	}
	return splitConstR(op, d, false)
}

func splitConstR(op Op, d *Term, flip bool) *Term {
	p := toPoly(d)
	c := new(big.Rat)
	if m, ok := p[""]; ok {
		c = m.c
		delete(p, "")
	}
	lhs := fromPoly(d.sort, p)
	rhs := numC(d.sort, new(big.Rat).Neg(c))
	if flip {
		return mk(op, Bool, "", []*Term{rhs, lhs})
	}
	return mk(op, Bool, "", []*Term{lhs, rhs})
}

// signOf: 1: >0, 2: >=0, -1: <0, -2: <=0, 0 unknown. Cheap syntactic check:
// sums of squares / square roots with same-sign coefficients.
func signOf(d *Term) int {
	pos, neg := true, true
	strict := false
	for _, m := range toPoly(d) {
		if len(m.m)%2 == 1 || len(m.m) > 0 {
			// even multiset?
			ms := m.m
			i := 0
			for i < len(ms) {
				if ms[i].op == OSqrt {
					i++
					continue
				}
				if i+1 < len(ms) && ms[i+1] == ms[i] {
					i += 2
					continue
				}
				return 0
			}
		} else {
			strict = true
		}
		if m.c.Sign() > 0 {
			neg = false
		} else {
			pos = false
		}
	}
	switch {
	case pos && strict:
		return 1
	case pos:
		return 2
	case neg && strict:
		return -1
	case neg:
		return -2
	}
	return 0
}

func Forall(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.bound {
		return body
	}
	bv := boundVars(body)
	var vs []*Term
	for _, v := range vars {
		if bv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	if body.op == OAnd {
		var r []*Term
		for _, a := range body.args {
			r = append(r, Forall(vars, a))
		}
		return And(r...)
	}
	return mk(OForall, Bool, "", append(append([]*Term(nil), vs...), body))
}

// subst replaces variables (any terms) by others, re-simplifying.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case ONot:
		return Not(a[0])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OAdd:
		return Add(a...)
	case OMul:
		return Mul(a...)
	case OIDiv:
		return IDiv(a[0], a[1])
	case OIMod:
		return IMod(a[0], a[1])
	case OToReal:
		return ToReal(a[0])
	case OToInt:
		return ToInt(a[0])
	case OInv:
		return Inv(a[0])
	case OSqrt:
		return Sqrt(a[0])
	case OApp:
		r := App(t.sort, t.name, a...)
		if t.old {
			r.old = true
		}
		return r
	case OForall:
		return Forall(a[:len(a)-1], a[len(a)-1])
	}
	panic("rebuild")
}

// ---------- printing ----------

func smtName(s string) string {
	ok := len(s) > 0
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '?') {
			ok = false
		}
	}
	if ok && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

func ratSMT(s Sort, r *big.Rat) string {
	abs := new(big.Rat).Abs(r)
	var x string
	if s == Int {
		x = abs.Num().String()
	} else if abs.IsInt() {
		x = abs.Num().String() + ".0"
	} else {
		x = "(/ " + abs.Num().String() + ".0 " + abs.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + x + ")"
	}
	return x
}

func (t *Term) String() string {
	s := printTerm(t, nil, 6)
	return s
}

func printTerm(t *Term, names map[*Term]string, depth int) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	if depth == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var b strings.Builder
	list := func(h string) string {
		b.WriteString("(" + h)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(printTerm(a, names, depth-1))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return ratSMT(t.sort, t.rat)
	case OVar:
		return smtName(t.name)
	case OApp:
		return list(smtName(t.name))
	case OAnd:
		return list("and")
	case OOr:
		return list("or")
	case ONot:
		return list("not")
	case OIte:
		return list("ite")
	case OEq:
		return list("=")
	case OLe:
		return list("<=")
	case OLt:
		return list("<")
	case OAdd:
		return list("+")
	case OMul:
		return list("*")
	case OIDiv:
		return list("div")
	case OIMod:
		return list("mod")
	case OToReal:
		return list("to_real")
	case OToInt:
		return list("to_int")
	case OInv:
		return list("inv")
	case OSqrt:
		return list("sqrt")
	case OForall:
		b.WriteString("(forall (")
		for _, v := range t.args[:len(t.args)-1] {
			b.WriteString("(" + smtName(v.name) + " " + string(v.sort) + ")")
		}
		b.WriteString(") " + printTerm(t.args[len(t.args)-1], names, depth-1) + ")")
		return b.String()
	}
	return "?"
}
