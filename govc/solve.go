package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- query preparation ----------

type axiomFn func(app *Term) *Term
type pairFn func(a, b *Term) *Term

var (
	axioms     = map[string][]axiomFn{}
	pairAxioms = map[string]pairFn{}
	axiomSet   = map[string]bool{}
)

func (e *E) axiom(name string, f axiomFn) {
	if axiomSet[name] {
		return
	}
	axiomSet[name] = true
	axioms[name] = append(axioms[name], f)
}

func subterms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			w(a)
		}
		f(t)
	}
	for _, t := range ts {
		w(t)
	}
}

var skolemN int

var skolems = map[*Term][]*Term{}

// nnf pushes negation inward; existentials become skolem constants.
func nnf(t *Term, pos bool) *Term {
	switch t.op {
	case ONot:
		return nnf(t.args[0], !pos)
	case OAnd, OOr:
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = nnf(a, pos)
		}
		if (t.op == OAnd) == pos {
			return And(args...)
		}
		return Or(args...)
	case OForall:
		if pos {
			return Forall(t.args[:len(t.args)-1], nnf(t.args[len(t.args)-1], true))
		}
		if t.bound { // under an outer binder: leave to the solver
			return Not(t)
		}
		m := map[*Term]*Term{}
		sk := skolems[t] // the same statement has the same counterexample
		if sk == nil {
			for _, v := range t.args[:len(t.args)-1] {
				skolemN++
				sk = append(sk, Var(v.sort, fmt.Sprintf("sk!%d!%s", skolemN, strings.TrimLeft(v.name, "?"))))
			}
			skolems[t] = sk
		}
		for i, v := range t.args[:len(t.args)-1] {
			m[v] = sk[i]
		}
		return nnf(subst(t.args[len(t.args)-1], m), false)
	case OIte:
		if t.sort == Bool && hasForall(t) {
			c := t.args[0]
			return And(Or(nnf(c, false), nnf(t.args[1], pos)), Or(nnf(c, true), nnf(t.args[2], pos)))
		}
	case OEq:
		if t.args[0].sort == Bool && hasForall(t) {
			a, b := t.args[0], t.args[1]
			if pos {
				return And(Or(nnf(a, false), nnf(b, true)), Or(nnf(a, true), nnf(b, false)))
			}
			return And(Or(nnf(a, true), nnf(b, true)), Or(nnf(a, false), nnf(b, false)))
		}
	}
	if pos {
		return t
	}
	return Not(t)
}

var hfMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.op == OForall {
		return true
	}
	if v, ok := hfMemo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasForall(a) {
			r = true
			break
		}
	}
	hfMemo[t] = r
	return r
}

// collectForalls finds positive universal subformulas in an NNF formula.
func collectForalls(t *Term, f func(*Term)) {
	switch t.op {
	case OAnd, OOr:
		for _, a := range t.args {
			collectForalls(a, f)
		}
	case OForall:
		f(t)
	}
}

func matchArg(p, t *Term, vars map[*Term]bool, m map[*Term]*Term) bool {
	if !p.bound {
		return p == t
	}
	if vars[p] {
		if old, ok := m[p]; ok {
			return old == t
		}
		m[p] = t
		return true
	}
	switch p.op {
	case OToReal:
		if t.op == OToReal {
			return matchArg(p.args[0], t.args[0], vars, m)
		}
		return false
	case OAdd, OMul:
		// linear in exactly one unbound variable with constant coefficient
		if p.sort != Int && p.sort != Real {
			return false
		}
		var v *Term
		var coef *big.Rat
		rest := poly{}
		for _, mm := range toPoly(p) {
			isv := false
			if len(mm.m) == 1 && vars[mm.m[0]] {
				if _, done := m[mm.m[0]]; !done {
					if v != nil {
						return false
					}
					v, coef = mm.m[0], mm.c
					isv = true
				}
			}
			if !isv {
				rest.add(mm.c, mm.m)
			}
		}
		r := subst(fromPoly(p.sort, rest), m)
		if v == nil {
			return r == t
		}
		if r.bound {
			return false
		}
		if p.sort == Int && new(big.Rat).Abs(coef).Cmp(rat1) != 0 {
			q := Scale(new(big.Rat).Inv(coef), Sub(t, r))
			for _, mm := range toPoly(q) {
				if !mm.c.IsInt() {
					return false
				}
			}
			m[v] = q
			return true
		}
		m[v] = Scale(new(big.Rat).Inv(coef), Sub(t, r))
		return true
	case OApp:
		if t.op != OApp || t.name != p.name || len(t.args) != len(p.args) {
			return false
		}
		for i := range p.args {
			if !matchArg(p.args[i], t.args[i], vars, m) {
				return false
			}
		}
		return true
	}
	return false
}

// instantiate returns ground instances of the universal facts.
func instantiate(ground []*Term, goal *Term, rounds, limit int) []*Term {
	out := append([]*Term(nil), ground...)
	done := map[string]bool{}
	total := 0
	mine := map[*Term]bool{}
	subterms([]*Term{goal}, func(t *Term) {
		if t.op == OVar {
			mine[t] = true
		}
	})
	for r := 0; r < rounds; r++ {
		var fas []*Term
		for _, g := range out {
			collectForalls(g, func(t *Term) { fas = append(fas, t) })
		}
		apps := map[string][]*Term{}
		subterms(out, func(t *Term) {
			if t.op == OApp && !t.bound {
				apps[t.name] = append(apps[t.name], t)
			}
		})
		type cand struct {
			fa, body *Term
			m        map[*Term]*Term
			prio     int
		}
		var cands []cand
		seenF := map[*Term]bool{}
		for _, fa := range fas {
			if seenF[fa] {
				continue
			}
			seenF[fa] = true
			n := len(fa.args) - 1
			vars := map[*Term]bool{}
			for _, v := range fa.args[:n] {
				vars[v] = true
			}
			body := fa.args[n]
			var pats []*Term
			subterms([]*Term{body}, func(t *Term) {
				if t.op == OApp && t.bound {
					pats = append(pats, t)
				}
			})
			emit := func(m map[*Term]*Term) {
				k := strconv.Itoa(fa.id)
				for _, v := range fa.args[:n] {
					x, ok := m[v]
					if !ok {
						return
					}
					k += "," + strconv.Itoa(x.id)
				}
				if done[k] || len(cands) >= 20*limit {
					return
				}
				done[k] = true
				prio := 0
				for _, v := range fa.args[:n] {
					prio = max(prio, lastSkolem(m[v], mine))
				}
				cands = append(cands, cand{fa, body, m, prio})
			}
			for _, p := range pats {
				for _, g := range apps[p.name] {
					m := map[*Term]*Term{}
					ok := true
					for i := range p.args {
						if !matchArg(p.args[i], g.args[i], vars, m) {
							ok = false
							break
						}
					}
					if !ok {
						continue
					}
					if len(m) == n {
						emit(m)
						continue
					}
					// second pattern to cover the remaining variables
					for _, p2 := range pats {
						if p2 == p {
							continue
						}
						for _, g2 := range apps[p2.name] {
							m2 := map[*Term]*Term{}
							for k, v := range m {
								m2[k] = v
							}
							ok := true
							for i := range p2.args {
								if !matchArg(p2.args[i], g2.args[i], vars, m2) {
									ok = false
									break
								}
							}
							if ok && len(m2) == n {
								emit(m2)
							}
						}
					}
				}
			}
		}
		if total+len(cands) > limit { // too many: those closest to the goal first
			sort.SliceStable(cands, func(i, j int) bool { return cands[i].prio < cands[j].prio })
			c := limit - total
			if r < rounds-1 {
				c = min(len(cands), c*2/3)
			}
			cands = cands[:c]
		}
		if len(cands) == 0 {
			break
		}
		total += len(cands)
		for _, c := range cands {
			if os.Getenv("GOVC_INST") != "" {
				fmt.Fprintf(os.Stderr, "INST %d/%d prio %d fa%d:", r, len(cands), c.prio, c.fa.id)
				for _, v := range c.fa.args[:len(c.fa.args)-1] {
					fmt.Fprintf(os.Stderr, " %s", c.m[v])
				}
				fmt.Fprintln(os.Stderr)
			}
			out = append(out, Or(Not(c.fa), nnf(subst(c.body, c.m), true)))
		}
	}
	return out
}

// lastSkolem is the number of the youngest skolem constant in t that is not mine.
func lastSkolem(t *Term, mine map[*Term]bool) int {
	n := 0
	subterms([]*Term{t}, func(t *Term) {
		if t.op == OVar && !mine[t] && strings.HasPrefix(t.name, "sk!") {
			var k int
			fmt.Sscanf(t.name, "sk!%d", &k)
			n = max(n, k)
		}
	})
	return n
}

// abstract remaining universals by boolean constants (sound: weakens hypotheses;
// instances are attached as  ~fa \/ inst).
func abstractForalls(ts []*Term) []*Term {
	m := map[*Term]*Term{}
	subterms(ts, func(t *Term) {
		if t.op == OForall && !t.bound {
			m[t] = Var(Bool, fmt.Sprintf("fa!%d", t.id))
		}
	})
	if len(m) == 0 {
		return ts
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = subst(t, m)
	}
	return out
}

// addAxioms closes the assertion set under the axioms of the built-in symbols.
func addAxioms(ts []*Term) []*Term {
	out := append([]*Term(nil), ts...)
	done := map[*Term]bool{}
	pairs := map[string][]*Term{}
	for round := 0; round < 5; round++ {
		var news []*Term
		subterms(out, func(t *Term) {
			if done[t] || t.bound {
				return
			}
			done[t] = true
			switch t.op {
			case OSqrt:
				a := t.args[0]
				// t*t would be reduced by the normaliser, so state it through a raw product
				sq := mk(OMul, Real, "sq", []*Term{t, t})
				news = append(news, Or(Lt(a, RealI(0)), And(mk(OLe, Bool, "", []*Term{RealI(0), t}), mk(OEq, Bool, "", []*Term{sq, a}))))
				if sg := signOf(a); sg > 0 { // sum of squares: each root is bounded by the square root
					for _, m := range toPoly(a) {
						if r, ok := monoRoot(m); ok {
							news = append(news, mk(OLe, Bool, "", []*Term{r, t}), mk(OLe, Bool, "", []*Term{Neg(t), r}))
						}
					}
				}
			case OInv:
				y := t.args[0]
				pr := mk(OMul, Real, "sq", []*Term{y, t})
				news = append(news, Or(Eq(y, RealI(0)), mk(OEq, Bool, "", []*Term{pr, RealI(1)})))
				news = append(news, Or(Le(y, RealI(0)), mk(OLt, Bool, "", []*Term{RealI(0), t})))
				if signOf(y) <= 0 {
					news = append(news, Or(Ge(y, RealI(0)), mk(OLt, Bool, "", []*Term{t, RealI(0)})))
				}
			case OApp, OVar:
				for _, f := range axioms[t.name] {
					if a := f(t); a != nil && a != True {
						news = append(news, a)
					}
				}
				if pf, ok := pairAxioms[t.name]; ok {
					for _, o := range pairs[t.name] {
						if a := pf(o, t); a != nil && a != True {
							news = append(news, a)
						}
					}
					pairs[t.name] = append(pairs[t.name], t)
				}
			}
		})
		if len(news) == 0 {
			break
		}
		out = append(out, news...)
	}
	return out
}

// monoRoot is r with r*r = m, when m is an obvious square.
func monoRoot(m *mono) (*Term, bool) {
	c, ok := ratSqrt(m.c)
	if !ok || len(m.m)%2 != 0 {
		return nil, false
	}
	var r []*Term
	for i := 0; i < len(m.m); i += 2 {
		if m.m[i] != m.m[i+1] {
			return nil, false
		}
		r = append(r, m.m[i])
	}
	return fromMono(Real, &mono{c, r}), true
}

// slice keeps the assertions connected to the last one (the negated goal) through
// shared symbols.
func slice(ts []*Term, goals []*Term) []*Term {
	used := make([]bool, len(ts))
	cur := map[string]bool{}
	for _, g := range goals {
		for k := range symbols(g) {
			if !strings.HasPrefix(k, "f:") {
				cur[k] = true
			}
		}
	}
	if len(cur) == 0 {
		return ts
	}
	for again := true; again; {
		again = false
		for i, t := range ts {
			if used[i] {
				continue
			}
			hit := false
			n := 0
			for k := range symbols(t) {
				if strings.HasPrefix(k, "f:") {
					continue
				}
				n++
				if cur[k] {
					hit = true
					break
				}
			}
			if hit || n == 0 {
				used[i] = true
				again = true
				for k := range symbols(t) {
					if !strings.HasPrefix(k, "f:") {
						cur[k] = true
					}
				}
			}
		}
	}
	var r []*Term
	for i, t := range ts {
		if used[i] {
			r = append(r, t)
		}
	}
	return r
}

var signCache = map[string]bool{}
var signMu sync.Mutex

// clearInv eliminates divisions by quantities of known sign by multiplying
// comparisons through. Returns the rewritten assertions.
func clearInv(ts []*Term) []*Term {
	skip := map[*Term]bool{}
	for iter := 0; iter < 8; iter++ {
		var inv *Term
		subterms(ts, func(t *Term) {
			if t.op == OInv && !t.bound && !skip[t] && (inv == nil || t.ht > inv.ht || t.ht == inv.ht && t.id > inv.id) {
				inv = t
			}
		})
		if inv == nil {
			return ts
		}
		skip[inv] = true
		q := inv.args[0]
		sg := invSign(ts, q)
		if sg == 0 {
			continue
		}
		memo := map[*Term]*Term{}
		var f func(t *Term) *Term
		f = func(t *Term) *Term {
			if t.sort != Bool {
				return t
			}
			if r, ok := memo[t]; ok {
				return r
			}
			r := t
			switch t.op {
			case OAnd, OOr, ONot:
				args := make([]*Term, len(t.args))
				for i, a := range t.args {
					args[i] = f(a)
				}
				r = rebuild(t, args)
			case OIte:
				r = Ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
			case OLe, OLt, OEq:
				if t.args[0].sort == Real {
					if d, deg, ok := clearPoly(Sub(t.args[0], t.args[1]), inv, q); ok {
						z := RealI(0)
						flip := sg < 0 && deg%2 == 1
						switch {
						case t.op == OEq:
							r = Eq(d, z)
						case t.op == OLe && !flip:
							r = Le(d, z)
						case t.op == OLe:
							r = Le(z, d)
						case !flip:
							r = Lt(d, z)
						default:
							r = Lt(z, d)
						}
					}
				} else if t.op == OEq && t.args[0].sort == Bool {
					r = Eq(f(t.args[0]), f(t.args[1]))
				}
			}
			memo[t] = r
			return r
		}
		var out []*Term
		for _, t := range ts {
			out = append(out, f(t))
		}
		// remember the sign
		if sg > 0 {
			out = append(out, Lt(RealI(0), q))
		} else {
			out = append(out, Lt(q, RealI(0)))
		}
		ts = out
	}
	return ts
}

func clearPoly(d, inv, q *Term) (*Term, int, bool) {
	p := toPoly(d)
	deg := 0
	for _, m := range p {
		n := 0
		for _, a := range m.m {
			if a == inv {
				n++
			}
		}
		if n > deg {
			deg = n
		}
	}
	if deg == 0 || len(p) > 200 {
		return nil, 0, false
	}
	qp := toPoly(q)
	pow := []poly{{"": {rat1, nil}}}
	for i := 1; i <= deg; i++ {
		pow = append(pow, mulPoly(pow[i-1], qp))
	}
	r := poly{}
	for _, m := range p {
		n := 0
		var rest []*Term
		for _, a := range m.m {
			if a == inv {
				n++
			} else {
				rest = append(rest, a)
			}
		}
		base := poly{}
		base.add(m.c, rest)
		for _, z := range mulPoly(base, pow[deg-n]) {
			r.add(z.c, z.m)
		}
		if len(r) > 600 {
			return nil, 0, false
		}
	}
	return fromPoly(Real, r), deg, true
}

// invSign determines the sign of q from the assertions: +1, -1 or 0 (unknown).
func invSign(ts []*Term, q *Term) int {
	sos := signOf(q)
	if sos == 1 {
		return 1
	}
	syms := symbols(q)
	var hy []*Term
	for _, t := range ts {
		for _, c := range conj(t) {
			ok := true
			n := 0
			for k := range symbols(c) {
				if strings.HasPrefix(k, "f:") {
					continue
				}
				n++
				if !syms[k] {
					ok = false
					break
				}
			}
			if ok && n > 0 {
				hy = append(hy, c)
			}
		}
	}
	lm := map[*Term]*Term{}
	for _, h := range hy {
		for k, v := range litMap(h) {
			lm[k] = v
		}
	}
	if lm[Lt(RealI(0), q)] == True || Lt(RealI(0), q) == True {
		return 1
	}
	if lm[Lt(q, RealI(0))] == True || Lt(q, RealI(0)) == True {
		return -1
	}
	try := func(neg *Term) bool {
		as := addAxioms(append(append([]*Term(nil), hy...), neg))
		s := smtlib(as, smtOpts{purify: true})
		signMu.Lock()
		r, ok := signCache[s]
		signMu.Unlock()
		if ok {
			return r
		}
		termMu.Unlock()
		res, _ := runSolver(context.Background(), "z3-new", s, 300)
		termMu.Lock()
		signMu.Lock()
		signCache[s] = res == "unsat"
		signMu.Unlock()
		return res == "unsat"
	}
	if len(hy) > 40 {
		return 0
	}
	if try(Le(q, RealI(0))) {
		return 1
	}
	if sos <= 0 && try(Ge(q, RealI(0))) {
		return -1
	}
	return 0
}

// ---------- SMT-LIB output ----------

type smtOpts struct {
	purify bool
	logic  string
	model  bool
}

func smtlib(ts []*Term, o smtOpts) string {
	var b strings.Builder
	refs := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	leaf := func(t *Term) bool {
		return t.op == OInv || t.op == OSqrt || (o.purify && t.op == OApp)
	}
	walk = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		if !leaf(t) && t.op != OForall {
			for _, a := range t.args {
				walk(a)
			}
		}
		if t.op == OForall {
			// bodies are printed inline; still declare their symbols
			subterms([]*Term{t}, func(x *Term) {
				if (x.op == OVar && !x.bound || x.op == OApp) && !seen[x] {
					seen[x] = true
					order = append(order, x)
					refs[x]++
				}
			})
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	ints, reals, nonlin, uf, quant := false, false, false, false, false
	for _, t := range order {
		switch t.sort {
		case Int:
			ints = true
		case Real:
			reals = true
		}
		if t.op == OMul && len(t.args) > 1 && t.args[0].op != OConst || t.op == OMul && len(t.args) > 2 {
			nonlin = true
		}
		if t.op == OApp && !o.purify {
			uf = true
		}
		if t.op == OForall {
			quant = true
		}
	}
	if !quant && !uf && reals && !ints {
		if nonlin {
			b.WriteString("(set-logic QF_NRA)\n")
		} else {
			b.WriteString("(set-logic QF_LRA)\n")
		}
	} else if o.logic != "" {
		fmt.Fprintf(&b, "(set-logic %s)\n", o.logic)
	}
	names := map[*Term]string{}
	declared := map[string]bool{}
	for _, t := range order {
		switch {
		case t.op == OVar && !t.bound:
			n := smtName(t.name)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", n, t.sort)
			}
		case t.op == OInv:
			names[t] = fmt.Sprintf("inv!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () Real)\n", names[t])
		case t.op == OSqrt:
			names[t] = fmt.Sprintf("sqrt!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () Real)\n", names[t])
		case t.op == OApp && o.purify:
			names[t] = fmt.Sprintf("app!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n", names[t], t.sort)
		case t.op == OApp:
			n := smtName(t.name)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&b, "(declare-fun %s (", n)
				for _, a := range t.args {
					fmt.Fprintf(&b, "%s ", a.sort)
				}
				fmt.Fprintf(&b, ") %s)\n", t.sort)
			}
		}
		if !t.bound && !leaf(t) && refs[t] > 1 && len(t.args) > 0 && t.op != OForall {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort, printTerm(t, names, 1<<30))
			names[t] = n
		}
	}
	for _, t := range ts {
		if t == True {
			continue
		}
		fmt.Fprintf(&b, "(assert %s)\n", printTerm(t, names, 1<<30))
	}
	b.WriteString("(check-sat)\n")
	if o.model {
		b.WriteString("(get-model)\n")
	}
	return b.String()
}

// linearize replaces non-linear products by fresh variables (a weakening).
func linearize(ts []*Term) ([]*Term, bool) {
	m := map[*Term]*Term{}
	subterms(ts, func(t *Term) {
		if t.op != OMul || t.sort != Real || t.bound || m[t] != nil {
			return
		}
		c := RatC(new(big.Rat).SetInt64(1))
		var fs []*Term
		for _, a := range t.args {
			if a.op == OConst {
				c = Mul(c, a)
			} else {
				fs = append(fs, a)
			}
		}
		if len(fs) < 2 || t.sort != Real {
			return
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		var k strings.Builder
		k.WriteString("nl!")
		for _, a := range fs {
			fmt.Fprintf(&k, "%d_", a.id)
		}
		m[t] = Mul(c, Var(Real, k.String()))
	})
	if len(m) == 0 {
		return ts, false
	}
	out := make([]*Term, len(ts))
	for i, t := range ts {
		out[i] = subst(t, m)
	}
	return out, true
}

// ---------- running solvers ----------

type solverCmd struct {
	name string
	args func(ms int) []string
}

var solvers = map[string]solverCmd{
	"z3-new": {"z3-new", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms)} }},
	"z3":     {"z3", func(ms int) []string { return []string{"-in", fmt.Sprintf("-t:%d", ms)} }},
	"cvc5":   {"cvc5", func(ms int) []string { return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--nl-cov"} }},
}

var (
	solverMu   sync.Mutex
	solverTime = map[string]float64{}
	solverWins = map[string]int{}
	slots      = make(chan struct{}, 8)
)

func runSolver(ctx context.Context, name, script string, ms int) (string, string) {
	slots <- struct{}{}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "unknown", ""
	}
	sc := solvers[name]
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, sc.name, sc.args(ms)...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	_ = cmd.Run()
	solverMu.Lock()
	solverTime[name] += time.Since(t0).Seconds()
	solverMu.Unlock()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	if strings.HasPrefix(first, "(error") && os.Getenv("GOVC_DEBUG") != "" {
		f := fmt.Sprintf("/tmp/govc_err_%s.smt2", name)
		os.WriteFile(f, []byte(script), 0o644)
		fmt.Fprintln(os.Stderr, "solver error:", name, first, f)
	}
	switch first {
	case "unsat", "sat":
		return first, s
	}
	return "unknown", s
}

type attempt struct {
	solver string
	script string
}

// portfolio runs attempts concurrently; unsat wins; sat only from exact scripts.
func portfolio(as []attempt, ms int) (res, by, out string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type r struct{ res, by, out string }
	ch := make(chan r, len(as))
	for _, a := range as {
		a := a
		go func() {
			x, o := runSolver(ctx, a.solver, a.script, ms)
			ch <- r{x, a.solver, o}
		}()
	}
	res = "unknown"
	for range as {
		x := <-ch
		if x.res == "unsat" {
			return x.res, x.by, x.out
		}
		if x.res == "sat" && res != "sat" {
			res, by, out = "sat", x.by, x.out
		}
	}
	return
}

// ---------- quick in-line prover ----------

type quickZ3 struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func newQuick() *quickZ3 {
	q := &quickZ3{}
	q.cmd = exec.Command("z3-new", "-in")
	q.in, _ = q.cmd.StdinPipe()
	o, _ := q.cmd.StdoutPipe()
	q.out = bufio.NewReader(o)
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	return q
}

func (q *quickZ3) check(script string, ms int) string {
	fmt.Fprintf(q.in, "(reset)\n(set-option :timeout %d)\n(set-option :rlimit 3000000)\n%s(echo \"done\")\n", ms, script)
	res := "unknown"
	for {
		l, err := q.out.ReadString('\n')
		if err != nil {
			return "dead"
		}
		l = strings.TrimSpace(l)
		if l == "done" || l == "\"done\"" {
			return res
		}
		if l == "sat" || l == "unsat" {
			res = l
		}
		if strings.HasPrefix(l, "(error") && os.Getenv("GOVC_DEBUG") != "" {
			os.WriteFile("/tmp/govc_quick_err.smt2", []byte(script), 0o644)
			fmt.Fprintln(os.Stderr, "quick solver:", l)
		}
	}
}

// ---------- relevance ----------

func symbols(t *Term) map[string]bool {
	if s, ok := symMemo[t]; ok {
		return s
	}
	r := map[string]bool{}
	subterms([]*Term{t}, func(x *Term) {
		switch x.op {
		case OVar:
			if !x.bound {
				r[x.name] = true
			}
		case OApp:
			if !x.bound {
				r["#"+strconv.Itoa(x.id)] = true
			}
			r["f:"+x.name] = true
		}
	})
	symMemo[t] = r
	return r
}

var symMemo = map[*Term]map[string]bool{}

// relevant selects facts connected to the seed through shared symbols, up to depth steps.
func relevant(facts []*Term, seed []*Term, depth int) []*Term {
	cur := map[string]bool{}
	for _, s := range seed {
		for k := range symbols(s) {
			cur[k] = true
		}
	}
	used := make([]bool, len(facts))
	var out []*Term
	for d := 0; d < depth; d++ {
		var add []int
		for i, f := range facts {
			if used[i] {
				continue
			}
			q := hasForall(f)
			for k := range symbols(f) {
				isf := strings.HasPrefix(k, "f:")
				if isf && !q {
					continue
				}
				if cur[k] {
					add = append(add, i)
					break
				}
			}
		}
		if len(add) == 0 {
			break
		}
		for _, i := range add {
			used[i] = true
			for k := range symbols(facts[i]) {
				cur[k] = true
			}
		}
	}
	for i, f := range facts {
		if used[i] || len(symbols(f)) == 0 {
			out = append(out, f)
		}
	}
	return out
}

// ---------- literals known from a path condition ----------

func litMap(pc *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, l := range conj(pc) {
		m[l] = True
		m[Not(l)] = False
		switch l.op {
		case OLt:
			m[mk(OLe, Bool, "", l.args)] = True
			m[Le(l.args[0], l.args[1])] = True
			m[Eq(l.args[0], l.args[1])] = False
			m[Le(l.args[1], l.args[0])] = False
			m[Lt(l.args[1], l.args[0])] = False
		case OLe:
			m[Lt(l.args[1], l.args[0])] = False
		case OEq:
			if l.args[0].sort != Bool {
				m[Lt(l.args[1], l.args[0])] = False
				m[Lt(l.args[0], l.args[1])] = False
				m[Le(l.args[1], l.args[0])] = True
				m[Le(l.args[0], l.args[1])] = True
				if l.args[1].op == OConst && (l.args[0].op == OVar || l.args[0].op == OApp) {
					m[l.args[0]] = l.args[1]
				}
			}
		}
	}
	delete(m, True)
	delete(m, False)
	return m
}

func simpUnder(t, pc *Term) *Term {
	if t == True || t == False || pc == True {
		return t
	}
	if pc == False {
		return True
	}
	return subst(t, litMap(pc))
}

// ---------- proving ----------

type Result struct {
	ok   bool
	by   string
	out  string // solver output when not proved
	secs float64
}

func hashTerms(ts []*Term) string {
	h := sha256.New()
	for _, t := range ts {
		fmt.Fprintf(h, "%d,", t.id)
	}
	return string(h.Sum(nil))
}

func dumpDir() string { return os.Getenv("GOVC_DUMP") }

// iteConds lists candidate split conditions, most frequent first.
func iteConds(ts []*Term) []*Term {
	cnt := map[*Term]int{}
	subterms(ts, func(t *Term) {
		if t.op == OIte && !t.args[0].bound {
			c := t.args[0]
			switch c.op {
			case OAnd, OOr:
				for _, a := range c.args {
					if a.op == ONot {
						a = a.args[0]
					}
					cnt[a]++
				}
			default:
				cnt[c] += 2
			}
		}
	})
	var r []*Term
	for c := range cnt {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool {
		if cnt[r[i]] != cnt[r[j]] {
			return cnt[r[i]] > cnt[r[j]]
		}
		return r[i].id < r[j].id
	})
	return r
}

func goalParts(g *Term) []*Term {
	if g.op == OAnd {
		var r []*Term
		for _, a := range g.args {
			r = append(r, goalParts(a)...)
		}
		return r
	}
	return []*Term{g}
}

func polyProve(g *Term) bool {
	switch g.op {
	case OTrue:
		return true
	case OEq:
		if g.args[0].sort == Real {
			return isZeroPoly(Sub(g.args[0], g.args[1]))
		}
	case OOr:
		for _, a := range g.args {
			if polyProve(a) {
				return true
			}
		}
	case OAnd:
		for _, a := range g.args {
			if !polyProve(a) {
				return false
			}
		}
		return true
	case OLe:
		if g.args[0].sort == Real && isZeroPoly(Sub(g.args[0], g.args[1])) {
			return true
		}
	}
	return false
}

var dumpN int
var termMu sync.Mutex // terms are not safe for concurrent construction

// scripts builds the SMT scripts for facts /\ pc => goal at a given effort.
func scripts(facts []*Term, pc, goal *Term, effort int) (as []attempt, trivially bool) {
	termMu.Lock()
	defer termMu.Unlock()
	goal = simpUnder(goal, pc)
	if goal == True {
		return nil, true
	}
	neg := nnf(goal, false)
	depth := []int{1, 2, 6}[effort]
	rel := relevant(facts, []*Term{pc, goal}, depth)
	lm := litMap(pc)
	hyps := []*Term{nnf(pc, true)}
	for _, f := range rel {
		f = subst(f, lm)
		if f == False {
			return nil, true
		}
		hyps = append(hyps, nnf(f, true))
	}
	hyps = append(hyps, neg)
	// unit propagation of literals across the whole set
	hyps = propagate(hyps)
	if hyps == nil {
		return nil, true
	}
	g := instantiate(hyps, neg, []int{1, 2, 3}[effort], []int{60, 300, 900}[effort])
	exact := g
	quantFree := abstractForalls(g)
	quantFree = propagate(quantFree)
	if quantFree == nil {
		return nil, true
	}
	disc := discrete(quantFree)
	quantFree = slice(quantFree, nnfGoal(neg, lm, quantFree))
	if cl := propagate(clearInv(quantFree)); cl == nil {
		return nil, true
	} else {
		quantFree = cl
	}
	el, elim := elimEqs(quantFree)
	if elim && el == nil {
		return nil, true
	}
	qf := addAxioms(quantFree)
	pur := smtlib(qf, smtOpts{purify: true})
	full := smtlib(qf, smtOpts{model: effort > 0})
	switch effort {
	case 0:
		as = append(as, attempt{"z3-new", pur})
		if lin, ch := linearize(qf); ch {
			as = append(as, attempt{"z3-new", smtlib(lin, smtOpts{purify: true})})
		}
		if elim {
			as = append(as, attempt{"z3-new", smtlib(addAxioms(el), smtOpts{purify: true})})
		}
		if len(disc) > 0 {
			as = append(as, attempt{"z3-new", smtlib(disc, smtOpts{purify: true})})
		}
	case 1:
		as = append(as, attempt{"z3-new", pur}, attempt{"z3-new", full}, attempt{"cvc5", pur})
		if elim {
			as = append(as, attempt{"z3-new", smtlib(addAxioms(el), smtOpts{purify: true})})
		}
	default:
		as = append(as, attempt{"z3-new", pur}, attempt{"z3-new", full}, attempt{"cvc5", full}, attempt{"z3", pur}, attempt{"cvc5", pur})
		if len(exact) > 0 {
			as = append(as, attempt{"z3-new", smtlib(addAxioms(exact), smtOpts{})})
		}
	}
	if d := dumpDir(); d != "" {
		dumpN++
		if lin, ch := linearize(qf); ch {
			os.WriteFile(filepath.Join(d, fmt.Sprintf("q%05d_%d_lin.smt2", dumpN, effort)), []byte(smtlib(lin, smtOpts{purify: true})), 0o644)
		}
		os.WriteFile(filepath.Join(d, fmt.Sprintf("q%05d_%d.smt2", dumpN, effort)), []byte(pur), 0o644)
		if effort > 0 {
			os.WriteFile(filepath.Join(d, fmt.Sprintf("q%05d_%d_full.smt2", dumpN, effort)), []byte(full), 0o644)
		}
	}
	return as, false
}

// nnfGoal picks the symbols that must be kept when slicing.
func nnfGoal(neg *Term, lm map[*Term]*Term, ts []*Term) []*Term {
	g := subst(neg, lm)
	if len(symbols(g)) == 0 {
		return ts
	}
	return []*Term{g}
}

// propagate substitutes unit literals and simple equalities; nil means unsat.
// discrete keeps the hypotheses without real arithmetic (contradictions among
// references and types are found fast without the rest).
func discrete(ts []*Term) (r []*Term) {
	for _, t := range ts {
		real := false
		subterms([]*Term{t}, func(s *Term) { real = real || s.sort == Real })
		if !real {
			r = append(r, t)
		}
	}
	return r
}

func propagate(ts []*Term) []*Term {
	for round := 0; round < 6; round++ {
		var all []*Term
		for _, t := range ts {
			all = append(all, conj(t)...)
		}
		m := map[*Term]*Term{}
		var units []*Term
		for _, t := range all {
			if t == False {
				return nil
			}
			if t.op == OAnd || t.op == OOr || t.op == OForall || t.op == OIte || t.op == OTrue {
				continue
			}
			if _, dup := m[t]; dup {
				continue
			}
			units = append(units, t)
			for k, v := range litMap(t) {
				if _, ok := m[k]; !ok {
					m[k] = v
				}
			}
		}
		ch := false
		isUnit := map[*Term]bool{}
		for _, u := range units {
			isUnit[u] = true
		}
		var out []*Term
		for _, t := range all {
			if isUnit[t] {
				// keep literals; only check for direct contradiction
				if m[t] == False {
					return nil
				}
				out = append(out, t)
				continue
			}
			n := subst(t, m)
			if n != t {
				ch = true
			}
			if n == False {
				return nil
			}
			if n != True {
				out = append(out, n)
			}
		}
		ts = out
		if !ch {
			break
		}
	}
	// drop duplicates
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if t != True && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	if out == nil {
		out = []*Term{True}
	}
	return out
}

type proveCfg struct {
	ms    [3]int // time limits of the stages
	split int    // case-split depth
}

func prove(facts []*Term, pc, goal *Term, cfg proveCfg) Result {
	t0 := time.Now()
	fin := func(ok bool, by, out string) Result {
		return Result{ok, by, out, time.Since(t0).Seconds()}
	}
	termMu.Lock()
	g := simpUnder(goal, pc)
	pp := g == True || pc == False || polyProve(g)
	parts := goalParts(g)
	termMu.Unlock()
	if pp {
		return fin(true, "normal-form", "")
	}
	if len(parts) > 1 {
		by := ""
		for _, p := range parts {
			r := prove(facts, pc, p, cfg)
			if !r.ok {
				return fin(false, r.by, r.out)
			}
			by = r.by
		}
		return fin(true, by, "")
	}
	out := ""
	for st := 0; st < 3; st++ {
		if cfg.ms[st] == 0 {
			continue
		}
		as, triv := scripts(facts, pc, g, st)
		if triv {
			return fin(true, "normal-form", "")
		}
		res, by, o := portfolio(as, cfg.ms[st])
		if res == "unsat" {
			return fin(true, by, "")
		}
		if o != "" {
			out = res + " (" + by + ")\n" + o
		}
		if st == 0 && cfg.split > 0 {
			if ok, by := proveSplit(facts, pc, g, cfg.split, cfg.ms[0]); ok {
				return fin(true, by+"+split", "")
			}
		}
	}
	if out == "" {
		out = "unknown (all back ends)"
	}
	return fin(false, "", out)
}

// goalConds lists the ite conditions of a term, those of the outermost ites first.
func goalConds(ts []*Term) []*Term {
	best := map[*Term]int{}
	subterms(ts, func(t *Term) {
		if t.op == OIte && !t.args[0].bound {
			if best[t.args[0]] < t.ht {
				best[t.args[0]] = t.ht
			}
		}
	})
	var r []*Term
	for c := range best {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool {
		if best[r[i]] != best[r[j]] {
			return best[r[i]] > best[r[j]]
		}
		return r[i].id < r[j].id
	})
	return r
}

// proveSplit performs case analysis: first on the conditional values of the goal, then
// on those of the hypotheses. The solver is consulted at the leaves.
func proveSplit(facts []*Term, pc, goal *Term, depth, ms int) (bool, string) {
	termMu.Lock()
	rel := relevant(facts, []*Term{pc, goal}, 1)
	termMu.Unlock()
	n := 0
	return splitRec(rel, pc, goal, depth, ms, &n, true)
}

func splitRec(facts []*Term, pc, goal *Term, depth, ms int, leaves *int, top bool) (bool, string) {
	termMu.Lock()
	cs := goalConds([]*Term{goal})
	inGoal := len(cs) > 0
	if !inGoal {
		cs = append(goalConds(facts), iteConds(append([]*Term{pc}, facts...))...)
	}
	var c *Term
	have := litMap(pc)
	for _, x := range cs {
		if _, ok := have[x]; !ok {
			c = x
			break
		}
	}
	termMu.Unlock()
	if !inGoal && !top {
		*leaves++
		if *leaves > 40 {
			return false, ""
		}
		as, triv := scripts(facts, pc, goal, 0)
		if triv {
			return true, "normal-form"
		}
		if res, b, _ := portfolio(as, ms); res == "unsat" {
			return true, b
		}
	}
	if c == nil || depth == 0 {
		if os.Getenv("GOVC_SPLIT") != "" {
			fmt.Fprintf(os.Stderr, "SPLIT-FAIL depth=%d c==nil:%v inGoal:%v leaves=%d goal=%.700v facts=%d\n", depth, c == nil, inGoal, *leaves, goal, len(facts))
			if os.Getenv("GOVC_SPLIT") == "2" {
				for _, t := range append(conj(pc), facts...) {
					fmt.Fprintf(os.Stderr, "   H %.700v\n", t)
				}
			}
		}
		return false, ""
	}
	by := "normal-form"
	for _, side := range []bool{true, false} {
		termMu.Lock()
		l := c
		if !side {
			l = Not(c)
		}
		m := litMap(l)
		npc := And(subst(pc, m), l)
		ng := simpUnder(subst(goal, m), npc)
		done := npc == False || ng == True || polyProve(ng)
		var nf []*Term
		if !done {
			for _, f := range facts {
				g := simpUnder(subst(f, m), npc)
				if g == False {
					done = true
					break
				}
				if g != True {
					nf = append(nf, g)
				}
			}
		}
		termMu.Unlock()
		if done {
			continue
		}
		ok, b2 := splitRec(nf, npc, ng, depth-1, ms, leaves, false)
		if !ok {
			return false, ""
		}
		if b2 != "normal-form" {
			by = b2
		}
	}
	return true, by
}
