package main

import "math/big"

// elimEqs substitutes quantities that an equation among the hypotheses defines
// (x = e, with x an atom not occurring in e), so that equal arguments of uninterpreted
// functions become syntactically equal. Equivalence-preserving: the equation itself
// turns into true only after x is gone everywhere. Returns nil if the hypotheses
// contradict each other.
func elimEqs(ts []*Term) (out []*Term, changed bool) {
	var all []*Term
	for _, t := range ts {
		all = append(all, conj(t)...)
	}
	for round := 0; round < 120; round++ {
		var x, e *Term
		for _, t := range all {
			if t.op != OEq || t.bound || t.args[0].sort != Real {
				continue
			}
			if x, e = definedAtom(Sub(t.args[0], t.args[1])); x != nil {
				break
			}
		}
		if x == nil {
			break
		}
		changed = true
		m := map[*Term]*Term{x: e}
		var nx []*Term
		for _, t := range all {
			n := subst(t, m)
			if n == False {
				return nil, true
			}
			if n != True {
				nx = append(nx, conj(n)...)
			}
		}
		all = nx
	}
	if !changed {
		return ts, false
	}
	return propagate(all), true
}

// definedAtom finds an atom x with d = c*x + rest, x not in rest; e = -rest/c.
func definedAtom(d *Term) (x, e *Term) {
	p := toPoly(d)
	if len(p) > 8 {
		return nil, nil
	}
	var best *mono
	for _, m := range p {
		if len(m.m) != 1 || m.c.Sign() == 0 {
			continue
		}
		a := m.m[0]
		if (a.op != OVar && a.op != OApp) || a.bound {
			continue
		}
		if best != nil && best.m[0].id > a.id {
			continue
		}
		n := 0
		for _, o := range p {
			for _, f := range o.m {
				if f == a || contains(f, a) {
					n++
				}
			}
		}
		if n == 1 {
			best = m
		}
	}
	if best == nil {
		return nil, nil
	}
	a := best.m[0]
	rest := Sub(d, Scale(best.c, a))
	inv := new(big.Rat).Inv(best.c)
	return a, Scale(inv.Neg(inv), rest)
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.ht <= x.ht {
		return false
	}
	found := false
	subterms([]*Term{t}, func(s *Term) {
		if s == x {
			found = true
		}
	})
	return found
}
