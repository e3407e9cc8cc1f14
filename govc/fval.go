package main

import (
	"fmt"
	"math"
	"math/big"
)

// FV models an IEEE-754 float: exactly one of nan, pi (+Inf), ni (-Inf) may hold;
// otherwise the value is the exact real v. Rounding and overflow are not modelled.
type FV struct {
	nan, pi, ni *Term
	v           *Term
}

func Fin(v *Term) FV { return FV{False, False, False, v} }
func FC(f float64) FV {
	switch {
	case math.IsNaN(f):
		return FV{True, False, False, RealI(0)}
	case math.IsInf(f, 1):
		return FV{False, True, False, RealI(0)}
	case math.IsInf(f, -1):
		return FV{False, False, True, RealI(0)}
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	return Fin(RatC(r))
}

func (a FV) fin() *Term    { return And(Not(a.nan), Not(a.pi), Not(a.ni)) }
func (a FV) isFin() bool   { return a.nan == False && a.pi == False && a.ni == False }
func (a FV) inf() *Term    { return Or(a.pi, a.ni) }
func (a FV) String() string {
	if a.isFin() {
		return a.v.String()
	}
	return fmt.Sprintf("{nan:%v +inf:%v -inf:%v v:%v}", a.nan, a.pi, a.ni, a.v)
}

// clean normalises v when it is irrelevant
func (a FV) norm() FV {
	if a.nan == True || a.pi == True || a.ni == True {
		a.v = RealI(0)
	}
	return a
}

func (a FV) pos() *Term  { return Or(a.pi, And(a.fin(), Gt(a.v, RealI(0)))) }
func (a FV) neg() *Term  { return Or(a.ni, And(a.fin(), Lt(a.v, RealI(0)))) }
func (a FV) zero() *Term { return And(a.fin(), Eq(a.v, RealI(0))) }

func FNeg(a FV) FV { return FV{a.nan, a.ni, a.pi, Neg(a.v)} }

func FAdd(a, b FV) FV {
	if a.isFin() && b.isFin() {
		return Fin(Add(a.v, b.v))
	}
	nan := Or(a.nan, b.nan, And(a.pi, b.ni), And(a.ni, b.pi))
	return FV{
		nan: nan,
		pi:  And(Or(a.pi, b.pi), Not(nan)),
		ni:  And(Or(a.ni, b.ni), Not(nan)),
		v:   Add(a.v, b.v),
	}.norm()
}

func FSub(a, b FV) FV { return FAdd(a, FNeg(b)) }

func FMul(a, b FV) FV {
	if a.isFin() && b.isFin() {
		return Fin(Mul(a.v, b.v))
	}
	nan := Or(a.nan, b.nan, And(a.inf(), b.zero()), And(a.zero(), b.inf()))
	anyinf := And(Or(a.inf(), b.inf()), Not(nan))
	samesign := Or(And(a.pos(), b.pos()), And(a.neg(), b.neg()))
	return FV{
		nan: nan,
		pi:  And(anyinf, samesign),
		ni:  And(anyinf, Not(samesign)),
		v:   Mul(a.v, b.v),
	}.norm()
}

// nz is the (unknown but fixed) sign of the real term t when it is zero.
func nz(t *Term) *Term {
	switch t.op {
	case OConst:
		return False
	case OIte:
		return Ite(t.args[0], nz(t.args[1]), nz(t.args[2]))
	case OMul:
		if t.args[0].op == OConst && len(t.args) == 2 {
			if t.args[0].rat.Sign() < 0 {
				return Not(nz(t.args[1]))
			}
			return nz(t.args[1])
		}
	case OSqrt:
		return False
	}
	return Var(Bool, fmt.Sprintf("nz!%d", t.id))
}

func (a FV) signbit() *Term { // for non-NaN
	return Or(a.ni, And(a.fin(), Or(Lt(a.v, RealI(0)), And(Eq(a.v, RealI(0)), nz(a.v)))))
}

// FDiv; bz tells whether b may be zero (a term, simplified by the caller)
func FDiv(a, b FV, bzero *Term) FV {
	if a.isFin() && b.isFin() && bzero == False {
		return Fin(Mul(a.v, Inv(b.v)))
	}
	nan := Or(a.nan, b.nan, And(a.inf(), b.inf()), And(a.zero(), b.fin(), bzero))
	toInf := And(Not(nan), Or(a.inf(), And(b.fin(), bzero)))
	sneg := Not(Eq(signOr(a), b.signbit()))
	v := Mul(a.v, Inv(b.v))
	if b.inf() != False {
		v = Ite(b.inf(), RealI(0), v)
	}
	return FV{
		nan: nan,
		pi:  And(toInf, Not(sneg)),
		ni:  And(toInf, sneg),
		v:   v,
	}.norm()
}

func signOr(a FV) *Term { return a.signbit() }

func FIte(c *Term, a, b FV) FV {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	// when one side is not finite its v is irrelevant: reuse the other one
	av, bv := a.v, b.v
	if a.nan == True || a.pi == True || a.ni == True {
		av = bv
	}
	if b.nan == True || b.pi == True || b.ni == True {
		bv = av
	}
	return FV{Ite(c, a.nan, b.nan), Ite(c, a.pi, b.pi), Ite(c, a.ni, b.ni), Ite(c, av, bv)}
}

func FLt(a, b FV) *Term {
	if a.isFin() && b.isFin() {
		return Lt(a.v, b.v)
	}
	return And(Not(a.nan), Not(b.nan), Or(
		And(a.ni, Not(b.ni)),
		And(Not(a.pi), b.pi),
		And(a.fin(), b.fin(), Lt(a.v, b.v))))
}

func FEq(a, b FV) *Term {
	if a.isFin() && b.isFin() {
		return Eq(a.v, b.v)
	}
	return And(Not(a.nan), Not(b.nan), Or(
		And(a.pi, b.pi), And(a.ni, b.ni),
		And(a.fin(), b.fin(), Eq(a.v, b.v))))
}

func FLe(a, b FV) *Term {
	if a.isFin() && b.isFin() {
		return Le(a.v, b.v)
	}
	return Or(FLt(a, b), FEq(a, b))
}

// FSame: identical values, NaN equal to NaN (used for determinism and frames).
func FSame(a, b FV) *Term {
	if a.isFin() && b.isFin() {
		return Eq(a.v, b.v)
	}
	return And(Eq(a.nan, b.nan), Eq(a.pi, b.pi), Eq(a.ni, b.ni),
		Or(Not(a.fin()), Eq(a.v, b.v)))
}
