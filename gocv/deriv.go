package main

import "math/big"

func freeBVs(t *Term) []*Term {
	var r []*Term
	for v := range freeOf(t) {
		if v.op == OBVar {
			r = append(r, v)
		}
	}
	sortTerms(r)
	return r
}

func sortTerms(r []*Term) {
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].id < r[j-1].id; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
}

// derivBy differentiates a real term by a real variable.  A conditional is
// differentiated on each of its pieces; the conditions are kept.
func derivBy(t, b *Term) *Term {
	if !occurs(b, t) {
		return RealN(0)
	}
	if t == b {
		return RealN(1)
	}
	switch t.op {
	case OPoly:
		var sum []*Term
		for _, m := range t.mons {
			for i, a := range m.A {
				if !occurs(b, a) {
					continue
				}
				p := Num(RealS, m.C)
				for j, o := range m.A {
					if j != i {
						p = Mul(p, o)
					}
				}
				sum = append(sum, Mul(p, derivBy(a, b)))
			}
		}
		return Add(sum...)
	case OIte:
		return Ite(t.args[0], derivBy(t.args[1], b), derivBy(t.args[2], b))
	case OApp:
		x := t.args[0]
		var d *Term
		switch t.name {
		case "exp":
			d = t
		case "log":
			d = Inv(x)
		case "inv":
			d = Neg(Mul(t, t))
		case "sqrt":
			d = Mul(Num(RealS, big.NewRat(1, 2)), Inv(t))
		case "tanh":
			d = Sub(RealN(1), Mul(t, t))
		case "u.math.Sin":
			d = App("u.math.Cos", RealS, x)
		case "u.math.Tan":
			c := App("u.math.Cos", RealS, x)
			d = Inv(Mul(c, c))
		case "u.math.Cos":
			d = Neg(App("u.math.Sin", RealS, x))
		case "pow":
			if !occurs(b, t.args[1]) {
				d = Mul(t.args[1], Pow(x, Sub(t.args[1], RealN(1))))
			}
		}
		if d == nil {
			specFail("deriv of %s", t)
		}
		return Mul(d, derivBy(x, b))
	}
	specFail("deriv of %s", t)
	return nil
}
