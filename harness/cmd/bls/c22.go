package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	p12 "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark-crypto/ecc"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"
)

var (
	order = ecc.BLS12_381.ScalarField()
	// seedX is the absolute value of the curve parameter.
	seedX, _ = new(big.Int).SetString("15132376222941642752", 10)
)

func fromA(p bls.G2Affine) els { return cat(from2(&p.X), from2(&p.Y)) }
func toA(c els) bls.G2Affine   { return bls.G2Affine{X: to2(c), Y: to2(c[2:])} }
func fromJ(p bls.G2Jac) els    { return cat(from2(&p.X), from2(&p.Y), from2(&p.Z)) }
func toJ(c els) bls.G2Jac      { return bls.G2Jac{X: to2(c), Y: to2(c[2:]), Z: to2(c[4:])} }

func iA(f []fel) p12.G2Affine   { return p12.G2Affine{X: *i2(f), Y: *i2(f[2:])} }
func iJ(f []fel) p12.G2Jacobian { return p12.G2Jacobian{X: *i2(f), Y: *i2(f[2:]), Z: *i2(f[4:])} }
func iP(f []fel) p12.G2Projective {
	return p12.G2Projective{X: *i2(f), Y: *i2(f[2:]), Z: *i2(f[4:])}
}
func oA(p p12.G2Affine) []fel   { return cat(o2(&p.X), o2(&p.Y)) }
func oJ(p p12.G2Jacobian) []fel { return cat(o2(&p.X), o2(&p.Y), o2(&p.Z)) }

// rpoint is a point of the twist: subgroup members, small multiples, negatives, and points outside the
// subgroup (which the cofactor operations are for).
func rpoint(rng *rand.Rand, subgroup bool) bls.G2Affine {
	_, _, _, g := bls.Generators()
	var p bls.G2Affine
	switch k := rng.Intn(8); {
	case k == 0:
		p.ScalarMultiplication(&g, big.NewInt(int64(1+rng.Intn(5))))
	case k == 1:
		p.ScalarMultiplication(&g, new(big.Int).Sub(order, big.NewInt(int64(1+rng.Intn(5)))))
	case k <= 4 && !subgroup:
		for {
			x := to2(dense(rng, 2))
			if rng.Intn(3) == 0 {
				x.A1.SetZero()
			}
			var y bls.E2
			y.Square(&x).Mul(&y, &x)
			b := to2(els{big.NewInt(4), big.NewInt(4)})
			y.Add(&y, &b)
			if y.Legendre() != 1 {
				continue
			}
			y.Sqrt(&y)
			p = bls.G2Affine{X: x, Y: y}
			if !p.IsOnCurve() {
				panic("harness: point not on the curve")
			}
			break
		}
	default:
		p.ScalarMultiplication(&g, new(big.Int).Rand(rng, order))
	}
	return p
}

func rpoint1(rng *rand.Rand) bls.G1Affine {
	_, _, g, _ := bls.Generators()
	var p bls.G1Affine
	switch rng.Intn(5) {
	case 0:
		p.ScalarMultiplication(&g, big.NewInt(int64(1+rng.Intn(5))))
	case 1:
		p.ScalarMultiplication(&g, new(big.Int).Sub(order, big.NewInt(int64(1+rng.Intn(5)))))
	default:
		p.ScalarMultiplication(&g, new(big.Int).Rand(rng, order))
	}
	return p
}

// jac is a Jacobian representation with a random Z.
func jac(rng *rand.Rand, p bls.G2Affine) bls.G2Jac {
	var j bls.G2Jac
	j.FromAffine(&p)
	if p.IsInfinity() {
		if rng.Intn(2) == 0 { // another representation of infinity
			l := to2(dense(rng, 2))
			var l2, l3 bls.E2
			l2.Square(&l)
			l3.Mul(&l2, &l)
			j.X.Set(&l2)
			j.Y.Set(&l3)
		}
		return j
	}
	switch rng.Intn(3) {
	case 0:
		return j
	}
	l := to2(dense(rng, 2))
	if rng.Intn(4) == 0 {
		l.A0.SetZero()
	}
	var l2, l3 bls.E2
	l2.Square(&l)
	l3.Mul(&l2, &l)
	j.X.Mul(&j.X, &l2)
	j.Y.Mul(&j.Y, &l3)
	j.Z.Mul(&j.Z, &l)
	return j
}

// norm makes the comparison of Jacobian results independent of the representation.
func norm(c els) els {
	j := toJ(c)
	if !j.Z.IsZero() && !j.IsOnCurve() {
		return append(els{big.NewInt(-1)}, c...)
	}
	var a bls.G2Affine
	a.FromJacobian(&j)
	return fromA(a)
}

func psiA(p bls.G2Affine) bls.G2Affine {
	u, v := xiPower(1, 2), xiPower(1, 3)
	u.Inverse(&u)
	v.Inverse(&v)
	var r bls.G2Affine
	r.X.Conjugate(&p.X)
	r.X.Mul(&r.X, &u)
	r.Y.Conjugate(&p.Y)
	r.Y.Mul(&r.Y, &v)
	return r
}

// gop is one group operation: kinds of arguments are a (affine) and j (Jacobian).
type gop struct {
	name  string
	n     int  // operands
	jac   bool // in and out
	f     func(api frontend.API, a [][]fel) []fel
	ref   func(p []bls.G2Affine) (bls.G2Affine, bool)
	heavy bool
}

func mulS(p bls.G2Affine, s *big.Int) bls.G2Affine {
	var j, q bls.G2Jac
	q.FromAffine(&p)
	j.FromAffine(&bls.G2Affine{}) // plain double and add: valid outside the subgroup
	for b := s.BitLen() - 1; b >= 0; b-- {
		j.DoubleAssign()
		if s.Bit(b) == 1 {
			j.AddAssign(&q)
		}
	}
	var r bls.G2Affine
	r.FromJacobian(&j)
	return r
}

func gops() []gop {
	add := func(p []bls.G2Affine) (bls.G2Affine, bool) { var r bls.G2Affine; r.Add(&p[0], &p[1]); return r, true }
	sub := func(p []bls.G2Affine) (bls.G2Affine, bool) { var r bls.G2Affine; r.Sub(&p[0], &p[1]); return r, true }
	dbl := func(p []bls.G2Affine) (bls.G2Affine, bool) { var r bls.G2Affine; r.Double(&p[0]); return r, true }
	neg := func(p []bls.G2Affine) (bls.G2Affine, bool) { var r bls.G2Affine; r.Neg(&p[0]); return r, true }
	phi := func(p []bls.G2Affine) (bls.G2Affine, bool) {
		w := to1(els{new(big.Int).Exp(mustInt("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436"), big.NewInt(2), P)})
		r := p[0]
		r.X.MulByElement(&r.X, &w)
		return r, true
	}
	sc := func(p []bls.G2Affine) (bls.G2Affine, bool) { return mulS(p[0], seedX), true }
	finite := func(f func(p []bls.G2Affine) (bls.G2Affine, bool)) func(p []bls.G2Affine) (bls.G2Affine, bool) {
		return func(p []bls.G2Affine) (bls.G2Affine, bool) { // affine formulas: finite operands of different x
			for i := range p {
				if p[i].IsInfinity() || (i > 0 && p[i].X.Equal(&p[0].X)) {
					return p[0], false
				}
			}
			return f(p)
		}
	}
	return []gop{
		{"G2JacobianAddAssign", 2, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianAddAssign(api, iJ(a[0]), iJ(a[1]))) }, add, false},
		{"G2JacobianSubAssign", 2, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianSubAssign(api, iJ(a[0]), iJ(a[1]))) }, sub, false},
		{"G2JacobianDouble", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianDouble(api, iJ(a[0]))) }, dbl, false},
		{"G2JacobianNeg", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianNeg(api, iJ(a[0]))) }, neg, false},
		{"G2JacobianPsi", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianPsi(api, iJ(a[0]))) }, func(p []bls.G2Affine) (bls.G2Affine, bool) {
			if p[0].IsInfinity() {
				return p[0], true
			}
			return psiA(p[0]), true
		}, false},
		{"G2JacobianPhi", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianPhi(api, iJ(a[0]))) }, phi, false},
		{"G2JacobianConstScalarMul", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(p12.G2JacobianConstScalarMul(api, iJ(a[0]))) }, sc, true},
		{"ClearCofactor", 1, true, func(api frontend.API, a [][]fel) []fel { return oJ(*p12.ClearCofactor(api, iJ(a[0]))) }, func(p []bls.G2Affine) (bls.G2Affine, bool) {
			var r bls.G2Affine
			r.ClearCofactor(&p[0])
			return r, true
		}, true},
		{"G2AddAssign", 2, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2AddAssign(api, iA(a[0]), iA(a[1]))) }, finite(add), false},
		{"G2SubAssign", 2, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2SubAssign(api, iA(a[0]), iA(a[1]))) }, finite(sub), false},
		{"G2Double", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2Double(api, iA(a[0]))) }, finite(dbl), false},
		{"G2Neg", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2Neg(api, iA(a[0]))) }, neg, false},
		{"G2Psi", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2Psi(api, iA(a[0]))) }, finite(func(p []bls.G2Affine) (bls.G2Affine, bool) { return psiA(p[0]), true }), false},
		{"G2Phi", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(p12.G2Phi(api, iA(a[0]))) }, phi, false},
		{"NegAffine", 1, false, func(api frontend.API, a [][]fel) []fel {
			pr, err := p12.NewPairing(api)
			if err != nil {
				panic(err)
			}
			q := iA(a[0])
			return oA(*pr.NegAffine(&q))
		}, neg, false},
		{"DoubleAndAdd", 2, false, func(api frontend.API, a [][]fel) []fel {
			x, y := iA(a[0]), iA(a[1])
			return oA(*p12.DoubleAndAdd(api, &x, &y))
		}, func(p []bls.G2Affine) (bls.G2Affine, bool) {
			if p[0].IsInfinity() || p[1].IsInfinity() || p[0].X.Equal(&p[1].X) {
				return p[0], false
			}
			var r bls.G2Affine
			r.Add(&p[0], &p[1])
			if r.IsInfinity() || r.X.Equal(&p[0].X) {
				return p[0], false
			}
			r.Add(&r, &p[0])
			return r, true
		}, false},
		{"G2ConstScalarMul", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2ConstScalarMul(api, iA(a[0]))) }, finite(sc), true},
		{"G2ConstScalarMulV2", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(p12.G2ConstScalarMulV2(api, iA(a[0]))) }, finite(sc), true},
		{"G2ClearCofactor", 1, false, func(api frontend.API, a [][]fel) []fel { return oA(*p12.G2ClearCofactor(api, iA(a[0]))) }, finite(func(p []bls.G2Affine) (bls.G2Affine, bool) {
			var r bls.G2Affine
			r.ClearCofactor(&p[0])
			return r, !r.IsInfinity()
		}), true},
		{"AffineToJacobian", 1, false, func(api frontend.API, a [][]fel) []fel {
			q := iA(a[0])
			j := p12.GetG2JacFromG2Affine(api, &q)
			return oA(*p12.GetG2AffineFromG2Jac(api, j))
		}, func(p []bls.G2Affine) (bls.G2Affine, bool) { return p[0], true }, false},
	}
}

func mustInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return v
}

func c22(r *vm.R) {
	var jobs, slow []func()
	for _, o := range gops() {
		o := o
		n := r.N(24, 500)
		if o.heavy {
			n = r.N(2, 24)
		}
		rng := r.Rand(o.name)
		for i := 0; i < n; i++ {
			var ps []bls.G2Affine
			var args []els
			for k := 0; k < o.n; k++ {
				p := rpoint(rng, false)
				if k == 1 {
					switch rng.Intn(4) {
					case 0:
						p = ps[0]
					case 1:
						p.Neg(&ps[0])
					}
				}
				if rng.Intn(8) == 0 {
					p = bls.G2Affine{}
				}
				ps = append(ps, p)
				if o.jac {
					args = append(args, fromJ(jac(rng, p)))
				} else {
					args = append(args, fromA(p))
				}
			}
			want, ok := o.ref(ps)
			if !ok {
				i-- // not an operand tuple of this operation
				if rng.Intn(50) == 0 {
					i++
				}
				continue
			}
			rep, fi := rng.Intn(repKinds), 0
			if rep == shifted {
				rep = reduced // the comparisons of points refuse representatives above the modulus
			}
			if rng.Intn(3) == 0 {
				fi = rng.Intn(len(fields))
			}
			job := func() {
				key := fmt.Sprintf("%s/%s/%s/%s", o.name, fields[fi].name, repName[rep], hx(args...))
				r.Case(o.name, key, func() {
					got, _, err := eval(fields[fi].m, rep, args, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
						return o.f(api, a), nil
					})
					r.Eval(o.name, key)
					if err != nil {
						r.Violate(o.name, key, "unsatisfiable: %v", err)
						return
					}
					if o.jac {
						got = norm(got)
					}
					if !eqEls(got, fromA(want)) {
						r.Violate(o.name, key, "got %s want %s", hx(got), hx(fromA(want)))
					}
				})
			}
			if o.heavy {
				slow = append(slow, job)
			} else {
				jobs = append(jobs, job)
			}
		}
	}
	// infinity flags and conversions of Jacobian points
	rng := r.Rand("flags")
	for i := 0; i < r.N(16, 200); i++ {
		p := rpoint(rng, false)
		if i%3 == 0 {
			p = bls.G2Affine{}
		}
		j := jac(rng, p)
		rep := []int{reduced, lazy}[rng.Intn(2)]
		jobs = append(jobs, func() {
			key := fmt.Sprintf("infinity/%s/%s", repName[rep], hx(fromA(p), fromJ(j)))
			r.Case("infinity", key, func() {
				got, fl, err := eval(vm.BN254, rep, []els{fromA(p), fromJ(j)}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					q, jj := iA(a[0]), iJ(a[1])
					return oA(*p12.GetG2AffineFromG2Jac(api, &jj)), []frontend.Variable{p12.G2AffineNotInfinity(api, &q)}
				})
				r.Eval("infinity", key)
				if err != nil {
					r.Violate("infinity", key, "unsatisfiable: %v", err)
					return
				}
				r.Expect(fl[0].Int64() == b2i(!p.IsInfinity()), "infinity", key, "not-infinity flag %v of %v", fl[0], p)
				r.Expect(eqEls(got, fromA(p)), "jacobian-to-affine", key, "got %s want %s", hx(got), hx(fromA(p)))
			})
		})
	}
	// Miller loop steps
	for i := 0; i < r.N(16, 200); i++ {
		p, q := rpoint(rng, true), rpoint(rng, true)
		if p.X.Equal(&q.X) {
			continue
		}
		l := to2(dense(rng, 2))
		pp := els{}
		for _, c := range []*bls.E2{&p.X, &p.Y} {
			var z bls.E2
			z.Mul(c, &l)
			pp = append(pp, from2(&z)...)
		}
		pp = append(pp, from2(&l)...) // homogeneous projective
		double := i%2 == 0
		var want bls.G2Affine
		if double {
			want.Double(&p)
		} else {
			want.Add(&p, &q)
		}
		jobs = append(jobs, func() {
			key := fmt.Sprintf("step/%v/%s", double, hx(pp, fromA(q)))
			r.Case("step", key, func() {
				got, _, err := eval(vm.BN254, reduced, []els{pp, fromA(q)}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					pr, err := p12.NewPairing(api)
					if err != nil {
						panic(err)
					}
					x, y := iP(a[0]), iA(a[1])
					var res *p12.G2Projective
					if double {
						res, _ = pr.DoubleStep(&x)
					} else {
						res, _ = pr.AddStep(&x, &y)
					}
					return cat(o2(&res.X), o2(&res.Y), o2(&res.Z)), nil
				})
				r.Eval("step", key)
				if err != nil {
					r.Violate("step", key, "unsatisfiable: %v", err)
					return
				}
				x, y, z := to2(got), to2(got[2:]), to2(got[4:])
				z.Inverse(&z)
				x.Mul(&x, &z)
				y.Mul(&y, &z)
				res := bls.G2Affine{X: x, Y: y}
				r.Expect(res.Equal(&want), "step", key, "got %v want %v", res, want)
			})
		})
	}
	// Miller loops and pairings
	pairs := func(rng *rand.Rand, n int, kind string) (P []bls.G1Affine, Q []bls.G2Affine) {
		for i := 0; i < n; i++ {
			P = append(P, rpoint1(rng))
			Q = append(Q, rpoint(rng, true))
		}
		if kind == "cancel" && n >= 2 {
			if rng.Intn(2) == 0 {
				P[1].Neg(&P[0])
				Q[1] = Q[0]
			} else {
				P[1] = P[0]
				Q[1].Neg(&Q[0])
			}
		}
		if kind == "equal" && n >= 2 {
			P[1], Q[1] = P[0], Q[0]
		}
		return
	}
	type pc struct {
		kind string
		n    int
		full bool
	}
	var pcs []pc
	if r.Thorough {
		for i := 0; i < 6; i++ {
			pcs = append(pcs, pc{"random", 1, false}, pc{"random", 2, false}, pc{"random", 3, false}, pc{"cancel", 2, false}, pc{"equal", 2, false},
				pc{"random", 1, true}, pc{"random", 2, true}, pc{"cancel", 2, true}, pc{"equal", 2, true}, pc{"random", 4, true}, pc{"cancel", 3, true})
		}
	} else {
		pcs = []pc{{"random", 1, false}, {"random", 2, false}, {"random", 3, false}, {"random", 6, false}, {"random", 1, true}, {"cancel", 2, true}, {"random", 2, true}}
	}
	rng = r.Rand("pairing")
	for ci, c := range pcs {
		c := c
		P, Q := pairs(rng, c.n, c.kind)
		fi := 0
		if ci%3 == 1 {
			fi = rng.Intn(len(fields))
		}
		var args []els
		for i := range P {
			args = append(args, els{coef(P[i].X), coef(P[i].Y)}, fromA(Q[i]))
		}
		var want bls.GT
		var err error
		if c.full {
			want, err = bls.Pair(P, Q)
		} else {
			want, err = bls.MillerLoop(P, Q)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		slow = append(slow, func() {
			name := "MillerLoop"
			if c.full {
				name = "Pair"
			}
			key := fmt.Sprintf("%s/%s/%d/%s/%s", name, c.kind, c.n, fields[fi].name, hx(args...))
			r.Case(name+"/"+c.kind, key, func() {
				got, _, err := eval(fields[fi].m, reduced, args, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					pr, err := p12.NewPairing(api)
					if err != nil {
						panic(err)
					}
					var ps []*p12.G1Affine
					var qs []*p12.G2Affine
					for i := 0; i < len(a); i += 2 {
						q := iA(a[i+1])
						ps = append(ps, &p12.G1Affine{X: a[i][0], Y: a[i][1]})
						qs = append(qs, &q)
					}
					var res *p12.GTEl
					if c.full {
						res, err = pr.Pair(ps, qs)
					} else {
						res, err = pr.MillerLoop(ps, qs)
					}
					if err != nil {
						panic(err)
					}
					return o12(res), nil
				})
				r.Eval(name, key)
				r.Count(name+" pairs", int64(c.n))
				if err != nil {
					r.Violate(name+"/"+c.kind, key, "unsatisfiable: %v", err)
				} else if !eqEls(got, from12(&want)) {
					r.Violate(name+"/"+c.kind, key, "got %s want %s", hx(got), hx(from12(&want)))
				}
			})
		})
	}
	// final exponentiation, also of elements whose easy part is one
	for i := 0; i < r.N(4, 40); i++ {
		x := dense(rng, 12)
		switch i % 4 {
		case 0: // in the sextic subfield: the result is one
			for k := 6; k < 12; k++ {
				x[k] = new(big.Int)
			}
		case 1:
			x = rels(rng, 12)
			if isZero(x) {
				x[0].SetInt64(1)
			}
		}
		e := to12(x)
		want := bls.FinalExponentiation(&e)
		slow = append(slow, func() {
			key := "FinalExponentiation/" + hx(x)
			r.Case("FinalExponentiation", key, func() {
				got, _, err := eval(vm.BN254, reduced, []els{x}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					pr, err := p12.NewPairing(api)
					if err != nil {
						panic(err)
					}
					return o12(pr.FinalExponentiation(i12(a[0]))), nil
				})
				r.Eval("FinalExponentiation", key)
				if err != nil {
					r.Violate("FinalExponentiation", key, "unsatisfiable: %v", err)
				} else if !eqEls(got, from12(&want)) {
					r.Violate("FinalExponentiation", key, "got %s want %s", hx(got), hx(from12(&want)))
				}
			})
		})
	}
	// native values made into witnesses
	for i := 0; i < r.N(12, 200); i++ {
		x := rels(rng, 12)
		if i == 0 {
			x = from12(new(bls.GT).SetOne())
		}
		g1, g2 := rpoint1(rng), rpoint(rng, i%2 == 0)
		if i == 1 {
			g1, g2 = bls.G1Affine{}, bls.G2Affine{}
		}
		want := cat(x, els{coef(g1.X), coef(g1.Y)}, fromA(g2))
		slow = append(slow, func() {
			key := "witness values/" + hx(want)
			r.Case("witness values", key, func() {
				got, _, err := eval(vm.BN254, reduced, nil, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					e := to12(x)
					gt, p, q := p12.NewGTEl(e), p12.NewG1Affine(g1), p12.NewG2Affine(g2)
					return cat(o12(&gt), []fel{p.X, p.Y}, oA(q)), nil
				})
				r.Eval("witness values", key)
				if err != nil {
					r.Violate("witness values", key, "unsatisfiable: %v", err)
				} else if !eqEls(got, want) {
					r.Violate("witness values", key, "got %s want %s", hx(got), hx(want))
				}
			})
		})
	}
	// sizes that do not match are refused
	vm.Par(5, 0, func(i int) {
		r.Case("sizes", i, func() {
			_, fl, err := eval(vm.BN254, reduced, nil, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
				pr, err := p12.NewPairing(api)
				if err != nil {
					panic(err)
				}
				_, _, g1, g2 := bls.Generators()
				p, q := p12.NewG1Affine(g1), p12.NewG2Affine(g2)
				if i == 0 {
					_, err = pr.MillerLoop([]*p12.G1Affine{&p, &p}, []*p12.G2Affine{&q})
				} else if i == 1 {
					_, err = pr.Pair(nil, nil)
				} else if i == 2 {
					_, err = pr.MillerLoop([]*p12.G1Affine{&p}, []*p12.G2Affine{&q, &q})
				} else if i == 3 {
					_, err = pr.Pair([]*p12.G1Affine{&p, &p}, []*p12.G2Affine{&q, &q, &q})
				} else {
					_, err = pr.Pair([]*p12.G1Affine{&p, &p, &p}, []*p12.G2Affine{&q, &q})
				}
				return nil, []frontend.Variable{b2i(err != nil)}
			})
			r.Eval("sizes", fmt.Sprint(i))
			r.Expect(err == nil && fl[0].Int64() == 1, "sizes", i, "mismatched or empty operand lists are accepted (%v)", err)
		})
	})
	jobs = append(slow, jobs...)
	vm.Par(len(jobs), 0, func(i int) { jobs[i]() })
}
