package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	p12 "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"
)

// op is one tower operation. ref returns nil where the operation is not defined on the operands.
type op struct {
	name string
	args []int
	f    func(ba *ffield, a [][]fel) []fel
	ref  func(a []els) els
	gen  func(rng *rand.Rand, i int) els // operand generator, rels when nil
	cost int                             // relative cost; 0 means cheap
	cmp  bool                            // compares operands: representatives above the modulus are refused
}

func bin2(name string, f func(ba *ffield, x, y *p12.E2) *p12.E2, ref func(z, x, y *bls.E2) *bls.E2) op {
	return op{name: "E2." + name, args: []int{2, 2},
		f:   func(ba *ffield, a [][]fel) []fel { return o2(f(ba, i2(a[0]), i2(a[1]))) },
		ref: func(a []els) els { x, y := to2(a[0]), to2(a[1]); var z bls.E2; return from2(ref(&z, &x, &y)) }}
}
func un2(name string, f func(ba *ffield, x *p12.E2) *p12.E2, ref func(z, x *bls.E2) *bls.E2) op {
	return op{name: "E2." + name, args: []int{2},
		f:   func(ba *ffield, a [][]fel) []fel { return o2(f(ba, i2(a[0]))) },
		ref: func(a []els) els { x := to2(a[0]); var z bls.E2; return from2(ref(&z, &x)) }}
}
func bin6(name string, f func(ba *ffield, x, y *p12.E6) *p12.E6, ref func(z, x, y *bls.E6) *bls.E6) op {
	return op{name: "E6." + name, args: []int{6, 6},
		f:   func(ba *ffield, a [][]fel) []fel { return o6(f(ba, i6(a[0]), i6(a[1]))) },
		ref: func(a []els) els { x, y := to6(a[0]), to6(a[1]); var z bls.E6; return from6(ref(&z, &x, &y)) }}
}
func un6(name string, f func(ba *ffield, x *p12.E6) *p12.E6, ref func(z, x *bls.E6) *bls.E6) op {
	return op{name: "E6." + name, args: []int{6},
		f:   func(ba *ffield, a [][]fel) []fel { return o6(f(ba, i6(a[0]))) },
		ref: func(a []els) els { x := to6(a[0]); var z bls.E6; return from6(ref(&z, &x)) }}
}
func un12(name string, f func(ba *ffield, x *p12.E12) *p12.E12, ref func(z, x *bls.E12) *bls.E12) op {
	return op{name: "E12." + name, args: []int{12},
		f:   func(ba *ffield, a [][]fel) []fel { return o12(f(ba, i12(a[0]))) },
		ref: func(a []els) els { x := to12(a[0]); var z bls.E12; return from12(ref(&z, &x)) }}
}

func nz(o op) op { // only defined for non-zero last operand
	ref := o.ref
	o.ref = func(a []els) els {
		if isZero(a[len(a)-1]) {
			return nil
		}
		return ref(a)
	}
	return o
}

// xiPower is the non-residue 1+u to the power k(p^i-1)/6.
func xiPower(i, k int) bls.E2 {
	e := new(big.Int).Exp(P, big.NewInt(int64(i)), nil)
	e.Sub(e, big.NewInt(1))
	e.Div(e, big.NewInt(6))
	e.Mul(e, big.NewInt(int64(k)))
	xi := to2(els{big.NewInt(1), big.NewInt(1)})
	var z bls.E2
	// by hand: the exponent exceeds what some Exp implementations support
	z.SetOne()
	for b := e.BitLen() - 1; b >= 0; b-- {
		z.Square(&z)
		if e.Bit(b) == 1 {
			z.Mul(&z, &xi)
		}
	}
	return z
}

func mulXi(i, k int, f func(ba *ffield, x *p12.E2) *p12.E2) op {
	c := xiPower(i, k)
	return un2(fmt.Sprintf("MulByNonResidue%dPower%d", i, k), f, func(z, x *bls.E2) *bls.E2 { return z.Mul(x, &c) })
}

// frob is the Frobenius map applied n times, by definition: x^(p^n).
func frob(n int) func(z, x *bls.E12) *bls.E12 {
	return func(z, x *bls.E12) *bls.E12 {
		z.SetOne()
		e := new(big.Int).Exp(P, big.NewInt(int64(n)), nil)
		for b := e.BitLen() - 1; b >= 0; b-- {
			z.Square(z)
			if e.Bit(b) == 1 {
				z.Mul(z, x)
			}
		}
		return z
	}
}

// cyclo is an element of the cyclotomic subgroup.
func cyclo(rng *rand.Rand) els {
	switch rng.Intn(6) {
	case 0:
		one := make(els, 12)
		for i := range one {
			one[i] = new(big.Int)
		}
		one[0].SetInt64(1)
		return one
	case 1: // in the order-r subgroup
		_, _, g1, g2 := bls.Generators()
		e, _ := bls.Pair([]bls.G1Affine{g1}, []bls.G2Affine{g2})
		var z bls.E12
		z.Exp(e, big.NewInt(int64(rng.Intn(1000))))
		return from12(&z)
	}
	x := to12(dense(rng, 12))
	var t, r bls.E12
	t.Conjugate(&x)
	r.Inverse(&x)
	t.Mul(&t, &r)
	r.FrobeniusSquare(&t)
	r.Mul(&r, &t)
	return from12(&r)
}

func sparse12(c els, pos ...int) bls.E12 {
	full := make(els, 12)
	for i := range full {
		full[i] = new(big.Int)
	}
	for i, p := range pos {
		full[2*p], full[2*p+1] = c[2*i], c[2*i+1]
	}
	return to12(full)
}

func towerOps() []op {
	cycGen := func(rng *rand.Rand, i int) els { return cyclo(rng) }
	ops := []op{
		bin2("Mul", func(ba *ffield, x, y *p12.E2) *p12.E2 { return p12.NewExt2(ba).Mul(x, y) }, (*bls.E2).Mul),
		bin2("Add", func(ba *ffield, x, y *p12.E2) *p12.E2 { return p12.NewExt2(ba).Add(x, y) }, (*bls.E2).Add),
		bin2("Sub", func(ba *ffield, x, y *p12.E2) *p12.E2 { return p12.NewExt2(ba).Sub(x, y) }, (*bls.E2).Sub),
		nz(bin2("Div", func(ba *ffield, x, y *p12.E2) *p12.E2 { return p12.NewExt2(ba).Div(x, y) }, (*bls.E2).Div)),
		un2("Neg", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Neg(x) }, (*bls.E2).Neg),
		un2("Conjugate", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Conjugate(x) }, (*bls.E2).Conjugate),
		un2("Square", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Square(x) }, (*bls.E2).Square),
		un2("Double", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Double(x) }, (*bls.E2).Double),
		un2("Halve", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Halve(x) }, func(z, x *bls.E2) *bls.E2 { z.Set(x).Halve(); return z }),
		un2("MulBybTwistCurveCoeff", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulBybTwistCurveCoeff(x) }, (*bls.E2).MulBybTwistCurveCoeff),
		un2("MulByNonResidue", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue(x) }, (*bls.E2).MulByNonResidue),
		un2("MulByNonResidueInv", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidueInv(x) }, (*bls.E2).MulByNonResidueInv),
		nz(un2("Inverse", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Inverse(x) }, (*bls.E2).Inverse)),
		un2("One", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).One() }, func(z, x *bls.E2) *bls.E2 { return z.SetOne() }),
		un2("Zero", func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).Zero() }, func(z, x *bls.E2) *bls.E2 { return z.SetZero() }),
		mulXi(1, 1, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue1Power1(x) }),
		mulXi(1, 2, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue1Power2(x) }),
		mulXi(1, 3, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue1Power3(x) }),
		mulXi(1, 4, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue1Power4(x) }),
		mulXi(1, 5, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue1Power5(x) }),
		mulXi(2, 1, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue2Power1(x) }),
		mulXi(2, 2, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue2Power2(x) }),
		mulXi(2, 3, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue2Power3(x) }),
		mulXi(2, 4, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue2Power4(x) }),
		mulXi(2, 5, func(ba *ffield, x *p12.E2) *p12.E2 { return p12.NewExt2(ba).MulByNonResidue2Power5(x) }),
		{name: "E2.MulByElement", args: []int{2, 1},
			f:   func(ba *ffield, a [][]fel) []fel { return o2(p12.NewExt2(ba).MulByElement(i2(a[0]), &a[1][0])) },
			ref: func(a []els) els { x, y := to2(a[0]), to1(a[1]); var z bls.E2; return from2(z.MulByElement(&x, &y)) }},

		bin6("Mul", func(ba *ffield, x, y *p12.E6) *p12.E6 { return p12.NewExt6(ba).Mul(x, y) }, (*bls.E6).Mul),
		bin6("Add", func(ba *ffield, x, y *p12.E6) *p12.E6 { return p12.NewExt6(ba).Add(x, y) }, (*bls.E6).Add),
		bin6("Sub", func(ba *ffield, x, y *p12.E6) *p12.E6 { return p12.NewExt6(ba).Sub(x, y) }, (*bls.E6).Sub),
		un6("Neg", func(ba *ffield, x *p12.E6) *p12.E6 { return p12.NewExt6(ba).Neg(x) }, (*bls.E6).Neg),
		un6("Double", func(ba *ffield, x *p12.E6) *p12.E6 { return p12.NewExt6(ba).Double(x) }, (*bls.E6).Double),
		un6("Square", func(ba *ffield, x *p12.E6) *p12.E6 { return p12.NewExt6(ba).Square(x) }, (*bls.E6).Square),
		nz(un6("Inverse", func(ba *ffield, x *p12.E6) *p12.E6 { return p12.NewExt6(ba).Inverse(x) }, (*bls.E6).Inverse)),
		un6("MulByNonResidue", func(ba *ffield, x *p12.E6) *p12.E6 { return p12.NewExt6(ba).MulByNonResidue(x) }, (*bls.E6).MulByNonResidue),
		{name: "E6.MulByE2", args: []int{6, 2},
			f:   func(ba *ffield, a [][]fel) []fel { return o6(p12.NewExt6(ba).MulByE2(i6(a[0]), i2(a[1]))) },
			ref: func(a []els) els { x, y := to6(a[0]), to2(a[1]); var z bls.E6; return from6(z.MulByE2(&x, &y)) }},
		{name: "E6.MulBy1", args: []int{6, 2},
			f:   func(ba *ffield, a [][]fel) []fel { return o6(p12.NewExt6(ba).MulBy1(i6(a[0]), i2(a[1]))) },
			ref: func(a []els) els { x, y := to6(a[0]), to2(a[1]); return from6(x.MulBy1(&y)) }},
		{name: "E6.MulBy01", args: []int{6, 2, 2},
			f:   func(ba *ffield, a [][]fel) []fel { return o6(p12.NewExt6(ba).MulBy01(i6(a[0]), i2(a[1]), i2(a[2]))) },
			ref: func(a []els) els { x, y, w := to6(a[0]), to2(a[1]), to2(a[2]); return from6(x.MulBy01(&y, &w)) }},

		{name: "E12.Mul", args: []int{12, 12},
			f:   func(ba *ffield, a [][]fel) []fel { return o12(p12.NewExt12(ba).Mul(i12(a[0]), i12(a[1]))) },
			ref: func(a []els) els { x, y := to12(a[0]), to12(a[1]); var z bls.E12; return from12(z.Mul(&x, &y)) }},
		un12("Square", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).Square(x) }, (*bls.E12).Square),
		un12("Conjugate", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).Conjugate(x) }, (*bls.E12).Conjugate),
		nz(un12("Inverse", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).Inverse(x) }, (*bls.E12).Inverse)),
		un12("One", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).One() }, func(z, x *bls.E12) *bls.E12 { return z.SetOne() }),
		un12("Frobenius", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).Frobenius(x) }, frob(1)),
		un12("FrobeniusSquare", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).FrobeniusSquare(x) }, frob(2)),
		un12("FrobeniusCube", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).FrobeniusCube(x) }, frob(3)),
		un12("CyclotomicSquareCompressed", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).CyclotomicSquareCompressed(x, x) },
			func(z, x *bls.E12) *bls.E12 { z.Set(x); return z.CyclotomicSquareCompressed(x) }),
		{name: "E12.CyclotomicSquareCompressed into", args: []int{12, 12}, // the components that are not computed are those of the first argument
			f: func(ba *ffield, a [][]fel) []fel {
				return o12(p12.NewExt12(ba).CyclotomicSquareCompressed(i12(a[0]), i12(a[1])))
			},
			ref: func(a []els) els { z, x := to12(a[0]), to12(a[1]); return from12(z.CyclotomicSquareCompressed(&x)) }},
		{name: "E12.MulBy034", args: []int{12, 2, 2, 2},
			f: func(ba *ffield, a [][]fel) []fel {
				return o12(p12.NewExt12(ba).MulBy034(i12(a[0]), i2(a[1]), i2(a[2]), i2(a[3])))
			},
			ref: func(a []els) els {
				x, y := to12(a[0]), sparse12(cat(a[1:]...), 0, 3, 4)
				var z bls.E12
				return from12(z.Mul(&x, &y))
			}},
		{name: "E12.MulBy034by034", args: []int{2, 2, 2, 2, 2, 2},
			f: func(ba *ffield, a [][]fel) []fel {
				return o12(p12.NewExt12(ba).MulBy034by034(i2(a[0]), i2(a[1]), i2(a[2]), i2(a[3]), i2(a[4]), i2(a[5])))
			},
			ref: func(a []els) els {
				x, y := sparse12(cat(a[:3]...), 0, 3, 4), sparse12(cat(a[3:]...), 0, 3, 4)
				var z bls.E12
				return from12(z.Mul(&x, &y))
			}},
		{name: "E12.Mul014By014", args: []int{2, 2, 2, 2, 2, 2},
			f: func(ba *ffield, a [][]fel) []fel {
				return o12(p12.NewExt12(ba).Mul014By014(i2(a[0]), i2(a[1]), i2(a[2]), i2(a[3]), i2(a[4]), i2(a[5])))
			},
			ref: func(a []els) els {
				x, y := sparse12(cat(a[:3]...), 0, 1, 4), sparse12(cat(a[3:]...), 0, 1, 4)
				var z bls.E12
				return from12(z.Mul(&x, &y))
			}},
	}
	// operations on the cyclotomic subgroup
	cyc := []op{
		un12("CyclotomicSquare", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).CyclotomicSquare(x) }, (*bls.E12).Square),
		un12("DecompressKarabina", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).DecompressKarabina(*x) }, func(z, x *bls.E12) *bls.E12 { return z.Set(x) }),
		un12("DecompressSquared", func(ba *ffield, x *p12.E12) *p12.E12 {
			e := p12.NewExt12(ba)
			for i := 0; i < 3; i++ {
				x = e.CyclotomicSquareCompressed(x, x)
			}
			return e.DecompressKarabina(*x)
		}, func(z, x *bls.E12) *bls.E12 { z.Square(x); z.Square(z); return z.Square(z) }),
	}
	// compressed elements whose g3 is zero: g4 = 2*g1*g5/g2, g0 = xi*(2*g4^2 - 3*g2*g1) + 1
	g3zero := un12("DecompressKarabina", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).DecompressKarabina(*x) }, func(z, x *bls.E12) *bls.E12 {
		var t, u bls.E2
		z.Set(x)
		t.Mul(&x.C0.B1, &x.C1.B2).Double(&t)
		z.C1.B1.Div(&t, &x.C0.B2)
		t.Square(&z.C1.B1).Double(&t)
		u.Mul(&x.C0.B2, &x.C0.B1)
		t.Sub(&t, &u).Sub(&t, &u).Sub(&t, &u)
		z.C0.B0.MulByNonResidue(&t)
		u.SetOne()
		z.C0.B0.Add(&z.C0.B0, &u)
		return z
	})
	g3zero.name += " g3=0"
	g3zero.cmp = true
	g3zero.gen = func(rng *rand.Rand, i int) els {
		x := dense(rng, 12)
		x[6], x[7] = new(big.Int), new(big.Int)
		for k := 2; k < 12; k += 2 { // some other coefficients zero too, but not g2
			if k != 4 && rng.Intn(4) == 0 {
				x[k], x[k+1] = new(big.Int), new(big.Int)
			}
		}
		return x
	}
	ops = append(ops, g3zero)
	heavy := []op{
		un12("ExptHalf", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).ExptHalf(x) }, (*bls.E12).ExptHalf),
		un12("Expt", func(ba *ffield, x *p12.E12) *p12.E12 { return p12.NewExt12(ba).Expt(x) }, (*bls.E12).Expt),
	}
	for _, o := range cyc {
		o.gen, o.cmp = cycGen, true
		ops = append(ops, o)
	}
	for _, o := range heavy {
		o.gen, o.cost = cycGen, 1
		ops = append(ops, o)
	}
	return ops
}

type flagOp struct {
	name string
	args []int
	f    func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable
	ref  func(a []els) int64
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func flagOps() []flagOp {
	one := els{big.NewInt(1), new(big.Int)}
	return []flagOp{
		{"G1NotZero", []int{1}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable { return p12.G1NotZero(api, a[0][0]) }, func(a []els) int64 { return b2i(!isZero(a[0])) }},
		{"G1NotEqual", []int{1, 1}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable {
			return p12.G1NotEqual(api, a[0][0], a[1][0])
		}, func(a []els) int64 { return b2i(!eqEls(a[0], a[1])) }},
		{"G1NotEqualOne", []int{1}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable {
			return p12.G1NotEqualOne(api, a[0][0])
		}, func(a []els) int64 { return b2i(!eqEls(a[0], one[:1])) }},
		{"E2NotZero", []int{2}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable { return p12.E2NotZero(api, *i2(a[0])) }, func(a []els) int64 { return b2i(!isZero(a[0])) }},
		{"E2NotOne", []int{2}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable { return p12.E2NotOne(api, *i2(a[0])) }, func(a []els) int64 { return b2i(!eqEls(a[0], one)) }},
		{"E2NotEqual", []int{2, 2}, func(api frontend.API, ba *ffield, a [][]fel) frontend.Variable {
			return p12.E2NotEqual(api, *i2(a[0]), *i2(a[1]))
		}, func(a []els) int64 { return b2i(!eqEls(a[0], a[1])) }},
	}
}

func c21(r *vm.R) {
	type job func()
	var jobs []job
	for _, o := range towerOps() {
		n := r.N(14, 300)
		if o.cost > 0 {
			n = r.N(2, 24)
		}
		rng := r.Rand(o.name)
		for i := 0; i < n; i++ {
			var args []els
			for j, k := range o.args {
				if o.gen != nil {
					args = append(args, o.gen(rng, j))
				} else if i < 2 { // all zero, then all one
					x := make(els, k)
					for l := range x {
						x[l] = new(big.Int)
					}
					x[0].SetInt64(int64(i))
					args = append(args, x)
				} else {
					args = append(args, rels(rng, k))
				}
			}
			if len(args) == 2 && o.args[0] == o.args[1] && rng.Intn(6) == 0 {
				args[1] = args[0]
			}
			rep := rng.Intn(repKinds)
			if rep == shifted && o.cmp {
				rep = reduced
			}
			fi := 0
			if rng.Intn(3) == 0 {
				fi = rng.Intn(len(fields))
			}
			o := o
			jobs = append(jobs, func() {
				key := fmt.Sprintf("%s/%s/%s/%s", o.name, fields[fi].name, repName[rep], hx(args...))
				want := o.ref(args)
				if want == nil {
					return
				}
				r.Case(o.name, key, func() {
					got, _, err := eval(fields[fi].m, rep, args, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
						return o.f(ba, a), nil
					})
					r.Eval(o.name, key)
					if err != nil {
						r.Violate(o.name, key, "unsatisfiable: %v", err)
					} else if !eqEls(got, want) {
						r.Violate(o.name, key, "got %s want %s", hx(got), hx(want))
					}
				})
				if o.name == "E12.FrobeniusCube" {
					r.Sample(o.name, map[string]string{"in": hx(args...), "out": hx(want)})
				}
			})
		}
	}
	// selection, flags, equality assertions
	rng := r.Rand("flags")
	for i := 0; i < r.N(30, 600); i++ {
		x, y := rels(rng, 2), rels(rng, 2)
		if rng.Intn(2) == 0 {
			y = x
			if rng.Intn(2) == 0 { // differ in one bit of one component
				y = els{new(big.Int).Set(x[0]), new(big.Int).Set(x[1])}
				k := rng.Intn(2)
				y[k].SetBit(y[k], rng.Intn(381), y[k].Bit(0)^1)
				y[k].Mod(y[k], P)
			}
		}
		rep := rng.Intn(repKinds)
		sel := int64(rng.Intn(2))
		fi := rng.Intn(len(fields))
		jobs = append(jobs, func() {
			key := fmt.Sprintf("select/%d/%s/%s/%s", sel, fields[fi].name, repName[rep], hx(x, y))
			r.Case("E2.Select", key, func() {
				got, _, err := eval(fields[fi].m, rep, []els{x, y, {big.NewInt(sel)}}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					s := ba.Reduce(&a[2][0]).Limbs[0]
					if rep == shifted {
						s = frontend.Variable(sel)
					}
					return o2(p12.NewExt2(ba).Select(s, i2(a[0]), i2(a[1]))), nil
				})
				r.Eval("E2.Select", key)
				want := y
				if sel == 1 {
					want = x
				}
				if err != nil {
					r.Violate("E2.Select", key, "unsatisfiable: %v", err)
				} else if !eqEls(got, want) {
					r.Violate("E2.Select", key, "got %s want %s", hx(got), hx(want))
				}
			})
		})
		for _, o := range flagOps() {
			o := o
			args := []els{x[:o.args[0]]}
			if len(o.args) == 2 {
				args = append(args, y[:o.args[1]])
			}
			jobs = append(jobs, func() {
				key := fmt.Sprintf("%s/%s/%s/%s", o.name, fields[fi].name, repName[rep], hx(args...))
				r.Case(o.name, key, func() {
					_, got, err := eval(fields[fi].m, rep, args, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
						return nil, []frontend.Variable{o.f(api, ba, a)}
					})
					r.Eval(o.name, key)
					if err != nil && rep == shifted {
						r.Count("representatives above the modulus refused", 1)
					} else if err != nil {
						r.Violate(o.name, key, "unsatisfiable: %v", err)
					} else if w := o.ref(args); got[0].Cmp(big.NewInt(w)) != 0 {
						r.Violate(o.name, key, "flag %v want %d", got[0], w)
					}
				})
			})
		}
	}
	// assertions of equality: accept equal values in any representation, reject anything else
	for i := 0; i < r.N(24, 400); i++ {
		n := []int{2, 6, 12, 12}[i%4]
		x := rels(rng, n)
		y := append(els(nil), x...)
		eq := rng.Intn(3) == 0
		diff := n
		if !eq {
			diff = rng.Intn(n)
			y[diff] = new(big.Int).Mod(new(big.Int).Add(y[diff], big.NewInt(int64(1+rng.Intn(3)))), P)
		}
		half := i%4 == 3 // AssertC0IsEqual
		want := eq || (half && diff >= 6)
		rep := rng.Intn(repKinds)
		name := fmt.Sprintf("AssertIsEqual%d", n)
		if half {
			name = "AssertC0IsEqual"
		}
		jobs = append(jobs, func() {
			key := fmt.Sprintf("%s/%s/%s", name, repName[rep], hx(x, y))
			r.Case(name, key, func() {
				_, _, err := eval(vm.BN254, rep, []els{x, y}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
					switch {
					case n == 2:
						p12.NewExt2(ba).AssertIsEqual(i2(a[0]), i2(a[1]))
					case n == 6:
						p12.NewExt6(ba).AssertIsEqual(i6(a[0]), i6(a[1]))
					case half:
						p12.NewExt12(ba).AssertC0IsEqual(i12(a[0]), i12(a[1]))
					default:
						p12.NewExt12(ba).AssertIsEqual(i12(a[0]), i12(a[1]))
					}
					return nil, nil
				})
				r.Eval(name, key)
				r.Expect((err == nil) == want, name, key, "equality asserted on values equal=%v: %v", want, err)
			})
		})
	}
	vm.Par(len(jobs), 0, func(i int) { jobs[i]() })
}
