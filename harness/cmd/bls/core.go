// Monitors of the emulated BLS12-381 gadgets: C21 tower arithmetic, C22 G2 and pairing, C23 hash to G2.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/vm"

	p12 "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark-crypto/ecc"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C21": {Run: c21, Rule: "one evaluation = one tower operation on one operand tuple, in one representation (reduced, not reduced, sums); non-trivial = distinct (operation, operands, representation, native field); oracle: gnark-crypto's native tower (Frobenius and twist constants recomputed from the non-residue)"},
		"C22": {Run: c22, Rule: "one evaluation = one G2 operation on one operand tuple, one Miller loop, final exponentiation or pairing; non-trivial = distinct operands; oracle: gnark-crypto's native curve and pairing"},
		"C23": {Run: c23, Rule: "one evaluation = one message or field element through one stage of the hash-to-G2 gadgets; non-trivial = distinct (stage, input); oracle: gnark-crypto's RFC 9380 implementation with the Ethereum domain tag"},
	})
}

var P = ecc.BLS12_381.BaseField()

type els = []*big.Int // coefficients in the order A0, A1, then B0, B1, B2, then C0, C1

type fel = emulated.Element[p12.BLS12381Fp]
type ffield = emulated.Field[p12.BLS12381Fp]

func coef(x fp.Element) *big.Int { return x.BigInt(new(big.Int)) }

func from2(x *bls.E2) els { return els{coef(x.A0), coef(x.A1)} }
func from6(x *bls.E6) (r els) {
	for _, c := range []*bls.E2{&x.B0, &x.B1, &x.B2} {
		r = append(r, from2(c)...)
	}
	return
}
func from12(x *bls.E12) (r els) {
	for _, c := range []*bls.E6{&x.C0, &x.C1} {
		r = append(r, from6(c)...)
	}
	return
}
func to1(c els) (x fp.Element) { x.SetBigInt(c[0]); return }
func to2(c els) (x bls.E2) {
	x.A0.SetBigInt(c[0])
	x.A1.SetBigInt(c[1])
	return
}
func to6(c els) (x bls.E6) {
	x.B0, x.B1, x.B2 = to2(c), to2(c[2:]), to2(c[4:])
	return
}
func to12(c els) (x bls.E12) {
	x.C0, x.C1 = to6(c), to6(c[6:])
	return
}

func i2(f []fel) *p12.E2   { return &p12.E2{A0: f[0], A1: f[1]} }
func i6(f []fel) *p12.E6   { return &p12.E6{B0: *i2(f), B1: *i2(f[2:]), B2: *i2(f[4:])} }
func i12(f []fel) *p12.E12 { return &p12.E12{C0: *i6(f), C1: *i6(f[6:])} }
func o2(x *p12.E2) []fel   { return []fel{x.A0, x.A1} }
func o6(x *p12.E6) []fel   { return append(append(o2(&x.B0), o2(&x.B1)...), o2(&x.B2)...) }
func o12(x *p12.E12) []fel { return append(o6(&x.C0), o6(&x.C1)...) }

func cat[T any](xs ...[]T) (r []T) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

var pow381 = new(big.Int).Lsh(big.NewInt(1), 381)

// Representations of an operand inside the circuit.
const (
	reduced = iota // canonical limbs
	shifted        // value + p where it fits the width of an element
	lazy           // an unreduced difference of a sum
	repKinds
)

var repName = []string{"reduced", "shifted", "lazy"}

func limbsOf(v *big.Int, rep int) (r []frontend.Variable) {
	if rep == shifted {
		if s := new(big.Int).Add(v, P); s.Cmp(pow381) < 0 {
			v = s
		}
	}
	m := new(big.Int).SetUint64(^uint64(0))
	for i := 0; i < 6; i++ {
		r = append(r, new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m))
	}
	return
}

// eval runs a circuit over emulated elements: operands in, values modulo p of the results (and of
// plain variables) out.
func eval(field *big.Int, rep int, args []els, f func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable)) (els, []*big.Int, error) {
	var in []frontend.Variable
	for _, a := range args {
		for _, v := range a {
			in = append(in, limbsOf(v, rep)...)
		}
	}
	return evalIn(field, in, func(api frontend.API, v []frontend.Variable) ([]fel, []frontend.Variable) {
		ba, err := emulated.NewField[p12.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		var all []fel
		for i := 0; i < len(v); i += 6 {
			all = append(all, fel{Limbs: append([]frontend.Variable(nil), v[i:i+6]...)})
		}
		if rep == lazy {
			src := append([]fel(nil), all...)
			for i := range all {
				j := &src[(i+1)%len(src)]
				s := ba.Add(&src[i], j)
				s = ba.Add(s, j)
				s = ba.Sub(s, ba.MulConst(j, big.NewInt(2)))
				all[i] = *s
			}
		}
		var a [][]fel
		for _, x := range args {
			a = append(a, all[:len(x)])
			all = all[len(x):]
		}
		return f(api, ba, a)
	})
}

// evalIn is eval over plain inputs.
func evalIn(field *big.Int, in []frontend.Variable, f func(api frontend.API, v []frontend.Variable) ([]fel, []frontend.Variable)) (els, []*big.Int, error) {
	nf := 0
	out, err := vm.Run(field, in, func(api frontend.API, v []frontend.Variable) (o []frontend.Variable) {
		ba, err := emulated.NewField[p12.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		r, plain := f(api, v)
		nf = len(r)
		for i := range r {
			l := ba.Reduce(&r[i]).Limbs
			if len(l) != 6 {
				panic(fmt.Sprintf("%d limbs", len(l)))
			}
			o = append(o, l...)
		}
		o = append(o, plain...)
		if len(o) == 0 {
			o = []frontend.Variable{0}
		}
		return
	})
	if err != nil {
		return nil, nil, err
	}
	var r els
	for i := 0; i < nf; i++ {
		v := new(big.Int)
		for j := 5; j >= 0; j-- {
			v.Lsh(v, 64).Add(v, out[6*i+j])
		}
		r = append(r, v.Mod(v, P))
	}
	return r, out[6*nf:], nil
}

func eqEls(a, b els) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func hx(xs ...els) string {
	var s []string
	for _, x := range xs {
		for _, v := range x {
			s = append(s, v.Text(16))
		}
		s = append(s, ";")
	}
	return strings.Join(s, ",")
}

var fields = []struct {
	name string
	m    *big.Int
}{
	{"bn254", ecc.BN254.ScalarField()},
	{"bls12_381", ecc.BLS12_381.ScalarField()},
	{"bls12_377", ecc.BLS12_377.ScalarField()},
	{"bw6_761", ecc.BW6_761.ScalarField()},
}

// rfp is a base field value with boundary values over-represented.
func rfp(rng *rand.Rand) *big.Int {
	switch rng.Intn(10) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(1 + rng.Intn(3)))
	case 2:
		return new(big.Int).Sub(P, big.NewInt(int64(1+rng.Intn(3))))
	case 3:
		return new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(380)))
	}
	return new(big.Int).Rand(rng, P)
}

// rels is an n-coefficient element of a random class: dense, sparse, zero, one, constant.
func rels(rng *rand.Rand, n int) els {
	r := make(els, n)
	mode := rng.Intn(9)
	for i := range r {
		switch {
		case mode == 0:
			r[i] = new(big.Int)
		case mode == 1:
			r[i] = new(big.Int)
			if i == 0 {
				r[i].SetInt64(1)
			}
		case mode == 2: // base field
			r[i] = new(big.Int)
			if i == 0 {
				r[i] = rfp(rng)
			}
		case mode == 3: // one component
			r[i] = new(big.Int)
			if rng.Intn(n) == 0 {
				r[i] = rfp(rng)
			}
		case mode == 4: // half of the components
			r[i] = new(big.Int)
			if rng.Intn(2) == 0 {
				r[i] = rfp(rng)
			}
		case mode == 5:
			r[i] = rfp(rng)
		default:
			r[i] = new(big.Int).Rand(rng, P)
		}
	}
	return r
}

func dense(rng *rand.Rand, n int) els {
	r := make(els, n)
	for i := range r {
		r[i] = new(big.Int).Rand(rng, P)
	}
	return r
}

func isZero(x els) bool {
	for _, v := range x {
		if v.Sign() != 0 {
			return false
		}
	}
	return true
}
