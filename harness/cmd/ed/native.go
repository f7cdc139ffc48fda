package main

import (
	"crypto/sha512"
	"math/big"
)

// Native Ed25519 over big integers, from RFC 8032 (independent of the code under test).

var (
	bigp, _  = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	order, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	dconst   = mod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), bigp)))
	one      = big.NewInt(1)
	zero     = big.NewInt(0)
	sqrtm1   = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(bigp, one), 2), bigp)
	base     = func() pt {
		y := mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), bigp))
		p, ok := lift(y, 0)
		if !ok {
			panic("base point")
		}
		return p
	}()
	ident = pt{zero, one}
)

type pt struct{ x, y *big.Int }

func mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, bigp) }
func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func add(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
func inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, bigp) }

func (p pt) add(q pt) pt {
	a, b := mul(p.x, q.y), mul(p.y, q.x)
	k := mul(dconst, mul(a, b))
	return pt{mul(add(a, b), inv(add(one, k))), mul(add(mul(p.y, q.y), mul(p.x, q.x)), inv(sub(one, k)))}
}
func (p pt) neg() pt      { return pt{mod(new(big.Int).Neg(p.x)), p.y} }
func (p pt) eq(q pt) bool { return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0 }
func (p pt) onCurve() bool {
	xx, yy := mul(p.x, p.x), mul(p.y, p.y)
	return sub(yy, xx).Cmp(add(one, mul(dconst, mul(xx, yy)))) == 0
}
func (p pt) mul(k *big.Int) pt {
	r := ident
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

// lift finds the point with the given y and sign of x.
func lift(y *big.Int, sign uint) (pt, bool) {
	yy := mul(y, y)
	xx := mul(sub(yy, one), inv(add(mul(dconst, yy), one)))
	x := new(big.Int).ModSqrt(xx, bigp)
	if x == nil {
		return pt{}, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return pt{x, y}, true
}

func enc(p pt) []byte {
	b := leBytes(p.y, 32)
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}

func leBytes(v *big.Int, n int) []byte {
	b := v.FillBytes(make([]byte, n))
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
	return b
}
func leInt(b []byte) *big.Int {
	r := append([]byte{}, b...)
	for i := 0; i < len(r)/2; i++ {
		r[i], r[len(r)-1-i] = r[len(r)-1-i], r[i]
	}
	return new(big.Int).SetBytes(r)
}

func hram(r, a, m []byte) *big.Int {
	h := sha512.New()
	h.Write(r)
	h.Write(a)
	h.Write(m)
	return new(big.Int).Mod(leInt(h.Sum(nil)), order)
}

// valid is the cofactored verification of RFC 8032 over decoded points.
func valid(r, a pt, s *big.Int, m []byte) bool {
	if s.Cmp(order) >= 0 || s.Sign() < 0 || !r.onCurve() || !a.onCurve() {
		return false
	}
	k := hram(enc(r), enc(a), m)
	q := base.mul(s).add(a.neg().mul(k)).add(r.neg())
	return q.mul(big.NewInt(8)).eq(ident)
}
