// Monitor of the Ed25519 gadget (C24) against RFC 8032 over big integers and crypto/ed25519.
package main

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	ged "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	edlib "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

const msgLen = 122

func main() {
	vm.Main(map[string]vm.Spec{"C24": {Run: run,
		Rule: "one evaluation = one signature witness put through the gadget (or one host conversion); non-trivial = distinct (kind, witness); the oracle is the cofactored RFC 8032 equation over big integers on canonical, on-curve points, itself checked against crypto/ed25519"}})
}

// wit is a raw witness: the integers behind the limbs, not necessarily reduced.
type wit struct {
	pub            [2]*big.Int
	msg            [5]*big.Int
	rx, ry, ax, ay *big.Int
	s              *big.Int
}

func (w wit) String() string {
	return fmt.Sprintf("pub=%x/%x msg=%x r=(%x,%x) a=(%x,%x) s=%x", w.pub[0], w.pub[1], w.msg, w.rx, w.ry, w.ax, w.ay, w.s)
}

func be(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func mkwit(pub []byte, r, a pt, s *big.Int, m []byte) (w wit) {
	w.pub[0], w.pub[1] = be(pub[:16]), be(pub[16:])
	for i := range w.msg {
		end := (i + 1) * 25
		if end > len(m) {
			end = len(m)
		}
		w.msg[i] = be(m[i*25 : end])
	}
	w.rx, w.ry, w.ax, w.ay, w.s = r.x, r.y, a.x, a.y, s
	return
}

// want decides the witness from its meaning alone.
func (w wit) want() bool {
	for _, c := range []*big.Int{w.rx, w.ry, w.ax, w.ay} {
		if c.Cmp(bigp) >= 0 {
			return false
		}
	}
	var pub, m []byte
	for _, p := range w.pub {
		if p.BitLen() > 128 {
			return false
		}
		pub = append(pub, p.FillBytes(make([]byte, 16))...)
	}
	for i, p := range w.msg {
		n := 25
		if i == 4 {
			n = msgLen - 100
		}
		if p.BitLen() > 8*n {
			return false
		}
		m = append(m, p.FillBytes(make([]byte, n))...)
	}
	r, a := pt{w.rx, w.ry}, pt{w.ax, w.ay}
	return string(enc(a)) == string(pub) && valid(r, a, w.s, m)
}

func limbs(v *big.Int) (out []frontend.Variable) {
	mask := new(big.Int).Sub(new(big.Int).Lsh(one, 51), one)
	for i := uint(0); i < 5; i++ {
		out = append(out, new(big.Int).And(new(big.Int).Rsh(v, 51*i), mask))
	}
	return
}

func (w wit) vars() (in []frontend.Variable) {
	for _, v := range w.pub {
		in = append(in, v)
	}
	for _, v := range w.msg {
		in = append(in, v)
	}
	for _, v := range []*big.Int{w.rx, w.ry, w.ax, w.ay} {
		in = append(in, limbs(v)...)
	}
	return append(in, w.s)
}

const nIn = 2 + 5 + 20 + 1

func gadget(api frontend.API, in []frontend.Variable) []frontend.Variable {
	e, err := ged.NewEd25519(api)
	if err != nil {
		panic(err)
	}
	el := func(i int) emulated.Element[ged.Ed25519Fp] {
		return emulated.Element[ged.Ed25519Fp]{Limbs: append([]frontend.Variable{}, in[i:i+5]...)}
	}
	var msg [5]frontend.Variable
	copy(msg[:], in[2:7])
	sig := ged.Signature{R: ged.Point{X: el(7), Y: el(12)}, S: in[27]}
	pk := ged.PublicKey{A: ged.Point{X: el(17), Y: el(22)}}
	if err := e.Verify(in[:2:2], sig, msg, pk); err != nil {
		panic(err)
	}
	return nil
}

// key is one signer with an expanded secret.
type key struct {
	pub  []byte
	priv ed25519.PrivateKey
	a    *big.Int // secret scalar
	A    pt
}

func newKey(seed []byte) key {
	priv := ed25519.NewKeyFromSeed(seed)
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] = h[31]&127 | 64
	k := key{pub: priv.Public().(ed25519.PublicKey), priv: priv, a: leInt(h[:32])}
	k.A = decode(k.pub)
	return k
}

func decode(b []byte) pt {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 127
	p, ok := lift(leInt(c), sign)
	if !ok {
		panic("not a point")
	}
	return p
}

func rbytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	switch rng.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 255
		}
	case 2:
		for i := 0; i < n/2; i++ {
			b[i] = 0
		}
	}
	return b
}

func rint(rng *rand.Rand, max *big.Int) *big.Int { return new(big.Int).Rand(rng, max) }

// torsion is a point of order 8.
var torsion = func() pt {
	rng := rand.New(rand.NewSource(7))
	for {
		p, ok := lift(rint(rng, bigp), 0)
		if !ok {
			continue
		}
		t := p.mul(order)
		if !t.mul(big.NewInt(4)).eq(ident) {
			return t
		}
	}
}()

// forgeR finds, for a key and a message, an R off the curve that makes the formulas of the group law reach the
// neutral element: (-Q)+R = T with T.x = i*T.y, which three doublings send to (0,1).
func forgeR(rng *rand.Rand, k key, m []byte, s *big.Int) (pt, bool) {
	ry, sign := rint(rng, bigp), uint(rng.Intn(2))
	b := leBytes(ry, 32)
	b[31] |= byte(sign) << 7
	h := hram(b, k.pub, m)
	q := base.mul(s).add(k.A.neg().mul(h)).neg()
	// (x1 y2 + x2 y1)(1-v) = i (y1 y2 + x1 x2)(1+v), v = d x1 x2 y1 y2, in x2
	c := mul(dconst, mul(q.x, mul(q.y, ry)))
	// (A + B x)(1 - c x) = i (D + E x)(1 + c x)
	A, B, D, E := mul(q.x, ry), q.y, mul(q.y, ry), q.x
	iD, iE := mul(sqrtm1, D), mul(sqrtm1, E)
	a2 := sub(mod(new(big.Int).Neg(mul(B, c))), mul(iE, c))
	a1 := sub(sub(B, mul(A, c)), add(iE, mul(iD, c)))
	a0 := sub(A, iD)
	disc := sub(mul(a1, a1), mul(big.NewInt(4), mul(a2, a0)))
	sq := new(big.Int).ModSqrt(disc, bigp)
	if sq == nil {
		return pt{}, false
	}
	for _, sgn := range []*big.Int{sq, mod(new(big.Int).Neg(sq))} {
		x := mul(sub(sgn, a1), inv(mul(big.NewInt(2), a2)))
		if x.Bit(0) == sign {
			t := q.add(pt{x, ry})
			for i := 0; i < 3; i++ {
				t = dbl(t)
			}
			if t.eq(ident) && !(pt{x, ry}).onCurve() {
				return pt{x, ry}, true
			}
		}
	}
	return pt{}, false
}

// dbl is the doubling with the curve equation substituted, as most circuits have it.
func dbl(p pt) pt {
	u, v, w := mul(p.x, p.y), mul(p.x, p.x), mul(p.y, p.y)
	return pt{mul(add(u, u), inv(sub(w, v))), mul(add(w, v), inv(sub(big.NewInt(2), sub(w, v))))}
}

type probe struct {
	kind string
	w    wit
}

func run(r *vm.R) {
	host(r)
	var probes []probe
	rng := r.Rand("sig")
	n := r.N(5, 80)
	put := func(kind string, w wit) { probes = append(probes, probe{kind, w}) }
	var first *wit
	for i := 0; i < n; i++ {
		k := newKey(rbytes(rng, 32))
		m := rbytes(rng, msgLen)
		sig := ed25519.Sign(k.priv, m)
		R, s := decode(sig[:32]), leInt(sig[32:])
		if !ed25519.Verify(k.pub, m, sig) || string(enc(R)) != string(sig[:32]) || !valid(R, k.A, s, m) {
			panic("harness: the oracle disagrees with crypto/ed25519")
		}
		good := mkwit(k.pub, R, k.A, s, m)
		if first == nil {
			first = &good
		}
		put("honest", good)
		// a signature the signer makes with a chosen nonce
		for _, nonce := range []*big.Int{zero, one, new(big.Int).Sub(order, one), rint(rng, order)} {
			if rng.Intn(4) != 0 && i > 0 {
				continue
			}
			rp := base.mul(nonce)
			h := hram(enc(rp), k.pub, m)
			s2 := new(big.Int).Mod(new(big.Int).Add(nonce, new(big.Int).Mul(h, k.a)), order)
			put("nonce", mkwit(k.pub, rp, k.A, s2, m))
			if nonce.Sign() == 0 { // the same point under other representations, each with its own hash
				for _, rep := range [][2]*big.Int{{bigp, one}, {zero, add2(bigp, one)}, {bigp, add2(bigp, one)}} {
					b := leBytes(rep[1], 32)
					b[31] |= byte(rep[0].Bit(0)) << 7
					h := hram(b, k.pub, m)
					s3 := new(big.Int).Mod(new(big.Int).Mul(h, k.a), order)
					put("representation", mkwit(k.pub, pt{rep[0], rep[1]}, k.A, s3, m))
				}
			}
		}
		// a commitment with a component of small order satisfies the cofactored equation only
		for _, j := range [][]int64{{1, 2}, {7}, {5, 4}, {3}, {6}}[i%5] {
			nonce := rint(rng, order)
			rp := base.mul(nonce).add(torsion.mul(big.NewInt(j)))
			h := hram(enc(rp), k.pub, m)
			s2 := new(big.Int).Mod(new(big.Int).Add(nonce, new(big.Int).Mul(h, k.a)), order)
			put("mixed-order R", mkwit(k.pub, rp, k.A, s2, m))
		}
		// a key with a component of small order is a valid key under the cofactored equation
		if i%4 == 1 {
			A := k.A.add(torsion.mul(big.NewInt(int64(1 + rng.Intn(7)))))
			nonce := rint(rng, order)
			rp := base.mul(nonce)
			h := hram(enc(rp), enc(A), m)
			s2 := new(big.Int).Mod(new(big.Int).Add(nonce, new(big.Int).Mul(h, k.a)), order)
			put("mixed-order key", mkwit(enc(A), rp, A, s2, m))
		}
		if i%4 == 2 {
			A := torsion.mul(big.NewInt(int64(rng.Intn(8))))
			s2 := rint(rng, order)
			put("small-order key", mkwit(enc(A), base.mul(s2), A, s2, m))
		}
		// tampering
		flip := func(b []byte, bit int) []byte {
			c := append([]byte{}, b...)
			c[bit/8] ^= 1 << (bit % 8)
			return c
		}
		for _, bit := range []int{rng.Intn(msgLen * 8), []int{0, 199, 200, 399, 400, 600, 799, 800, 975}[i%9]} {
			put("message bit", mkwit(k.pub, R, k.A, s, flip(m, bit)))
		}
		put("public bit", mkwit(flip(k.pub, rng.Intn(256)), R, k.A, s, m))
		put("public sign", mkwit(flip(k.pub, 255), R, k.A, s, m))
		put("key sign", mkwit(k.pub, R, k.A.neg(), s, m))
		put("other key", mkwit(enc(k.A.neg()), R, k.A.neg(), s, m))
		put("key and halves", mkwit(append(append([]byte{}, k.pub[16:]...), k.pub[:16]...), R, k.A, s, m))
		put("R sign", mkwit(k.pub, R.neg(), k.A, s, m))
		put("R torsion", mkwit(k.pub, R.add(torsion), k.A, s, m))
		put("R other", mkwit(k.pub, base.mul(rint(rng, order)), k.A, s, m))
		put("A torsion", mkwit(k.pub, R, k.A.add(torsion), s, m))
		for j, d := range []*big.Int{one, new(big.Int).Neg(one), order, new(big.Int).Lsh(order, 1), rint(rng, order)} {
			if s2 := new(big.Int).Add(s, d); s2.Cmp(vm.BN254) < 0 {
				put(fmt.Sprintf("S%d", j), mkwit(k.pub, R, k.A, s2, m))
			}
		}
		put("S zero", mkwit(k.pub, R, k.A, zero, m))
		// off the curve
		x2 := add(k.A.x, big.NewInt(2))
		if x2.Bit(0) == k.A.x.Bit(0) {
			put("A off curve", mkwit(k.pub, R, pt{x2, k.A.y}, s, m))
		}
		for j := 0; j < 20; j++ {
			s2 := rint(rng, order)
			if p, ok := forgeR(rng, k, m, s2); ok {
				put("R forged off curve", mkwit(k.pub, p, k.A, s2, m))
				break
			}
		}
		// operands that are too wide
		w := good
		w.pub[i%2] = new(big.Int).Add(w.pub[i%2], new(big.Int).Lsh(one, 128))
		put("wide public", w)
		w = good
		j := i % 5
		width := uint(200)
		if j == 4 {
			width = 176
		}
		w.msg[j] = new(big.Int).Add(w.msg[j], new(big.Int).Lsh(one, width))
		put("wide message", w)
		w = good
		j = i % 4
		w.msg[j], w.msg[j+1] = w.msg[j+1], w.msg[j]
		put("swapped message", w)
	}
	for _, p := range probes {
		r.Count("witness "+p.kind, 1)
	}
	vm.Par(len(probes), 8, func(i int) {
		p := probes[i]
		r.Case("C24 "+p.kind, p.w.String(), func() {
			want := p.w.want()
			_, err := vm.Run(vm.BN254, p.w.vars(), gadget)
			r.Eval(p.kind, p.w.String())
			r.Count(fmt.Sprintf("accepted %v", err == nil), 1)
			r.Expect((err == nil) == want, "verify-"+p.kind, p.w.String(), "the gadget's answer is satisfiable=%v (%.200v) and the signature's validity is %v", err == nil, err, want)
		})
	})
	// The compiled circuit, from the witness the honest prover fills in.
	r.Case("C24 compiled", "", func() {
		c, err := vm.Compile(vm.BN254, nIn, false, gadget)
		if !r.Expect(err == nil, "compile", "", "compilation: %v", err) {
			return
		}
		r.Count("constraints", int64(c.CS.GetNbConstraints()))
		_, err = c.Solve(first.vars())
		r.Eval("compiled", "honest")
		r.Expect(err == nil, "compiled-honest", first.String(), "the compiled circuit refuses a valid signature: %.300v", err)
		for i, p := range probes {
			if i%(len(probes)/r.N(6, 40)+1) != 3 || p.w.want() {
				continue
			}
			_, err = c.Solve(p.w.vars())
			r.Eval("compiled", p.w.String())
			r.Expect(err != nil, "compiled-"+p.kind, p.w.String(), "the compiled circuit accepts an invalid signature")
		}
	})
}

func add2(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

// host checks the witness helpers and the host curve library that the witness is built with.
func host(r *vm.R) {
	rng := r.Rand("host")
	for i := 0; i < r.N(200, 4000); i++ {
		b := rbytes(rng, rng.Intn(40))
		in := append([]byte{}, b...)
		got := ged.PutBigEndian(b)
		want := leBytes(be(b), len(b))
		r.Eval("PutBigEndian", vm.Hex(b))
		r.Expect(string(got) == string(want) && string(b) == string(in), "put-big-endian", vm.Hex(b), "PutBigEndian gives %x", got)
	}
	val := func(e emulated.Element[ged.Ed25519Fp]) *big.Int {
		v := new(big.Int)
		for i := len(e.Limbs) - 1; i >= 0; i-- {
			v.Lsh(v, 51)
			v.Add(v, e.Limbs[i].(*big.Int))
		}
		return v
	}
	for i := 0; i < r.N(100, 1500); i++ {
		k, l := rint(rng, order), rint(rng, order)
		if i < 10 {
			k = big.NewInt(int64(i))
		}
		p := base.mul(k)
		r.Case("C24 host", k.String(), func() {
			P, err := (&edlib.Point{}).SetBytes(enc(p))
			if !r.Expect(err == nil, "host-decode", k.String(), "SetBytes refuses %x: %v", enc(p), err) {
				return
			}
			e := ged.NewEmulatedPoint(P)
			r.Eval("NewEmulatedPoint", k.String())
			r.Expect(val(e.X).Cmp(p.x) == 0 && val(e.Y).Cmp(p.y) == 0, "emulated-point", k.String(), "NewEmulatedPoint gives (%x,%x) for (%x,%x)", val(e.X), val(e.Y), p.x, p.y)
			K, err1 := edlib.NewScalar().SetCanonicalBytes(leBytes(k, 32))
			L, err2 := edlib.NewScalar().SetCanonicalBytes(leBytes(l, 32))
			if !r.Expect(err1 == nil && err2 == nil, "host-scalar", k.String(), "SetCanonicalBytes: %v %v", err1, err2) {
				return
			}
			// kB, lP + kB and the emulated coordinates of a point that is not normalised
			r.Expect(string((&edlib.Point{}).ScalarBaseMult(K).Bytes()) == string(enc(p)), "host-base-mult", k.String(), "ScalarBaseMult")
			dp := p.mul(l).add(base.mul(k))
			D := (&edlib.Point{}).VarTimeDoubleScalarBaseMult(L, P, K)
			e = ged.NewEmulatedPoint(D)
			r.Eval("NewEmulatedPoint", k.String()+l.String())
			r.Expect(val(e.X).Cmp(dp.x) == 0 && val(e.Y).Cmp(dp.y) == 0, "emulated-point-projective", k.String(), "NewEmulatedPoint of a point that is not normalised gives (%x,%x) for (%x,%x)", val(e.X), val(e.Y), dp.x, dp.y)
			r.Expect(string(D.Bytes()) == string(enc(dp)), "host-double-mult", k.String(), "VarTimeDoubleScalarBaseMult")
			wide := rbytes(rng, 64)
			W, err := edlib.NewScalar().SetUniformBytes(wide)
			r.Expect(err == nil && string(W.Bytes()) == string(leBytes(new(big.Int).Mod(leInt(wide), order), 32)), "host-wide", vm.Hex(wide), "SetUniformBytes")
		})
	}
}
