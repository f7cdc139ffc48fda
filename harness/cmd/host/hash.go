package main

import (
	"bytes"
	"fmt"
	"github.com/consensys/gnark/std/commitments/kzg"
	"math/big"
	"math/rand"
	"sync"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	fr377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"github.com/consensys/gnark/test/unsafekzg"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

type vk761 = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

func c36(r *vm.R) {
	bls377(r)
	poseidonHistories(r)
	pad0(r)
	vkDigests(r)
	realKeys(r)
	for k, v := range map[string]int64{"distinct_377_digests": int64(len(seen377)), "distinct_vk_digests": int64(len(seenVK))} {
		r.Count(k, v)
	}
}

// blocks377: the input's bits in order, in blocks of 253, each read as a big-endian number and reduced.
func blocks377(b []byte) (out []string) {
	x := new(big.Int).SetBytes(b)
	n := 8 * len(b)
	for i := 0; i < n; i += 253 {
		w := 253
		if i+w > n {
			w = n - i
		}
		y := new(big.Int).Rsh(x, uint(n-i-w))
		y.And(y, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
		out = append(out, y.Mod(y, fr377.Modulus()).String())
	}
	return out
}

func ref377(blocks []string) []byte {
	h := mimc377.NewMiMC()
	for _, s := range blocks {
		x, _ := new(big.Int).SetString(s, 10)
		var e fr377.Element
		e.SetBigInt(x)
		b := e.Bytes()
		if _, err := h.Write(b[:]); err != nil {
			panic(err)
		}
	}
	return h.Sum(nil)
}

var (
	seenMu  sync.Mutex
	seen377 = map[string]string{} // digest -> block encoding
	seenVK  = map[string]string{}
)

func one377(r *vm.R, in []byte) {
	arg := append(append([]byte{0xa5, 0x5a}, in...), 0xa5, 0x5a)
	note := map[string]any{"input": vm.Hex(in)}
	r.Case("bls377", note, func() {
		got := utils.GenerateBls12377Hash(arg[2 : 2+len(in) : 2+len(in)+2])
		bl := blocks377(in)
		want := ref377(bl)
		r.Expect(bytes.Equal(got, want), "bls377", note, "digest %x, want %x (blocks %v)", got, want, bl)
		r.Expect(bytes.Equal(arg[2:2+len(in)], in) && arg[0] == 0xa5 && arg[1] == 0x5a && arg[len(arg)-2] == 0xa5 && arg[len(arg)-1] == 0x5a, "bls377-input", note, "the caller's bytes became %x", arg)
		enc := fmt.Sprint(bl)
		seenMu.Lock()
		prev, ok := seen377[string(got)]
		seen377[string(got)] = enc
		seenMu.Unlock()
		r.Expect(!ok || prev == enc, "bls377-collision", note, "inputs with blocks %s and %s have the digest %x", prev, enc, got)
		r.Eval("bls377", string(in))
	})
}

func bls377(r *vm.R) {
	max := r.N(400, 2000)
	vm.Par(max+1, 0, func(n int) {
		rng := r.Rand(fmt.Sprintf("377/%d", n))
		b := make([]byte, n)
		one377(r, b)
		one377(r, bytes.Repeat([]byte{0xff}, n))
		for k := 0; k < r.N(3, 12); k++ {
			rng.Read(b)
			one377(r, append([]byte{}, b...))
			if n > 0 { // a neighbour one bit away, and the first and last bits
				for _, i := range []int{rng.Intn(8 * n), 0, 8*n - 1} {
					c := append([]byte{}, b...)
					c[i/8] ^= 0x80 >> (i % 8)
					one377(r, c)
				}
			}
		}
		if n >= 32 { // blocks equal to p-1, p, p+1 in every block position
			p := fr377.Modulus()
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int)
				total := 8 * n
				for i := 0; i+253 <= total; i += 253 {
					y := new(big.Int).Add(p, big.NewInt(d))
					if rng.Intn(3) == 0 {
						y.Rand(rng, p)
					}
					x.Or(x, y.Lsh(y, uint(total-i-253)))
				}
				one377(r, x.FillBytes(make([]byte, n)))
			}
		}
	})
	r.Sample("bls377", map[string]any{"input": "00ff", "blocks": blocks377([]byte{0, 255})})
}

func poseidonHistories(r *vm.R) {
	p := vm.BN254
	pool := func(rng *rand.Rand) *big.Int {
		switch rng.Intn(6) {
		case 0:
			return new(big.Int)
		case 1:
			return big.NewInt(1)
		case 2:
			return new(big.Int).Sub(p, big.NewInt(1))
		}
		return new(big.Int).Rand(rng, p)
	}
	vm.Par(r.N(400, 6000), 0, func(k int) {
		rng := r.Rand(fmt.Sprintf("pos/%d", k))
		h := utils.NewPoseidonBn254()
		other := utils.NewPoseidonBn254()
		var model []*big.Int
		var hist []string
		note := func() map[string]any { return map[string]any{"history": hist} }
		check := func() {
			got, err := h.Sum()
			ok := len(model) <= 16 && len(model) > 0
			for _, x := range model {
				ok = ok && x.Cmp(p) < 0 && x.Sign() >= 0
			}
			hist = append(hist, "sum")
			if !ok {
				if len(model) > 0 { // the empty hash is whatever Poseidon makes of it
					r.Expect(err != nil, "poseidon-reject", note(), "%d inputs, some out of range or too many: digest %v", len(model), got)
				}
			} else {
				want, werr := poseidon.Hash(model)
				if werr != nil {
					panic(werr)
				}
				r.Expect(err == nil && got.Cmp(want) == 0, "poseidon", note(), "digest %v (%v), want %v", got, err, want)
			}
			r.Eval("poseidon", fmt.Sprint(hist))
		}
		r.Case("poseidon", map[string]any{"seed case": k}, func() {
			for s := 0; s < 4+rng.Intn(30); s++ {
				switch c := rng.Intn(20); {
				case c < 12:
					x := pool(rng)
					if rng.Intn(60) == 0 {
						x = new(big.Int).Add(p, big.NewInt(int64(rng.Intn(3))))
					}
					model = append(model, new(big.Int).Set(x))
					hist = append(hist, x.String())
					h.Write(x)
					if rng.Intn(2) == 0 { // the caller goes on using its number
						x.Add(x, big.NewInt(1))
						hist = append(hist, "caller changes its number")
					}
				case c < 13:
					other.Write(pool(rng)) // another instance
				case c < 16 && len(model) > 0 || c == 16 && len(model) > 10:
					h.Reset()
					model = nil
					hist = append(hist, "reset")
				default:
					check()
				}
			}
			check()
			check() // asking again changes nothing
		})
	})
	r.Case("poseidon-count", nil, func() {
		for n := 1; n <= 20; n++ {
			h := utils.NewPoseidonBn254()
			var in []*big.Int
			for i := 0; i < n; i++ {
				in = append(in, big.NewInt(int64(i)))
				h.Write(in[i])
			}
			got, err := h.Sum()
			if n > 16 {
				r.Expect(err != nil, "poseidon-count", n, "%d inputs hashed to %v", n, got)
			} else {
				want, _ := poseidon.Hash(in)
				r.Expect(err == nil && got.Cmp(want) == 0, "poseidon-count", n, "got %v, %v want %v", got, err, want)
			}
			r.Eval("poseidon-count", fmt.Sprint(n))
		}
	})
}

func pad0(r *vm.R) {
	rng := r.Rand("pad0")
	for bs := 1; bs <= 64; bs++ {
		for n := 0; n <= bs; n++ {
			d := make([]byte, n)
			rng.Read(d)
			arg := append([]byte{}, d...)
			in := map[string]any{"data": vm.Hex(d), "block": bs}
			r.Case("pad0", in, func() {
				got := utils.MiMCBlockPad0(arg, bs)
				want := new(big.Int).SetBytes(d).FillBytes(make([]byte, bs))
				r.Expect(bytes.Equal(got, want) && bytes.Equal(arg, d), "pad0", in, "got %x, data now %x", got, arg)
				for i := range got { // the block is the caller's own
					got[i] ^= 0xff
				}
				r.Expect(bytes.Equal(arg, d), "pad0-alias", in, "writing to the block changed the data")
				r.Eval("pad0", fmt.Sprint(bs, n))
			})
		}
	}
}

// --- verifying keys --------------------------------------------------------------------------------------

func rnd761(rng *rand.Rand) fr761.Element {
	var e fr761.Element
	switch rng.Intn(12) {
	case 0:
	case 1:
		e.SetOne()
	case 2:
		e.SetOne()
		e.Neg(&e)
	default:
		e.SetBigInt(new(big.Int).Rand(rng, fr761.Modulus()))
	}
	return e
}

func rndVK(rng *rand.Rand) *vk761 {
	var vk vk761
	vk.NbPublicVariables = []uint64{0, 1, 2, 3, 1<<63 + 5, ^uint64(0), rng.Uint64()}[rng.Intn(7)]
	for i := 0; i < 4; i++ {
		vk.CosetShift.Limbs = append(vk.CosetShift.Limbs, new(big.Int).SetUint64([]uint64{0, 22, ^uint64(0), rng.Uint64()}[rng.Intn(4)]))
	}
	for _, p := range points(&vk) {
		*p.dst = rnd761(rng)
	}
	return &vk
}

type comp struct {
	name string
	dst  *frontend.Variable
}

// points names every coordinate of the key, in the order of the digest.
func points(vk *vk761) (out []comp) {
	add := func(n string, v *frontend.Variable) { out = append(out, comp{n, v}) }
	add("Kzg.G1.X", &vk.Kzg.G1.X)
	add("Kzg.G1.Y", &vk.Kzg.G1.Y)
	for i := range vk.Kzg.G2 {
		p := &vk.Kzg.G2[i].P
		add(fmt.Sprintf("Kzg.G2[%d].X.A0", i), &p.X.A0)
		add(fmt.Sprintf("Kzg.G2[%d].X.A1", i), &p.X.A1)
		add(fmt.Sprintf("Kzg.G2[%d].Y.A0", i), &p.Y.A0)
		add(fmt.Sprintf("Kzg.G2[%d].Y.A1", i), &p.Y.A1)
	}
	for i := range vk.S {
		add(fmt.Sprintf("S[%d].X", i), &vk.S[i].G1El.X)
		add(fmt.Sprintf("S[%d].Y", i), &vk.S[i].G1El.Y)
	}
	for _, q := range []struct {
		n string
		p *sw_bls12377.G1Affine
	}{{"Ql", &vk.Ql.G1El}, {"Qr", &vk.Qr.G1El}, {"Qm", &vk.Qm.G1El}, {"Qo", &vk.Qo.G1El}, {"Qk", &vk.Qk.G1El}} {
		add(q.n+".X", &q.p.X)
		add(q.n+".Y", &q.p.Y)
	}
	return out
}

func refVK(vk *vk761) (enc string, digest []byte) {
	h := mimc761.NewMiMC()
	put := func(x *big.Int) {
		b := x.FillBytes(make([]byte, 48))
		enc += vm.Hex(b)
		if _, err := h.Write(b); err != nil {
			panic(err)
		}
	}
	put(new(big.Int).SetUint64(vk.NbPublicVariables))
	for _, l := range vk.CosetShift.Limbs {
		put(l.(*big.Int))
	}
	for _, p := range points(vk) {
		e := (*p.dst).(fr761.Element)
		put(e.BigInt(new(big.Int)))
	}
	return enc, h.Sum(nil)
}

func oneVK(r *vm.R, kind string, vk *vk761, note any) []byte {
	var got []byte
	r.Case(kind, note, func() {
		enc, want := refVK(vk)
		got = utils.CalculateAppVkHashFor761(*vk)
		r.Expect(bytes.Equal(got, want), kind, note, "digest %x, want %x", got, want)
		enc2, _ := refVK(vk)
		r.Expect(enc == enc2, kind+"-input", note, "the key was changed")
		seenMu.Lock()
		prev, ok := seenVK[string(got)]
		seenVK[string(got)] = enc
		seenMu.Unlock()
		r.Expect(!ok || prev == enc, kind+"-collision", note, "two keys have the digest %x", got)
		r.Eval(kind, enc)

		// the digest's own digest, over BN254
		h := mimc254.NewMiMC()
		for _, half := range [][]byte{got[:24], got[24:48]} {
			if _, err := h.Write(append(make([]byte, 8), half...)); err != nil {
				panic(err)
			}
		}
		arg := append([]byte{}, got...)
		g2 := utils.CalculateAppVkHashFrom761To254(arg)
		r.Expect(bytes.Equal(g2, h.Sum(nil)) && bytes.Equal(arg, got), kind+"-254", note, "254 digest %x, want %x", g2, h.Sum(nil))
		r.Eval(kind+"-254", vm.Hex(got))
	})
	return got
}

func vkDigests(r *vm.R) {
	vm.Par(r.N(60, 1500), 0, func(k int) {
		rng := r.Rand(fmt.Sprintf("vk/%d", k))
		vk := rndVK(rng)
		note := map[string]any{"seed case": k}
		base := oneVK(r, "vk", vk, note)
		for _, p := range points(vk) { // each coordinate alone
			keep := *p.dst
			e := keep.(fr761.Element)
			var one fr761.Element
			one.SetOne()
			if rng.Intn(2) == 0 {
				e.Add(&e, &one)
			} else {
				e.SetBigInt(new(big.Int).Rand(rng, fr761.Modulus()))
			}
			*p.dst = e
			n := map[string]any{"seed case": k, "changed": p.name}
			d := oneVK(r, "vk-component", vk, n)
			if e != keep.(fr761.Element) {
				r.Expect(!bytes.Equal(d, base), "vk-component", n, "changing %s does not change the digest", p.name)
			}
			*p.dst = keep
		}
		for i := range vk.CosetShift.Limbs {
			l := vk.CosetShift.Limbs[i].(*big.Int)
			l.Xor(l, new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(64))))
			n := map[string]any{"seed case": k, "changed": fmt.Sprint("coset limb ", i)}
			r.Expect(!bytes.Equal(oneVK(r, "vk-component", vk, n), base), "vk-component", n, "no effect")
			vk.CosetShift.Limbs[i] = new(big.Int).SetUint64(rng.Uint64())
			base = oneVK(r, "vk", vk, note)
		}
		vk.NbPublicVariables ^= 1 << rng.Intn(64)
		n := map[string]any{"seed case": k, "changed": "public variables"}
		r.Expect(!bytes.Equal(oneVK(r, "vk-component", vk, n), base), "vk-component", n, "no effect")
		// commitments of the key's own commitment gates
		r.Case("vk-qcp", note, func() {
			with := func(qs ...kzg.Commitment[sw_bls12377.G1Affine]) []byte {
				c := *vk
				c.Qcp = qs
				r.Eval("vk-qcp", fmt.Sprint(k, len(qs)))
				return utils.CalculateAppVkHashFor761(c)
			}
			q := func() (c kzg.Commitment[sw_bls12377.G1Affine]) {
				c.G1El.X, c.G1El.Y = rnd761(rng), fr761.NewElement(rng.Uint64())
				return c
			}
			a, b := q(), q()
			r.Expect(!bytes.Equal(with(a), with(b)) && !bytes.Equal(with(a), with()), "vk-qcp", note, "changing or adding a Qcp commitment does not change the digest")
		})
	})
	// arbitrary 48-byte digests
	vm.Par(r.N(400, 5000), 0, func(k int) {
		rng := r.Rand(fmt.Sprintf("254/%d", k))
		d := make([]byte, 48)
		rng.Read(d)
		switch k % 5 {
		case 1:
			copy(d[:24], bytes.Repeat([]byte{0xff}, 24))
		case 2:
			copy(d[24:], bytes.Repeat([]byte{0xff}, 24))
		case 3:
			d = new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(200)))).FillBytes(make([]byte, 48))
		}
		in := map[string]any{"digest": vm.Hex(d)}
		r.Case("vk-254", in, func() {
			h := mimc254.NewMiMC()
			for _, half := range [][]byte{d[:24], d[24:]} {
				if _, err := h.Write(append(make([]byte, 8), half...)); err != nil {
					panic(err)
				}
			}
			arg := append([]byte{}, d...)
			got := utils.CalculateAppVkHashFrom761To254(arg)
			r.Expect(bytes.Equal(got, h.Sum(nil)) && bytes.Equal(arg, d), "vk-254", in, "got %x want %x", got, h.Sum(nil))
			r.Eval("vk-254", string(d))
		})
	})
}

// poly is a family of circuits whose keys differ.
type poly struct {
	X, Y frontend.Variable `gnark:",public"`
	Z    frontend.Variable
	n, c int
}

func (p *poly) Define(api frontend.API) error {
	t := p.Z
	for i := 0; i < p.n; i++ {
		t = api.Add(api.Mul(t, p.X), p.c)
	}
	api.AssertIsEqual(t, p.Y)
	return nil
}

// realKeys: keys made by the plonk setup, hashed in memory; equal keys have equal digests.
func realKeys(r *vm.R) {
	digest := map[string]string{}
	for i := 0; i < r.N(6, 30); i++ {
		n, c := 1+i%5, 3+i/5
		note := map[string]any{"steps": n, "constant": c}
		r.Case("vk-real", note, func() {
			var first []byte
			for rep := 0; rep < 2; rep++ {
				ccs, err := frontend.Compile(ecc.BLS12_377.ScalarField(), scs.NewBuilder, &poly{n: n, c: c})
				if err != nil {
					panic(err)
				}
				srs, lag, err := unsafekzg.NewSRS(ccs)
				if err != nil {
					panic(err)
				}
				_, vk, err := plonk.Setup(ccs, srs, lag)
				if err != nil {
					panic(err)
				}
				v, err := replonk.ValueOfVerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine](vk)
				if err != nil {
					panic(err)
				}
				d := oneVK(r, "vk-real", &v, note)
				if rep == 1 {
					r.Expect(bytes.Equal(d, first), "vk-real-repeat", note, "the same key has digests %x and %x", first, d)
				}
				first = d
			}
			k := fmt.Sprint(n, c)
			for o, d := range digest {
				r.Expect(d != string(first) || o == k, "vk-real-collision", note, "same digest as %s", o)
			}
			digest[k] = string(first)
		})
	}
}
