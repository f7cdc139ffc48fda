// Package cat is the catalogue of the repository's circuit gadgets, in one shape, for the monitors that quantify over
// all of them: adversarial provers (C16), concurrency (C34), compilation (C35) and end-to-end proofs (C39).
package cat

import (
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	"github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	p12 "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/brevis-network/zk-utils/common/utils"

	goed "crypto/ed25519"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"golang.org/x/crypto/sha3"

	edlib "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
)

// Gadget is one gadget in one configuration.
type Gadget struct {
	Name  string
	Area  string // the package it comes from
	Field *big.Int
	Fn    vm.Fn
	Gen   func(rng *rand.Rand) []*big.Int // inputs that are accepted
	Bad   func(rng *rand.Rand) []*big.Int // inputs that are refused (optional)
	// Canon maps raw outputs to what they mean (emulated outputs: integers modulo the emulated field).
	Canon func(out []*big.Int) []*big.Int
	// Partial: inputs of Gen may be refused (consistently).
	Partial bool
	// Weight 0: below some 10^4 constraints; 1: below some 10^5; 2 and 3: more.
	Weight int
}

func (g *Gadget) NIn() int { return len(g.Gen(rand.New(rand.NewSource(1)))) }

func (g *Gadget) Meaning(out []*big.Int) []*big.Int {
	if g.Canon == nil {
		return out
	}
	return g.Canon(out)
}

type vars = []frontend.Variable

var bn254 = ecc.BN254.ScalarField()

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
func bn(x int) *big.Int   { return big.NewInt(int64(x)) }
func below(rng *rand.Rand, m *big.Int) *big.Int {
	switch rng.Intn(8) {
	case 0:
		return bn(0)
	case 1:
		return new(big.Int).Sub(m, bn(1))
	case 2:
		return new(big.Int).Mod(bn(rng.Intn(4)), m)
	}
	return new(big.Int).Rand(rng, m)
}
func seq(rng *rand.Rand, n int, m *big.Int) (o []*big.Int) {
	for i := 0; i < n; i++ {
		o = append(o, below(rng, m))
	}
	return
}
func gen(n int, m *big.Int) func(rng *rand.Rand) []*big.Int {
	return func(rng *rand.Rand) []*big.Int { return seq(rng, n, m) }
}
func ints(v []int) (o []*big.Int) {
	for _, x := range v {
		o = append(o, bn(x))
	}
	return
}
func values(l limbs.Limbs) vars { return l.Values() }

// groups recomposes limbs into integers modulo p; rest passes through.
func groups(p *big.Int, nb, bits, n int) func(out []*big.Int) []*big.Int {
	return func(out []*big.Int) (r []*big.Int) {
		for i := 0; i < n && len(out) >= nb; i++ {
			v := new(big.Int)
			for j := nb - 1; j >= 0; j-- {
				v.Lsh(v, uint(bits))
				v.Add(v, out[j])
			}
			r = append(r, v.Mod(v, p))
			out = out[nb:]
		}
		return append(r, out...)
	}
}

func limbsOf(v *big.Int, nb, bits int) (o []*big.Int) {
	m := new(big.Int).Sub(pow2(bits), bn(1))
	for i := 0; i < nb; i++ {
		o = append(o, new(big.Int).And(new(big.Int).Rsh(v, uint(i*bits)), m))
	}
	return
}

type dims interface {
	NbLimbs() uint
	BitsPerLimb() uint
	Modulus() *big.Int
}

func shape(d dims) (*big.Int, int, int) { return d.Modulus(), int(d.NbLimbs()), int(d.BitsPerLimb()) }

func felts(rng *rand.Rand, n int, d dims) (o []*big.Int) {
	p, nb, bits := shape(d)
	for i := 0; i < n; i++ {
		o = append(o, limbsOf(below(rng, p), nb, bits)...)
	}
	return
}

func elem[T emulated.FieldParams](in vars) (o []*emulated.Element[T]) {
	var t T
	nb := int(t.NbLimbs())
	for i := 0; i+nb <= len(in); i += nb {
		o = append(o, &emulated.Element[T]{Limbs: append(vars{}, in[i:i+nb]...)})
	}
	return
}

type fel = emulated.Element[p12.BLS12381Fp]

func e2(in vars) p12.E2 {
	e := elem[p12.BLS12381Fp](in[:12])
	return p12.E2{A0: *e[0], A1: *e[1]}
}
func o2(api frontend.API, xs ...*p12.E2) (o vars) {
	f, err := emulated.NewField[p12.BLS12381Fp](api)
	if err != nil {
		panic(err)
	}
	for _, x := range xs {
		for _, c := range []*fel{&x.A0, &x.A1} {
			// The value of an unreduced element is what counts.
			o = append(o, padLimbs(f.Reduce(c).Limbs, 6)...)
		}
	}
	return
}
func padLimbs(l vars, n int) vars {
	l = append(vars{}, l...)
	for len(l) < n {
		l = append(l, 0)
	}
	return l
}

func keccakOf(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

// rlpList encodes byte strings as a list.
func rlpItem(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(rlpHead(0x80, len(b)), b...)
}
func rlpHead(off byte, n int) []byte {
	if n < 56 {
		return []byte{off + byte(n)}
	}
	l := new(big.Int).SetInt64(int64(n)).Bytes()
	return append([]byte{off + 55 + byte(len(l))}, l...)
}
func rlpList(items ...[]byte) []byte {
	var p []byte
	for _, i := range items {
		p = append(p, rlpItem(i)...)
	}
	return append(rlpHead(0xc0, len(p)), p...)
}
func bytesOf(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}
func hexPad(b []byte, n int) []*big.Int {
	v := vm.Nibbles(b)
	for len(v) < n {
		v = append(v, 0)
	}
	return ints(v)
}
func bitsOfBytes(b []byte) (o []*big.Int) {
	for _, x := range b {
		for j := 0; j < 8; j++ {
			o = append(o, bn(int(x>>j&1)))
		}
	}
	return
}

// pick concatenates lists.
func pick(xs ...[]*big.Int) (o []*big.Int) {
	for _, x := range xs {
		o = append(o, x...)
	}
	return
}

// All returns the catalogue; the gadgets share nothing with each other or with other calls of All.
func All() []*Gadget {
	var gs []*Gadget
	add := func(area, name string, weight int, g Gadget) {
		g.Area, g.Name, g.Weight = area, name, weight
		if g.Field == nil {
			g.Field = bn254
		}
		gs = append(gs, &g)
	}
	flag := func(f func(api frontend.API, in vars) frontend.Variable) vm.Fn {
		return func(api frontend.API, in vars) vars { return vars{f(api, in)} }
	}

	// limbs
	for _, c := range [][2]int{{8, 3}, {64, 8}, {253, 64}, {200, 1}} {
		c := c
		add("limbs", "Split", 0, Gadget{Gen: gen(1, pow2(c[0])), Fn: func(api frontend.API, in vars) vars {
			return values(limbs.NewAPI(api).Split(limbs.Limb{Val: in[0], Size: c[0]}, c[1]))
		}, Bad: func(rng *rand.Rand) []*big.Int {
			return []*big.Int{new(big.Int).Add(pow2(c[0]), below(rng, new(big.Int).Sub(bn254, pow2(c[0]))))}
		}})
	}
	add("limbs", "SplitOne", 0, Gadget{Gen: gen(1, pow2(40)), Fn: func(api frontend.API, in vars) vars {
		return values(limbs.NewAPI(api).Split(limbs.Limb{Val: in[0], Size: 40}, 7, 1))
	}})
	add("limbs", "Resplit", 0, Gadget{Gen: gen(4, pow2(96)), Fn: func(api frontend.API, in vars) vars {
		return values(limbs.NewAPI(api).Resplit(limbs.NewLimbs(in, 96), 64))
	}})
	add("limbs", "ResplitNarrow", 0, Gadget{Gen: gen(3, pow2(48)), Fn: func(api frontend.API, in vars) vars {
		return values(limbs.NewAPI(api).Resplit(limbs.NewLimbs(in, 48), 32))
	}})
	add("limbs", "LrotMerge", 0, Gadget{Gen: gen(4, pow2(32)), Fn: func(api frontend.API, in vars) vars {
		return vars{limbs.NewAPI(api).LrotMerge(limbs.NewLimbs(in, 32), 45).Val}
	}})
	add("limbs", "Lrot", 0, Gadget{Gen: gen(3, pow2(32)), Fn: func(api frontend.API, in vars) vars {
		return values(limbs.NewAPI(api).Lrot(limbs.NewLimbs(in, 32), 33, 16))
	}})
	// emulated packing
	add("emulated", "ToElement", 0, Gadget{Gen: gen(3, pow2(120)), Fn: func(api frontend.API, in vars) vars {
		return emu.ToElement[emulated.BW6761Fp](api, in, 120).Limbs
	}, Canon: groups(emulated.BW6761Fp{}.Modulus(), 12, 64, 1)})
	add("emulated", "FromElement", 0, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int { return felts(rng, 1, emulated.BLS12377Fr{}) },
		Fn: func(api frontend.API, in vars) vars {
			return emu.FromElement[emulated.BLS12377Fr](api, elem[emulated.BLS12377Fr](in)[0], 100)
		}})
	add("emulated", "ToElements", 0, Gadget{Gen: gen(8, pow2(32)), Fn: func(api frontend.API, in vars) (o vars) {
		for _, e := range emu.ToElements[emulated.Goldilocks](api, in, 32) {
			o = append(o, e.Limbs...)
		}
		return
	}})
	add("emulated", "MiMC", 1, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int { return felts(rng, 2, emulated.BLS12377Fr{}) },
		Fn: func(api frontend.API, in vars) vars {
			h := emimc.NewMiMC[emulated.BLS12377Fr](api, ecc.BLS12_377)
			return h.Hash(elem[emulated.BLS12377Fr](in)...).Limbs
		}, Canon: groups(emulated.BLS12377Fr{}.Modulus(), 4, 64, 1)})
	add("merkle", "EmulatedMimcRoot", 1, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int { return felts(rng, 2, emulated.BN254Fr{}) },
		Fn: func(api frontend.API, in vars) vars {
			return merkle.NewMimcRootAPI[emulated.BN254Fr](api, ecc.BN254).MimcRoot(elem[emulated.BN254Fr](in)).Limbs
		}, Canon: groups(emulated.BN254Fr{}.Modulus(), 4, 64, 1)})
	add("merkle", "RestoreMimcRoot", 1, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int {
			return pick(seq(rng, 1, bn(2)), felts(rng, 2, emulated.BN254Fr{}))
		},
		Bad: func(rng *rand.Rand) []*big.Int {
			return pick(ints([]int{2 + rng.Intn(3)}), felts(rng, 2, emulated.BN254Fr{}))
		},
		Fn: func(api frontend.API, in vars) vars {
			e := elem[emulated.BN254Fr](in[1:])
			return merkle.NewMimcRootAPI[emulated.BN254Fr](api, ecc.BN254).RestoreMimcRoot(e[0], e[1:], in[:1]).Limbs
		}, Canon: groups(emulated.BN254Fr{}.Modulus(), 4, 64, 1)})
	// native MiMC paths
	mm := func(api frontend.API) mimc.MiMC {
		m, err := mimc.NewMiMC(api)
		if err != nil {
			panic(err)
		}
		return m
	}
	for _, f := range []*big.Int{bn254, ecc.BLS12_377.ScalarField()} {
		f := f
		add("merkle", "MerkleRootBasedOnMiMCHash", 0, Gadget{Field: f,
			Gen: func(rng *rand.Rand) []*big.Int { return pick(seq(rng, 4, f), seq(rng, 3, bn(2))) },
			Bad: func(rng *rand.Rand) []*big.Int {
				return pick(seq(rng, 4, f), ints([]int{rng.Intn(2), 2 + rng.Intn(5), 0}))
			},
			Fn: flag(func(api frontend.API, in vars) frontend.Variable {
				return merkle.MerkleRootBasedOnMiMCHash(api, mm(api), in[0], in[4:], in[1:4])
			})})
	}
	add("merkle", "MerkleRootWithLeaveHash", 0, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int { return pick(seq(rng, 3, bn254), seq(rng, 2, bn(2))) },
		Fn: flag(func(api frontend.API, in vars) frontend.Variable {
			return merkle.MerkleRootWithLeaveHash(api, mm(api), in[0], in[3:], in[1:3])
		})})
	add("smt", "CheckSMTInclusion", 0, Gadget{
		Gen: func(rng *rand.Rand) []*big.Int { return pick(seq(rng, 6, bn254), seq(rng, 4, bn(2))) },
		Fn: func(api frontend.API, in vars) vars {
			leaf, root, br := in[:3], in[3], in[4:6]
			ok := smt.CheckSMTInclusion(api, mm(api), 2, leaf, in[6:8], in[8:], br, root)
			// the root that this path has is the one that is included
			own := merkle.MerkleRootBasedOnMiMCHash(api, mm(api), smt.CalculateLeafValueHash(api, mm(api), leaf, in[6:8]), in[8:], br)
			ok2 := smt.CheckSMTInclusion(api, mm(api), 2, leaf, in[6:8], in[8:], br, own)
			return vars{ok, ok2}
		}})
	add("merkle", "KeccakMerkleRoot", 2, Gadget{Gen: gen(512, bn(2)), Fn: func(api frontend.API, in vars) vars {
		ls := make([][256]frontend.Variable, 2)
		copy(ls[0][:], in)
		copy(ls[1][:], in[256:])
		o := merkle.KeccakMerkleRoot(api, ls)
		return o[:]
	}})
	// conversions
	bit := bn(2)
	add("conv", "Bits2Bytes", 0, Gadget{Gen: gen(32, bit), Fn: func(api frontend.API, in vars) vars { return conv.Bits2Bytes(api, in) }})
	add("conv", "Bits2Bytes2", 0, Gadget{Gen: gen(32, bit), Fn: func(api frontend.API, in vars) vars { return conv.Bits2Bytes2(api, in) }})
	add("conv", "Bits2BytesArray", 0, Gadget{Gen: gen(32, bit), Fn: func(api frontend.API, in vars) vars { return conv.Bits2BytesArray(api, in) }})
	add("conv", "Bits2Nibbles", 0, Gadget{Gen: gen(32, bit), Fn: func(api frontend.API, in vars) vars { return conv.Bits2Nibbles(api, in) }})
	add("conv", "Bits2Uint128s", 0, Gadget{Gen: gen(256, bit), Fn: func(api frontend.API, in vars) vars {
		var b [256]frontend.Variable
		copy(b[:], in)
		o := conv.Bits2Uint128s(api, b)
		return o[:]
	}})
	over := func(n int) func(rng *rand.Rand) []*big.Int {
		return func(rng *rand.Rand) []*big.Int { return []*big.Int{new(big.Int).Add(pow2(n), below(rng, pow2(n)))} }
	}
	add("utils", "FlipKeccakFvBits", 0, Gadget{Gen: gen(1, pow2(64)), Bad: over(64), Fn: func(api frontend.API, in vars) vars {
		return gutils.FlipKeccakFvBits(api, in[0], 64)
	}})
	add("utils", "Recompose6BytesToNibbles", 0, Gadget{Gen: gen(1, pow2(48)), Bad: over(48), Fn: func(api frontend.API, in vars) vars {
		o := utils.Recompose6BytesToNibbles(api, in[0])
		return o[:]
	}})
	add("utils", "Recompose32ByteToNibbles", 0, Gadget{Gen: gen(2, pow2(128)), Fn: func(api frontend.API, in vars) vars {
		o := utils.Recompose32ByteToNibbles(api, in)
		return o[:]
	}})
	sdk := func(rng *rand.Rand) []*big.Int { return []*big.Int{below(rng, pow2(248)), below(rng, pow2(8))} }
	b32 := func(in vars) utils.Bytes32 { return utils.Bytes32{Val: [2]frontend.Variable{in[0], in[1]}} }
	add("utils", "RecomposeSDKByte32ToNibble", 0, Gadget{Gen: sdk, Fn: func(api frontend.API, in vars) vars {
		o := utils.RecomposeSDKByte32ToNibble(api, b32(in))
		return o[:]
	}})
	add("utils", "RecomposeSDKByte32To2Fr", 0, Gadget{Gen: sdk, Fn: func(api frontend.API, in vars) vars {
		o := utils.RecomposeSDKByte32To2Fr(api, b32(in))
		return o[:]
	}})
	add("utils", "Byte32ToBits", 0, Gadget{Gen: sdk, Fn: func(api frontend.API, in vars) vars {
		b := utils.Byte32ToBits(api, b32(in), 248)
		return append(append(vars{}, b...), utils.PackBitsToFr(api, b)...)
	}})
	// selection and comparison
	nib := bn(16)
	sel := func(n, w int) (func(rng *rand.Rand) []*big.Int, func(rng *rand.Rand) []*big.Int) {
		return func(rng *rand.Rand) []*big.Int { return pick(ints([]int{rng.Intn(n)}), seq(rng, n*w, bn254)) },
			func(rng *rand.Rand) []*big.Int {
				return pick([]*big.Int{new(big.Int).Add(bn(n), below(rng, new(big.Int).Sub(bn254, bn(n))))}, seq(rng, n*w, bn254))
			}
	}
	rows := func(in vars, n, w int) (o [][]frontend.Variable) {
		for i := 0; i < w; i++ {
			o = append(o, in[i*n:(i+1)*n])
		}
		return
	}
	mg, mb := sel(5, 3)
	add("mux", "Multiplex", 0, Gadget{Gen: mg, Bad: mb, Fn: func(api frontend.API, in vars) vars {
		return mux.Multiplex(api, in[0], 3, 5, rows(in[1:], 5, 3))
	}})
	add("rlp", "Multiplexer", 0, Gadget{Gen: mg, Bad: mb, Fn: func(api frontend.API, in vars) vars {
		return rlp.Multiplexer(api, in[0], 3, 5, rows(in[1:], 5, 3))
	}})
	add("rlp", "Decoder", 0, Gadget{Gen: gen(1, bn(7)), Fn: func(api frontend.API, in vars) vars {
		o, ok := rlp.Decoder(api, 5, in[0])
		return append(o, ok)
	}})
	add("rlp", "Compare", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		if rng.Intn(3) == 0 {
			v := below(rng, bn254)
			return []*big.Int{v, v}
		}
		return seq(rng, 2, bn254)
	}, Fn: func(api frontend.API, in vars) vars {
		return vars{rlp.LessThan(api, in[0], in[1]), rlp.Equal(api, in[0], in[1])}
	}})
	add("rlp", "ArrayEqual", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		a := seq(rng, 8, nib)
		b := append([]*big.Int{}, a...)
		b[rng.Intn(8)] = below(rng, nib)
		return pick(ints([]int{rng.Intn(9)}), a, b)
	}, Fn: flag(func(api frontend.API, in vars) frontend.Variable {
		return rlp.ArrayEqual(api, in[1:9], in[9:], 8, in[0])
	})})
	add("rlp", "HexToDecimal", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int { return pick(seq(rng, 16, nib), ints([]int{rng.Intn(17)})) },
		Fn: flag(func(api frontend.API, in vars) frontend.Variable { return rlp.HexToDecimal(api, in[:16], 16, in[16]) })})
	add("rlp", "Hex64To2Fr", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int { return pick(ints([]int{rng.Intn(65)}), seq(rng, 64, nib)) },
		Fn: func(api frontend.API, in vars) vars {
			o := rlp.Hex64To2Fr(api, in[1:], in[0])
			return o[:]
		}})
	add("rlp", "Prefixes", 0, Gadget{Gen: gen(2, nib), Fn: func(api frontend.API, in vars) vars {
		a, b, c := rlp.RlpArrayPrefix(api, [2]frontend.Variable{in[0], in[1]})
		d, e, f, g, h, i, j := rlp.RlpFieldPrefix(api, [2]frontend.Variable{in[0], in[1]})
		return vars{a, b, c, d, e, f, g, h, i, j}
	}})
	add("rlp", "ShiftLeft", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int { return pick(ints([]int{2 + rng.Intn(7)}), seq(rng, 12, bn254)) },
		Fn: func(api frontend.API, in vars) vars { return rlp.ShiftLeft(api, 12, 2, 8, in[1:], in[0]) }})
	add("rlp", "ShiftRight", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int { return pick(ints([]int{rng.Intn(8)}), seq(rng, 12, bn254)) },
		Bad: func(rng *rand.Rand) []*big.Int { return pick(ints([]int{8 + rng.Intn(90)}), seq(rng, 12, bn254)) },
		Fn:  func(api frontend.API, in vars) vars { return rlp.ShiftRight(api, 12, 3, in[1:], in[0]) }})
	add("rlp", "SubArray", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		from := rng.Intn(13)
		end := from + rng.Intn(min(5, 12-from)+1)
		return pick(ints([]int{from, end}), seq(rng, 12, bn254))
	}, Bad: func(rng *rand.Rand) []*big.Int {
		from := 1 + rng.Intn(12)
		return pick(ints([]int{from, rng.Intn(from)}), seq(rng, 12, bn254))
	}, Fn: func(api frontend.API, in vars) vars {
		o, l := rlp.NewSubArray(12, 5, 4).SubArray(api, in[2:], in[0], in[1])
		return append(append(vars{}, o...), l)
	}})
	arr := func() *rlp.ArrayCheck {
		return &rlp.ArrayCheck{MaxHexLen: 80, MaxFields: 3, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{0, 0, 0}, FieldMaxHexLen: []int{16, 40, 12}}
	}
	list := func(rng *rand.Rand) []*big.Int {
		b := rlpList(bytesOf(rng, rng.Intn(9)), bytesOf(rng, rng.Intn(21)), bytesOf(rng, rng.Intn(7)))
		if rng.Intn(4) == 0 {
			b[rng.Intn(len(b))] ^= 1 << rng.Intn(8)
		}
		return hexPad(b, 80)
	}
	fieldsOut := func(out, total frontend.Variable, lens vars, fields [][]frontend.Variable) vars {
		r := append(vars{out, total}, lens...)
		for _, f := range fields {
			r = append(r, f...)
		}
		return r
	}
	add("rlp", "RlpArrayCheck", 1, Gadget{Gen: list, Partial: true, Fn: func(api frontend.API, in vars) vars {
		return fieldsOut(arr().RlpArrayCheck(api, in))
	}})
	add("rlp", "RlpNestArrayCheck", 1, Gadget{Gen: list, Partial: true, Fn: func(api frontend.API, in vars) vars {
		return fieldsOut(arr().RlpNestArrayCheck(api, in))
	}})
	add("rlp", "BlkHeaderRlpCheck", 1, Gadget{Gen: list, Partial: true, Fn: func(api frontend.API, in vars) vars {
		return fieldsOut(arr().BlkHeaderRlpCheck(api, in, 3))
	}})
	add("index", "CalTxOrReceiptIndexRlp", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		return ints([]int{[]int{0, 1, 127, 128, 255, 256, 65535, rng.Intn(128), rng.Intn(256), rng.Intn(65536)}[rng.Intn(10)]})
	}, Bad: over(16), Fn: func(api frontend.API, in vars) vars {
		o := core.CalTxOrReceiptIndexRlp(api, in[0])
		return o[:]
	}})
	// trie nodes
	add("mpt", "CheckLeaf", 1, Gadget{Partial: true, Gen: func(rng *rand.Rand) []*big.Int {
		key, val := seq(rng, 64, nib), bytesOf(rng, 32)
		rem := 50 + 2*rng.Intn(5)
		path := []byte{0x20}
		for i := 64 - rem; i < 64; i += 2 {
			path = append(path, byte(key[i].Int64()<<4|key[i+1].Int64()))
		}
		valRlp := rlpItem(val)
		node := rlpList(path, valRlp)
		if rng.Intn(3) == 0 {
			node[4+rng.Intn(len(node)-4)] ^= 1 << rng.Intn(8)
		}
		k := make([]*big.Int, 64)
		for i := range k {
			k[i] = bn(0)
			if i < rem {
				k[i] = key[64-rem+i]
			}
		}
		return pick(ints([]int{rem, 2}), k, hexPad(valRlp, 66), hexPad(node, 4+66+4+66))
	}, Fn: func(api frontend.API, in vars) vars {
		c := mpt.NewMPTLeafCheck(64, 66)
		r := c.CheckLeaf(api, in[0], in[2:66], in[66:132], in[132:], in[1])
		return vars{r.GetResult().GetOutput()}
	}})
	add("mpt", "CheckExtension", 1, Gadget{Partial: true, Gen: func(rng *rand.Rand) []*big.Int {
		n := 2 * (1 + rng.Intn(3))
		key, ref := seq(rng, 64, nib), bytesOf(rng, 32)
		path := []byte{0}
		for i := 0; i < n; i += 2 {
			path = append(path, byte(key[i].Int64()<<4|key[i+1].Int64()))
		}
		node := rlpList(path, ref)
		if rng.Intn(3) == 0 {
			node[4+rng.Intn(len(node)-4)] ^= 1 << rng.Intn(8)
		}
		for i := n; i < 64; i++ {
			key[i] = bn(0)
		}
		return pick(ints([]int{n, 64, 2}), key, hexPad(ref, 64), hexPad(node, 4+66+2+64))
	}, Fn: func(api frontend.API, in vars) vars {
		c := mpt.NewMPTExtensionCheck(64, 64)
		return vars{c.CheckExtension(api, in[0], in[3:67], in[1], in[67:131], in[131:], in[2]).GetOutput()}
	}})
	// hashes
	add("sha256", "Sum", 1, Gadget{Gen: gen(11, bn(256)), Bad: func(rng *rand.Rand) []*big.Int {
		v := seq(rng, 11, bn(256))
		v[rng.Intn(11)] = new(big.Int).Add(bn(256), below(rng, pow2([]int{4, 8, 20, 200}[rng.Intn(4)])))
		return v
	}, Fn: func(api frontend.API, in vars) vars {
		h := sha256.New(api)
		h.Write(in)
		return h.Sum()
	}})
	add("sha512", "Sum", 2, Gadget{Gen: gen(7, bn(256)), Bad: func(rng *rand.Rand) []*big.Int {
		v := seq(rng, 7, bn(256))
		v[rng.Intn(7)] = new(big.Int).Add(bn(256), below(rng, pow2([]int{4, 8, 20, 200}[rng.Intn(4)])))
		return v
	}, Fn: func(api frontend.API, in vars) vars {
		h := sha512.New(api)
		h.Write(in)
		return h.Sum()
	}})
	add("keccak", "Keccak256Bits", 2, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		m := bytesOf(rng, rng.Intn(136))
		p := append(append([]byte{}, m...), make([]byte, 136-len(m))...)
		p[len(m)] ^= 1
		p[135] ^= 0x80
		return pick(ints([]int{0}), bitsOfBytes(p))
	}, Fn: func(api frontend.API, in vars) vars {
		o := keccak.Keccak256Bits(api, 1, in[0], in[1:])
		return o[:]
	}})
	add("keccak", "Pad101Bits", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		return pick(ints([]int{8 * (2 + rng.Intn(9))}), seq(rng, 80, bit))
	}, Fn: func(api frontend.API, in vars) vars { return keccak.Pad101Bits(api, 8, 16, 80, in[1:], in[0]) }})
	add("keccak", "PadBits101", 0, Gadget{Gen: gen(80, bit), Fn: func(api frontend.API, in vars) vars { return keccak.PadBits101(api, in, 1) }})
	add("keccak", "RecomposeHex", 0, Gadget{Gen: gen(272, nib), Fn: func(api frontend.API, in vars) (o vars) {
		for _, b := range keccak.RecomposeHexToKeccakU64s(api, in, 1) {
			o = append(o, b[:]...)
		}
		return
	}})
	// BLS12-381
	fp := p12.BLS12381Fp{}
	two := func(n int) func(rng *rand.Rand) []*big.Int {
		return func(rng *rand.Rand) []*big.Int { return felts(rng, 2*n, fp) }
	}
	bls := func(n int) func(out []*big.Int) []*big.Int { return groups(fp.Modulus(), 6, 64, n) }
	add("bls", "E2Flags", 0, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		v := felts(rng, 4, fp)
		switch rng.Intn(4) {
		case 0:
			v = append(v[:12:12], v[:12]...)
		case 1:
			v = append(v[:18:18], v[6:12]...)
		}
		return v
	}, Fn: func(api frontend.API, in vars) vars {
		x, y := e2(in), e2(in[12:])
		return vars{p12.E2NotZero(api, x), p12.E2NotOne(api, x), p12.E2NotEqual(api, x, y), p12.G1NotZero(api, x.A0), p12.G1NotEqualOne(api, x.A1), p12.G1NotEqual(api, x.A0, y.A0)}
	}})
	add("bls", "E2Exp", 1, Gadget{Gen: two(1), Fn: func(api frontend.API, in vars) vars {
		return o2(api, p12.E2Exp(api, e2(in), bn(11)))
	}, Canon: bls(2)})
	add("bls", "MapElementToCurve2", 2, Gadget{Gen: func(rng *rand.Rand) []*big.Int {
		// Sums above the modulus with small residues, which have a second representative; the second component
		// decides about the sign when the first is zero.
		var l [2][2][]*big.Int
		for i := range l {
			v := new(big.Int).Rand(rng, pow2(378))
			if i == 0 && rng.Intn(3) > 0 {
				v.SetInt64(0)
			}
			x := new(big.Int).Add(pow2(379), new(big.Int).Rand(rng, pow2(379)))
			y := v.Sub(v.Add(v, fp.Modulus()), x)
			l[i] = [2][]*big.Int{limbsOf(x, 6, 64), limbsOf(y, 6, 64)}
		}
		return pick(l[0][0], l[1][0], l[0][1], l[1][1])
	}, Fn: func(api frontend.API, in vars) vars {
		// a computed element, not a reduced input
		f, err := emulated.NewField[p12.BLS12381Fp](api)
		if err != nil {
			panic(err)
		}
		u, w := e2(in), e2(in[12:])
		x, y := p12.MapElementToCurve2(api, p12.E2{A0: *f.Add(&u.A0, &w.A0), A1: *f.Add(&u.A1, &w.A1)})
		return o2(api, x, y)
	}, Canon: bls(4)})
	nonzero := func(n int) func(rng *rand.Rand) []*big.Int {
		return func(rng *rand.Rand) (o []*big.Int) {
			for i := 0; i < 2*n; i++ {
				o = append(o, limbsOf(new(big.Int).Add(bn(1), new(big.Int).Rand(rng, pow2(380))), 6, 64)...)
			}
			return
		}
	}
	add("bls", "G2Ops", 1, Gadget{Gen: nonzero(4), Fn: func(api frontend.API, in vars) vars {
		p := p12.G2Affine{X: e2(in), Y: e2(in[12:])}
		q := p12.G2Affine{X: e2(in[24:]), Y: e2(in[36:])}
		a, b, c := p12.G2AddAssign(api, p, q), p12.G2Double(api, p), p12.G2Psi(api, q)
		return o2(api, &a.X, &a.Y, &b.X, &b.Y, &c.X, &c.Y)
	}, Canon: bls(12)})
	add("bls", "G2Jacobian", 1, Gadget{Gen: two(6), Fn: func(api frontend.API, in vars) vars {
		j := func(v vars) p12.G2Jacobian { return p12.G2Jacobian{X: e2(v), Y: e2(v[12:]), Z: e2(v[24:])} }
		a, b := p12.G2JacobianAddAssign(api, j(in), j(in[36:])), p12.G2JacobianDouble(api, j(in))
		return o2(api, &a.X, &a.Y, &a.Z, &b.X, &b.Y, &b.Z)
	}, Canon: bls(12)})
	add("bls", "G2AffineFromJac", 0, Gadget{Gen: nonzero(3), Fn: func(api frontend.API, in vars) vars {
		j := p12.G2Jacobian{X: e2(in), Y: e2(in[12:]), Z: e2(in[24:])}
		a := p12.GetG2AffineFromG2Jac(api, &j)
		return append(o2(api, &a.X, &a.Y), p12.G2AffineNotInfinity(api, a))
	}, Canon: bls(4)})
	add("bls", "GetRawLimbs", 0, Gadget{Gen: gen(8, bn(256)), Fn: func(api frontend.API, in vars) vars {
		var m [8]frontend.Variable
		copy(m[:], in)
		return append(vars{p12.GetUint64From8Bytes(api, m)}, p12.Get64BitsFrom8Bytes(api, m)...)
	}})
	// Ed25519
	add("ed25519", "Verify", 3, Gadget{Gen: edWitness, Fn: edVerify, Bad: func(rng *rand.Rand) []*big.Int {
		v := edWitness(rng)
		if rng.Intn(2) == 0 {
			v[2] = new(big.Int).Xor(v[2], bn(1))
		} else {
			v[27] = new(big.Int).Xor(v[27], bn(2))
		}
		return v
	}})
	return gs
}

func edWitness(rng *rand.Rand) (o []*big.Int) {
	be := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	priv := goed.NewKeyFromSeed(bytesOf(rng, 32))
	pub := priv.Public().(goed.PublicKey)
	msg := bytesOf(rng, 122)
	sig := goed.Sign(priv, msg)
	o = append(o, be(pub[:16]), be(pub[16:]))
	for i := 0; i < 5; i++ {
		o = append(o, be(msg[i*25:min(i*25+25, 122)]))
	}
	for _, b := range [][]byte{sig[:32], pub} {
		p, err := (&edlib.Point{}).SetBytes(b)
		if err != nil {
			panic(err)
		}
		a := (&edlib.PointAffine{}).FromExtended(p)
		for _, c := range [][]byte{a.X.Bytes(), a.Y.Bytes()} {
			o = append(o, limbsOf(be(ed25519.PutBigEndian(c)), 5, 51)...)
		}
	}
	return append(o, be(ed25519.PutBigEndian(sig[32:])))
}

func edVerify(api frontend.API, in vars) vars {
	e, err := ed25519.NewEd25519(api)
	if err != nil {
		panic(err)
	}
	el := elem[ed25519.Ed25519Fp](in[7:27])
	var msg [5]frontend.Variable
	copy(msg[:], in[2:7])
	if err := e.Verify(in[:2:2], ed25519.Signature{R: ed25519.Point{X: *el[0], Y: *el[1]}, S: in[27]}, msg, ed25519.PublicKey{A: ed25519.Point{X: *el[2], Y: *el[3]}}); err != nil {
		panic(err)
	}
	return vars{in[0]}
}

var _ = keccakOf
