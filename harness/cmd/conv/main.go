// Monitors of value conversions: C12 index encoding, C14 conversion gadgets, C28 32-byte packing.
package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	index "github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	erlp "github.com/ethereum/go-ethereum/rlp"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C12": {Run: c12, Exhaustive: true, Rule: "one evaluation = one index through the gadget (all 65536), one out-of-range index, or one (index, claimed encoding) through the index circuit; oracle: go-ethereum's RLP encoding of the integer"},
		"C14": {Run: c14, Rule: "one evaluation = one value through one conversion gadget; non-trivial = distinct (gadget, field, value); oracle: big.Int arithmetic; values outside the documented width must be unsatisfiable"},
		"C28": {Run: c28, Rule: "one evaluation = one value through one native or in-circuit packing helper; non-trivial = distinct (helper, parameters, value); oracle: big.Int arithmetic, and native against in-circuit results"},
	})
}

func rbytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func bn(v int64) *big.Int { return big.NewInt(v) }

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// rint is a random integer of n bits with boundary values over-represented.
func rint(rng *rand.Rand, n int) *big.Int {
	switch rng.Intn(8) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Sub(pow2(n), bn(1))
	case 2:
		return pow2(rng.Intn(n))
	case 3:
		return new(big.Int).Sub(pow2(1+rng.Intn(n)), bn(1))
	}
	return new(big.Int).Rand(rng, pow2(n))
}

func same(out, want []*big.Int) string {
	if len(out) != len(want) {
		return fmt.Sprintf("%d outputs, want %d", len(out), len(want))
	}
	for i := range out {
		if out[i].Cmp(want[i]) != 0 {
			return fmt.Sprintf("output %d is %v want %v", i, out[i], want[i])
		}
	}
	return ""
}

func indexNibbles(i uint64) []*big.Int {
	out := make([]*big.Int, 7)
	for j := range out {
		out[j] = new(big.Int)
	}
	for j, b := range erlp.AppendUint64(nil, i) {
		out[2*j].SetInt64(int64(b >> 4))
		out[2*j+1].SetInt64(int64(b & 15))
	}
	return out
}

func c12(r *vm.R) {
	const batch = 64
	vm.Par(65536/batch, 0, func(b int) {
		key := fmt.Sprintf("index/%d..%d", b*batch, b*batch+batch-1)
		var in []frontend.Variable
		var want []*big.Int
		for i := 0; i < batch; i++ {
			in = append(in, b*batch+i)
			want = append(want, indexNibbles(uint64(b*batch+i))...)
		}
		r.Case(key, in, func() {
			out, err := vm.Run(vm.BN254, in, func(api frontend.API, v []frontend.Variable) (o []frontend.Variable) {
				for _, x := range v {
					res := index.CalTxOrReceiptIndexRlp(api, x)
					o = append(o, res[:]...)
				}
				return
			})
			for i := range in {
				r.Eval("index", fmt.Sprint(b*batch+i))
			}
			if err != nil {
				r.Violate(key, in, "unsatisfiable: %v", err)
				return
			}
			if m := same(out, want); m != "" {
				for i := 0; i < batch; i++ {
					if m := same(out[7*i:7*i+7], want[7*i:7*i+7]); m != "" {
						r.Violate(fmt.Sprintf("index/%d", b*batch+i), b*batch+i, "%s", m)
					}
				}
			}
		})
	})
	r.Sample("index", map[string]any{"index": 256, "nibbles": vm.Str(indexNibbles(256))})
	gad := func(api frontend.API, v []frontend.Variable) []frontend.Variable {
		res := index.CalTxOrReceiptIndexRlp(api, v[0])
		return res[:]
	}
	// out of range
	rng := r.Rand("range")
	var over []*big.Int
	for _, d := range []int64{65536, 65537, 65664, 131071, 131072, 1 << 24, 1 << 32} {
		over = append(over, bn(d))
	}
	p := vm.BN254
	for i := 0; i < r.N(150, 3000); i++ {
		over = append(over, new(big.Int).Add(bn(65536), rint(rng, 1+rng.Intn(253))))
	}
	for i := int64(1); i < 40; i++ {
		over = append(over, new(big.Int).Sub(p, bn(i)))
	}
	vm.Par(len(over), 0, func(i int) {
		x := new(big.Int).Mod(over[i], p)
		if x.Cmp(bn(65535)) <= 0 {
			return
		}
		key := fmt.Sprintf("over/%v", x)
		r.Case(key, x.String(), func() {
			out, err := vm.Run(p, []frontend.Variable{x}, gad)
			r.Eval("out-of-range", key)
			r.Expect(err != nil, key, x.String(), "an index above 65535 is accepted with encoding %v", out)
		})
	})
	// the constraint systems: right encodings are accepted, any other is not
	for _, plonk := range []bool{false, true} {
		plonk := plonk
		key := fmt.Sprintf("compiled/plonk=%v", plonk)
		r.Case(key, nil, func() {
			cc, err := vm.Compile(p, 8, plonk, func(api frontend.API, v []frontend.Variable) []frontend.Variable {
				c := index.IndexCheckCircuit{Index: v[0]}
				copy(c.RlpString[:], v[1:])
				if err := c.Define(api); err != nil {
					panic(err)
				}
				return v
			})
			if err != nil {
				r.Violate(key, nil, "does not compile: %v", err)
				return
			}
			n := r.N(120, 2000)
			vm.Par(n, 0, func(i int) {
				rng := r.Rand(fmt.Sprint(key, i))
				x := rng.Intn(65536)
				if i < 60 {
					x = []int{0, 1, 15, 16, 127, 128, 129, 255, 256, 257, 4095, 4096, 32767, 32768, 65535}[i%15]
				}
				enc := indexNibbles(uint64(x))
				in := append([]frontend.Variable{x}, vm.V(enc)...)
				_, err := cc.Solve(in)
				r.Eval("circuit/right", fmt.Sprint(plonk, x))
				r.Expect(err == nil, key, x, "the right encoding of %d is rejected: %v", x, err)
				var wrong []*big.Int
				for _, e := range enc {
					wrong = append(wrong, new(big.Int).Set(e))
				}
				switch i % 4 {
				case 0, 1:
					j := rng.Intn(7)
					wrong[j] = bn(int64((wrong[j].Int64() + 1 + int64(rng.Intn(15))) % 16))
				case 2:
					y := rng.Intn(65536)
					if y == x {
						y ^= 1
					}
					wrong = indexNibbles(uint64(y))
				default: // non-canonical: leading zero byte or explicit prefix
					for j := range wrong {
						wrong[j] = new(big.Int)
					}
					wrong[0], wrong[1] = bn(8), bn(2)
					wrong[2], wrong[3], wrong[4], wrong[5] = bn(int64(x>>12)), bn(int64(x>>8&15)), bn(int64(x>>4&15)), bn(int64(x&15))
					if x > 255 {
						wrong[1] = bn(1)
						wrong[2], wrong[3], wrong[4], wrong[5] = wrong[4], wrong[5], bn(0), bn(0)
					}
				}
				if same(wrong, enc) == "" {
					return
				}
				_, err = cc.Solve(append([]frontend.Variable{x}, vm.V(wrong)...))
				r.Eval("circuit/wrong", fmt.Sprint(plonk, x, wrong))
				r.Expect(err != nil, key, x, "index %d is accepted with encoding %v", x, vm.Str(wrong))
			})
		})
	}
}

var fields = map[string]*big.Int{"bn254": vm.BN254, "bls12-377": ecc.BLS12_377.ScalarField(), "bls12-381": ecc.BLS12_381.ScalarField(), "bw6-761": ecc.BW6_761.ScalarField()}
