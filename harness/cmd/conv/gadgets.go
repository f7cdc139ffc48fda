package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark/frontend"
)

// gcase is one case of one conversion gadget; want nil: must be unsatisfiable.
type gcase struct {
	in   []frontend.Variable
	want []*big.Int
	fn   vm.Fn
	note string
}

func bitsOf(rng *rand.Rand, n int) []uint {
	out := make([]uint, n)
	switch rng.Intn(5) {
	case 0:
		for i := range out {
			out[i] = 1
		}
	case 1:
		out[rng.Intn(n)] = 1
	default:
		for i := range out {
			out[i] = uint(rng.Intn(2))
		}
	}
	return out
}

func fromBitsLE(b []uint) *big.Int {
	x := new(big.Int)
	for i := range b {
		x.SetBit(x, i, b[i])
	}
	return x
}

func rev[T any](v []T) []T {
	out := make([]T, len(v))
	for i := range v {
		out[len(v)-1-i] = v[i]
	}
	return out
}

func hexDigits(x *big.Int, n int) (out []*big.Int) { // most significant first
	for i := n - 1; i >= 0; i-- {
		d := new(big.Int).Rsh(x, uint(4*i))
		out = append(out, d.And(d, bn(15)))
	}
	return
}

func one(v frontend.Variable) []frontend.Variable { return []frontend.Variable{v} }

var gadgets = map[string]func(rng *rand.Rand) gcase{
	"Bits2Bytes": func(rng *rand.Rand) gcase { // little-endian bits within bytes
		b := bitsOf(rng, 8*(1+rng.Intn(40)))
		var want []*big.Int
		for i := 0; i < len(b); i += 8 {
			want = append(want, fromBitsLE(b[i:i+8]))
		}
		return gcase{in: vm.V(b), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable { return conv.Bits2Bytes(api, in) }}
	},
	"Bits2Bytes2": func(rng *rand.Rand) gcase { // big-endian bits within bytes
		b := bitsOf(rng, 8*(1+rng.Intn(40)))
		var want []*big.Int
		for i := 0; i < len(b); i += 8 {
			want = append(want, fromBitsLE(rev(b[i:i+8])))
		}
		return gcase{in: vm.V(b), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return conv.Bits2Bytes2(api, in)
		}}
	},
	"Bits2BytesArray": func(rng *rand.Rand) gcase { // little-endian integer to big-endian bytes
		n := 1 + rng.Intn(40)
		x := rint(rng, 8*n)
		var want []*big.Int
		for _, v := range x.FillBytes(make([]byte, n)) {
			want = append(want, bn(int64(v)))
		}
		return gcase{in: vm.V(vm.BitsLE(x, 8*n)), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return conv.Bits2BytesArray(api, in)
		}}
	},
	"Bits2Nibbles": func(rng *rand.Rand) gcase {
		b := bitsOf(rng, 4*(1+rng.Intn(80)))
		var want []*big.Int
		for i := 0; i < len(b); i += 4 {
			want = append(want, fromBitsLE(b[i:i+4]))
		}
		return gcase{in: vm.V(b), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return conv.Bits2Nibbles(api, in)
		}}
	},
	"Bits2Uint128s": func(rng *rand.Rand) gcase { // 32 bytes as Keccak bits (little-endian within bytes)
		h := rbytes(rng, 32)
		if rng.Intn(3) == 0 {
			h = rint(rng, 256).FillBytes(make([]byte, 32))
		}
		var in []uint8
		for _, v := range h {
			for j := 0; j < 8; j++ {
				in = append(in, v>>uint(j)&1)
			}
		}
		return gcase{in: vm.V(in), want: []*big.Int{new(big.Int).SetBytes(h[:16]), new(big.Int).SetBytes(h[16:])}, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			var b [256]frontend.Variable
			copy(b[:], in)
			o := conv.Bits2Uint128s(api, b)
			return o[:]
		}}
	},
	"FlipKeccakFvBits": func(rng *rand.Rand) gcase { // big-endian bytes, little-endian bits within bytes
		n := 1 + rng.Intn(31)
		x := rint(rng, 8*n)
		var want []*big.Int
		for _, v := range x.FillBytes(make([]byte, n)) {
			for j := 0; j < 8; j++ {
				want = append(want, bn(int64(v>>uint(j)&1)))
			}
		}
		c := gcase{in: one(x), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return gutils.FlipKeccakFvBits(api, in[0], 8*n)
		}}
		if rng.Intn(5) == 0 && n < 30 {
			c.in, c.want = one(new(big.Int).Add(pow2(8*n), rint(rng, 8*n))), nil
		}
		return c
	},
	"Recompose32ByteToNibbles": func(rng *rand.Rand) gcase { // big-endian trunks
		x := rint(rng, 256)
		n := []int{2, 4, 8, 16, 32, 64}[rng.Intn(6)]
		w := 256 / n
		var in []*big.Int
		for i := n - 1; i >= 0; i-- {
			t := new(big.Int).Rsh(x, uint(w*i))
			in = append(in, t.And(t, new(big.Int).Sub(pow2(w), bn(1))))
		}
		c := gcase{want: hexDigits(x, 64), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := utils.Recompose32ByteToNibbles(api, in)
			return o[:]
		}}
		if rng.Intn(5) == 0 {
			in[rng.Intn(n)] = new(big.Int).Add(pow2(w), rint(rng, w))
			c.want = nil
		}
		c.in = vm.V(in)
		return c
	},
	"Recompose6BytesToNibbles": func(rng *rand.Rand) gcase {
		x := rint(rng, 48)
		c := gcase{want: hexDigits(x, 12), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := utils.Recompose6BytesToNibbles(api, in[0])
			return o[:]
		}}
		if rng.Intn(5) == 0 {
			x = new(big.Int).Add(pow2(48), rint(rng, 60))
			c.want = nil
		}
		c.in = one(x)
		return c
	},
	"RecomposeSDKByte32ToNibble": func(rng *rand.Rand) gcase {
		x := rint(rng, 256)
		lo := new(big.Int).And(x, new(big.Int).Sub(pow2(248), bn(1)))
		hi := new(big.Int).Rsh(x, 248)
		c := gcase{want: hexDigits(x, 64), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := utils.RecomposeSDKByte32ToNibble(api, utils.Bytes32{Val: [2]frontend.Variable{in[0], in[1]}})
			return o[:]
		}}
		c.in, c.want = sdkRange(rng, lo, hi, c.want)
		return c
	},
	"RecomposeSDKByte32To2Fr": func(rng *rand.Rand) gcase { // high and low 128 bits
		x := rint(rng, 256)
		lo := new(big.Int).And(x, new(big.Int).Sub(pow2(248), bn(1)))
		hi := new(big.Int).Rsh(x, 248)
		c := gcase{want: []*big.Int{new(big.Int).Rsh(x, 128), new(big.Int).And(x, new(big.Int).Sub(pow2(128), bn(1)))}, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := utils.RecomposeSDKByte32To2Fr(api, utils.Bytes32{Val: [2]frontend.Variable{in[0], in[1]}})
			return o[:]
		}}
		c.in, c.want = sdkRange(rng, lo, hi, c.want)
		return c
	},
	"HexToDecimal": func(rng *rand.Rand) gcase {
		max := 2 + rng.Intn(61) // whole bytes and more: gnark's Mux has no one-entry form
		n := rng.Intn(max + 1)
		in := make([]int, max)
		want := new(big.Int)
		for i := range in {
			in[i] = rng.Intn(16)
			if i < n {
				want.Mul(want, bn(16)).Add(want, bn(int64(in[i])))
			}
		}
		return gcase{in: append(vm.V(in), n), want: []*big.Int{want}, note: fmt.Sprint(max, n), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return one(rlp.HexToDecimal(api, in[:max], max, in[max]))
		}}
	},
	"Hex64To2Fr": func(rng *rand.Rand) gcase {
		n := rng.Intn(65)
		if rng.Intn(3) == 0 {
			n = 62 + rng.Intn(3)
		}
		in := make([]int, 64+rng.Intn(3))
		v := new(big.Int)
		for i := range in {
			in[i] = rng.Intn(16)
			if i < n {
				v.Mul(v, bn(16)).Add(v, bn(int64(in[i])))
			}
		}
		want := []*big.Int{v, bn(0)}
		if n >= 63 { // the first byte apart
			hi := new(big.Int).Rsh(v, uint(4*(n-2)))
			want = []*big.Int{new(big.Int).Sub(v, new(big.Int).Lsh(hi, uint(4*(n-2)))), hi}
		}
		return gcase{in: append([]frontend.Variable{n}, vm.V(in)...), want: want, note: fmt.Sprint(n), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := rlp.Hex64To2Fr(api, in[1:], in[0])
			return o[:]
		}}
	},
	"NibblesToU64": func(rng *rand.Rand) gcase { // Keccak lanes: little-endian words
		words := 1 + rng.Intn(40)
		kind := rng.Intn(4)
		limit := []int{keccak.MAX_ROUNDS, keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, keccak.MAX_TRANSACTION_LEAF_ROUNDS, 3}[kind] * 17
		if words > limit {
			words = limit
		}
		b := rbytes(rng, 8*words)
		want := make([]*big.Int, limit)
		for i := range want {
			want[i] = new(big.Int)
			if i < words {
				want[i].SetBytes(rev(b[8*i : 8*i+8]))
			}
		}
		c := gcase{in: vm.V(vm.Nibbles(b)), want: want, note: fmt.Sprint(kind, words), fn: func(api frontend.API, in []frontend.Variable) (o []frontend.Variable) {
			add := func(v [17]frontend.Variable) { o = append(o, v[:]...) }
			switch kind {
			case 0:
				for _, v := range keccak.NibblesToU64Array(api, in) {
					add(v)
				}
			case 1:
				for _, v := range keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, in) {
					add(v)
				}
			case 2:
				for _, v := range keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, in) {
					add(v)
				}
			default:
				for _, v := range keccak.RecomposeHexToKeccakU64s(api, in, 3) {
					add(v)
				}
			}
			return
		}}
		if rng.Intn(6) == 0 {
			c.in[rng.Intn(len(c.in))] = 16 + rng.Intn(20)
			c.want = nil
		}
		return c
	},
	"FlipSubSlice": func(rng *rand.Rand) gcase {
		k := 1 + rng.Intn(9)
		b := rbytes(rng, k*(1+rng.Intn(9)))
		var want []*big.Int
		for i := 0; i < len(b); i += k {
			for j := k - 1; j >= 0; j-- {
				want = append(want, bn(int64(b[i+j])))
			}
		}
		return gcase{in: vm.V(b), want: want, note: fmt.Sprint(k), fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable { return gutils.FlipSubSlice(in, k) }}
	},
	"Slice2FVs": func(rng *rand.Rand) gcase {
		b := rbytes(rng, 1+rng.Intn(50))
		var want []*big.Int
		for _, v := range b {
			want = append(want, bn(int64(v)))
		}
		return gcase{in: vm.V(b), want: want, fn: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			return gutils.Slice2FVs(gutils.Flip(gutils.Flip(in)))
		}}
	},
}

func sdkRange(rng *rand.Rand, lo, hi *big.Int, want []*big.Int) ([]frontend.Variable, []*big.Int) {
	switch rng.Intn(8) {
	case 0:
		return []frontend.Variable{new(big.Int).Add(pow2(248), bn(int64(rng.Intn(1000)))), hi}, nil
	case 1:
		return []frontend.Variable{lo, 256 + rng.Intn(1000)}, nil
	}
	return []frontend.Variable{lo, hi}, want
}

func c14(r *vm.R) {
	var names, fs []string
	for k := range gadgets {
		names = append(names, k)
	}
	for k := range fields {
		fs = append(fs, k)
	}
	sort.Strings(names)
	sort.Strings(fs)
	gadgetCases(r, names, fs, r.N(600, 6000))
	// the same gadgets as constraint systems
	vm.Par(len(names), 0, func(i int) {
		name := names[i]
		for _, plonk := range []bool{false, true} {
			key := fmt.Sprintf("compiled/%s/plonk=%v", name, plonk)
			rng := r.Rand(key)
			var c gcase
			for c.want == nil {
				c = gadgets[name](rng)
			}
			r.Case(key, fmt.Sprint(c.in), func() {
				cc, err := vm.Compile(vm.BN254, len(c.in), plonk, c.fn)
				if err != nil {
					r.Violate(key, nil, "does not compile: %v", err)
					return
				}
				out, err := cc.Solve(c.in)
				r.Eval("compiled", key)
				if err != nil {
					r.Violate(key, fmt.Sprint(c.in), "unsatisfiable: %v", err)
				} else if m := same(out, c.want); m != "" {
					r.Violate(key, fmt.Sprint(c.in), "%s", m)
				}
			})
		}
	})
	native(r)
}

// gadgetCases runs per random cases of each named gadget, cycling through the fields.
func gadgetCases(r *vm.R, names, fs []string, per int) {
	vm.Par(len(names)*per, 0, func(i int) {
		name, k := names[i%len(names)], i/len(names)
		f := fs[k%len(fs)]
		key := fmt.Sprintf("%s/%s/%d", name, f, k)
		rng := r.Rand(key)
		c := gadgets[name](rng)
		input := map[string]any{"inputs": fmt.Sprint(c.in), "params": c.note}
		r.Case(key, input, func() {
			touched := -1
			out, err := vm.Run(fields[f], c.in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				cp := append([]frontend.Variable{}, in...)
				o := c.fn(api, in)
				for j := range cp {
					if cp[j] != in[j] {
						touched = j
					}
				}
				return o
			})
			r.Eval(name, fmt.Sprint(f, c.note, c.in))
			r.Sample(name, map[string]any{"field": f, "params": c.note, "inputs": len(c.in)})
			r.Expect(touched < 0, key, input, "element %d of the caller's slice was replaced", touched)
			if c.want == nil {
				r.Count("out_of_range", 1)
				r.Expect(err != nil, key, input, "a value outside the documented width is accepted: %v", out)
				return
			}
			if err != nil {
				r.Violate(key, input, "unsatisfiable: %v", err)
				return
			}
			if m := same(out, c.want); m != "" {
				r.Violate(key, input, "%s", m)
			}
		})
	})
}

// native checks the byte/bit/word helpers used to make witnesses.
func native(r *vm.R) {
	for n := 0; n <= r.N(40, 200); n++ {
		key := fmt.Sprintf("native/%d", n)
		rng := r.Rand(key)
		b := rbytes(rng, 8*n)
		cp := append([]byte{}, b...)
		r.Case(key, vm.Hex(b), func() {
			r.Eval("native", vm.Hex(b))
			bits := keccak.Bytes2Bits(b)
			words := keccak.Bytes2Uint64s(b)
			ok := len(bits) == 8*len(b) && len(words) == n
			for i := range b {
				for j := 0; ok && j < 8; j++ {
					ok = bits[8*i+j] == b[i]>>uint(j)&1
				}
			}
			r.Expect(ok, key, vm.Hex(b), "Bytes2Bits is not the little-endian bits of the bytes")
			for i := range words {
				w := new(big.Int).SetBytes(rev(b[8*i : 8*i+8]))
				r.Expect(w.IsUint64() && w.Uint64() == words[i] && keccak.Bytes2Uint64(b[8*i:8*i+8]) == words[i], key, vm.Hex(b), "word %d is %x want %x", i, words[i], w)
			}
			r.Expect(string(b) == string(cp), key, vm.Hex(b), "the input was modified")
		})
	}
	for v := 0; v < 256; v++ {
		key := fmt.Sprintf("byte/%d", v)
		r.Case(key, v, func() {
			r.Eval("DecodeByteToBinary", key)
			bits := utils.DecodeByteToBinary(byte(v))
			x := 0
			for _, b := range bits {
				x = 2*x + int(b)
			}
			r.Expect(len(bits) == 8 && x == v, key, v, "bits %v", bits)
		})
	}
}
