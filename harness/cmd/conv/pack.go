package main

import (
	"fmt"
	"math/big"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark/frontend"
)

func c28(r *vm.R) {
	// recomposition of 32-byte values into nibbles and 128-bit halves
	gadgetCases(r, []string{"Recompose32ByteToNibbles", "RecomposeSDKByte32ToNibble", "RecomposeSDKByte32To2Fr", "Recompose6BytesToNibbles", "Bits2Uint128s"}, []string{"bls12-377", "bls12-381", "bn254", "bw6-761"}, r.N(700, 6000))
	n := r.N(4000, 30000)
	vm.Par(n, 0, func(i int) {
		key := fmt.Sprintf("value/%d", i)
		rng := r.Rand(key)
		x := rint(rng, 256)
		if i%9 == 0 { // around multiples of the modulus
			x = new(big.Int).Mul(vm.BN254, bn(int64(rng.Intn(5))))
			x.Add(x, bn(int64(rng.Intn(3)-1)))
			if x.Sign() < 0 {
				x.SetInt64(0)
			}
		}
		size := 240 + rng.Intn(14) // frSize up to 253
		if rng.Intn(3) == 0 {
			size = []int{248, 128, 1, 253, 252, 64}[rng.Intn(6)]
		}
		data := x.Bytes()
		if rng.Intn(2) == 0 {
			data = x.FillBytes(make([]byte, 32))
		}
		if 256-size > 253 {
			size = 8
		}
		input := map[string]any{"value": x.Text(16), "fr_size": size, "bytes": len(data)}
		r.Case(key, input, func() {
			r.Eval("bytes32", fmt.Sprint(x, size, len(data)))
			r.Sample("bytes32", input)
			cp := append([]byte{}, data...)
			p := utils.ParseBytes32(data, size)
			r.Expect(string(cp) == string(data), key, input, "the input was modified")
			lo := new(big.Int).And(x, new(big.Int).Sub(pow2(size), bn(1)))
			hi := new(big.Int).Rsh(x, uint(size))
			hi.Mod(hi, vm.BN254)
			if 256-size <= 253 {
				r.Expect(p[0].Cmp(lo) == 0 && p[1].Cmp(hi) == 0, key, input, "ParseBytes32 is (%v,%v) want (%v,%v)", p[0], p[1], lo, hi)
			}
			bits := utils.Byte32ToFrBits(p, size)
			want := vm.BitsLE(x, 256)
			r.Expect(fmt.Sprint(bits) == fmt.Sprint(want), key, input, "Byte32ToFrBits differs from the value's bits")
			r.Expect(p[0].Cmp(lo) == 0 && p[1].Cmp(hi) == 0, key, input, "Byte32ToFrBits modified its input")
			// in-circuit
			out, err := vm.Run(vm.BN254, []frontend.Variable{p[0], p[1]}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				b := utils.Byte32ToBits(api, utils.Bytes32{Val: [2]frontend.Variable{in[0], in[1]}}, size)
				return append(append([]frontend.Variable{}, b...), utils.PackBitsToFr(api, b)...)
			})
			if err != nil {
				r.Violate(key, input, "in-circuit unpacking is unsatisfiable: %v", err)
				return
			}
			packed := utils.PackBitsToInt(bits)
			if len(out) != 256+len(packed) {
				r.Violate(key, input, "in-circuit packing gives %d elements, native %d", len(out)-256, len(packed))
				return
			}
			for j := 0; j < 256; j++ {
				if out[j].Cmp(bn(int64(want[j]))) != 0 {
					r.Violate(key, input, "in-circuit bit %d is %v", j, out[j])
					return
				}
			}
			rest := new(big.Int).Set(x)
			mask := new(big.Int).Sub(pow2(253), bn(1))
			for j := range packed {
				w := new(big.Int).And(rest, mask)
				rest.Rsh(rest, 253)
				r.Expect(packed[j].Cmp(w) == 0 && out[256+j].Cmp(w) == 0, key, input, "element %d: native %v circuit %v want %v", j, packed[j], out[256+j], w)
			}
		})
	})
	// longer bit strings, native against in-circuit
	vm.Par(r.N(900, 5000), 0, func(i int) {
		key := fmt.Sprintf("bits/%d", i)
		rng := r.Rand(key)
		nb := 1 + rng.Intn(900)
		if i%3 == 0 {
			nb = 253*(1+rng.Intn(3)) + rng.Intn(3) - 1
		}
		b := bitsOf(rng, nb)
		r.Case(key, fmt.Sprint(b), func() {
			native := utils.PackBitsToInt(b)
			out, err := vm.Run(vm.BN254, vm.V(b), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return utils.PackBitsToFr(api, in)
			})
			r.Eval("bits", fmt.Sprint(b))
			if err != nil {
				r.Violate(key, fmt.Sprint(b), "unsatisfiable: %v", err)
				return
			}
			var want []*big.Int
			for j := 0; j < nb; j += 253 {
				e := j + 253
				if e > nb {
					e = nb
				}
				want = append(want, fromBitsLE(b[j:e]))
			}
			if m := same(native, want); m != "" {
				r.Violate(key, fmt.Sprint(b), "native packing: %s", m)
			}
			if m := same(out, want); m != "" {
				r.Violate(key, fmt.Sprint(b), "in-circuit packing: %s", m)
			}
		})
	})
	// big-endian bits to a field element, and decomposition
	vm.Par(r.N(9000, 60000), 0, func(i int) {
		key := fmt.Sprintf("reduce/%d", i)
		rng := r.Rand(key)
		m := fields[[]string{"bn254", "bls12-377", "bls12-381", "bw6-761"}[i%4]]
		x := rint(rng, 1+rng.Intn(800))
		switch i % 5 {
		case 0:
			x = new(big.Int).Mul(m, bn(int64(1+rng.Intn(4))))
			x.Add(x, bn(int64(rng.Intn(3)-1)))
		case 1:
			m = bn(int64(2 + rng.Intn(300)))
			x = rint(rng, 1+rng.Intn(20))
		}
		nb := x.BitLen() + rng.Intn(3)
		be := rev(vm.BitsLE(x, nb))
		in := map[string]any{"value": x.Text(16), "modulus": m.Text(16)}
		r.Case(key, in, func() {
			mc := new(big.Int).Set(m)
			got := utils.BitsToFrBigInt(be, m)
			r.Eval("reduce", fmt.Sprint(x, m))
			r.Expect(got.Cmp(new(big.Int).Mod(x, m)) == 0, key, in, "BitsToFrBigInt is %v want %v", got, new(big.Int).Mod(x, m))
			r.Expect(m.Cmp(mc) == 0, key, in, "the modulus was modified")
			xc := new(big.Int).Set(x)
			d := utils.DecomposeBits(x, nb)
			r.Expect(len(d) == nb && fromBitsLE(d).Cmp(xc) == 0 && x.Cmp(xc) == 0, key, in, "DecomposeBits")
			if nb > 0 && x.BitLen() == nb {
				r.Expect(vm.Try(func() { utils.DecomposeBits(x, nb-1) }) != "", key, in, "a value is silently truncated to fewer bits")
			}
		})
	})
	// any integer type converts to the same value
	vm.Par(r.N(2000, 6000), 0, func(i int) {
		key := fmt.Sprintf("convert/%d", i)
		rng := r.Rand(key)
		u := rng.Uint64() >> uint(rng.Intn(64))
		b := new(big.Int).SetUint64(u)
		r.Case(key, u, func() {
			r.Eval("Var2BigInt", fmt.Sprint(u))
			for _, c := range []struct {
				v any
				w *big.Int
			}{{u, b}, {uint(u), b}, {uint32(u), bn(int64(uint32(u)))}, {uint16(u), bn(int64(uint16(u)))}, {uint8(u), bn(int64(uint8(u)))},
				{int64(u), bn(int64(u))}, {int(u), bn(int64(u))}, {int32(u), bn(int64(int32(u)))}, {int16(u), bn(int64(int16(u)))}, {int8(u), bn(int64(int8(u)))},
				{b.String(), b}, {"0x" + b.Text(16), b}, {b, b}, {*b, b}, {b.Bytes(), b}, {nil, new(big.Int)}} {
				got := utils.Var2BigInt(c.v)
				r.Expect(got.Cmp(c.w) == 0, key, u, "%T %v converts to %v", c.v, c.v, got)
			}
			got := utils.Var2BigInt(b)
			got.Add(got, bn(1))
			r.Expect(b.Cmp(new(big.Int).SetUint64(u)) == 0, key, u, "the result aliases the input")
		})
	})
}
