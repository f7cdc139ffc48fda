package main

import (
	"fmt"
	"math/big"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
)

func frOf(api frontend.API, v []frontend.Variable) []frontend.Variable { return v }

// txLeaves runs whole transaction leaves through the transaction decoder.
func txLeaves(r *vm.R) {
	vm.Par(r.N(8, 200), 4, func(i int) {
		key := fmt.Sprintf("txleaf/%d", i)
		rng := r.Rand(key)
		bigN := func(n int) *big.Int { return new(big.Int).SetBytes(bytesOf(rng, rng.Intn(n+1))) }
		to := common.BytesToAddress(bytesOf(rng, 20))
		if i%4 == 1 {
			to[0] = 0
		}
		rs := func() *big.Int {
			n := []int{32, 32, 31, 30, 32, 20, 1}[rng.Intn(7)]
			b := make([]byte, n)
			rng.Read(b)
			b[0] |= []byte{1, 0x10, 0x80}[rng.Intn(3)]
			return new(big.Int).SetBytes(b)
		}
		data := bytesOf(rng, []int{0, 1, 4, 36, 55, 56, 68, 255, 256, 500, 1000}[rng.Intn(11)])
		if rng.Intn(4) == 0 {
			data = []byte{0} // a literal zero byte
		}
		in := &types.DynamicFeeTx{ChainID: bigN(8), Nonce: bigN(8).Uint64(), GasTipCap: bigN(8), GasFeeCap: bigN(8),
			Gas: bigN(4).Uint64(), To: &to, Value: bigN(32), Data: data, V: big.NewInt(int64(rng.Intn(2))), R: rs(), S: rs()}
		raw, err := types.NewTx(in).MarshalBinary()
		if err != nil {
			panic(err)
		}
		path := str([]byte{[]byte{0x20, 0x31, 0x3f, 0x30}[rng.Intn(4)]})
		leaf := list(path, str(raw)).enc
		if 2*len(leaf) > 4352 {
			return
		}
		c := cfg{MaxHex: 4352}
		buf := fill(rng, c, leaf)
		input := map[string]any{"leaf": vm.Hex(leaf)}
		r.Case(key, input, func() {
			out, err := vm.Run(vm.BN254, vm.V(buf), func(api frontend.API, in []frontend.Variable) (o []frontend.Variable) {
				t, signed, lens := rlp.DecodeTxLeafRlp(api, in)
				o = append(o, lens...)
				for _, f := range [][]frontend.Variable{t.ChainId, t.Nonce, t.MaxPriorityGasPrice, t.MaxFeePerGas, t.GasLimit, t.To, t.Value} {
					o = append(o, f...)
				}
				o = append(o, t.R[0], t.R[1], t.S[0], t.S[1], t.V)
				return append(o, signed[:2*len(raw)]...)
			})
			r.Eval("txleaf", vm.Hex(leaf))
			if err != nil {
				r.Violate(key, input, "a transaction leaf is not accepted: %v", err)
				return
			}
			want := [][]byte{nibs(in.ChainID.Bytes()), nibs(new(big.Int).SetUint64(in.Nonce).Bytes()), nibs(in.GasTipCap.Bytes()),
				nibs(in.GasFeeCap.Bytes()), nibs(new(big.Int).SetUint64(in.Gas).Bytes()), nibs(to[:]), nibs(in.Value.Bytes())}
			widths := []int{16, 16, 16, 16, 8, 40, 64}
			if len(lensOnly(out)) != 8 {
				r.Violate(key, input, "unexpected output shape")
				return
			}
			pos := 8
			for k, w := range want {
				if k != 7 && out[k].Cmp(big.NewInt(int64(len(w)))) != 0 {
					r.Violate(key, input, "field %d length %v want %d", k, out[k], len(w))
				}
				for j, x := range w {
					if out[pos+j].Cmp(big.NewInt(int64(x))) != 0 {
						r.Violate(key, input, "field %d nibble %d is %v want %d", k, j, out[pos+j], x)
						break
					}
				}
				pos += widths[k]
			}
			if out[7].Cmp(big.NewInt(40)) != 0 {
				r.Violate(key, input, "recipient length %v", out[7])
			}
			// r and s: low 31 bytes and the top byte (values of at least 63 nibbles), else the whole value
			for k, v := range []*big.Int{in.R, in.S} {
				lo, hi := out[pos+2*k], out[pos+2*k+1]
				n := 2 * len(v.Bytes())
				got := new(big.Int).Set(lo)
				if n == 64 {
					got.Add(got, new(big.Int).Lsh(hi, 248))
				} else if hi.Sign() != 0 {
					r.Violate(key, input, "short signature part %d has a high part %v", k, hi)
				}
				r.Expect(got.Cmp(v) == 0, key, input, "signature part %d is %v want %v", k, got, v)
			}
			r.Expect(out[pos+4].Cmp(in.V) == 0, key, input, "V is %v want %v", out[pos+4], in.V)
			pos += 5
			for j, x := range nibs(raw) {
				if out[pos+j].Cmp(big.NewInt(int64(x))) != 0 {
					r.Violate(key, input, "signed transaction nibble %d is %v want %d", j, out[pos+j], x)
					break
				}
			}
		})
	})
}

func lensOnly(out []*big.Int) []*big.Int { return out[:8] }
