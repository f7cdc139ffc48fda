package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	erlp "github.com/ethereum/go-ethereum/rlp"
)

var headerCfg = cfg{Kind: kHeader, MaxHex: mpt.EthBlockHeadMaxBlockHexSize, N: 17, Prefix: 4,
	Min: []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
	Max: []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}}

// genHeader makes a header of the given number of fields; extra < 0 picks a length at random.
func genHeader(rng *rand.Rand, fields, extra int) *types.Header {
	u := func(n int) uint64 { return new(big.Int).SetBytes(bytesOf(rng, rng.Intn(n+1))).Uint64() }
	h := &types.Header{
		ParentHash: common.BytesToHash(bytesOf(rng, 32)), UncleHash: common.BytesToHash(bytesOf(rng, 32)),
		Coinbase: common.BytesToAddress(bytesOf(rng, 20)), Root: common.BytesToHash(bytesOf(rng, 32)),
		TxHash: common.BytesToHash(bytesOf(rng, 32)), ReceiptHash: common.BytesToHash(bytesOf(rng, 32)),
		Bloom: types.BytesToBloom(bytesOf(rng, 256)), Difficulty: new(big.Int).SetUint64(u(7)),
		Number: new(big.Int).SetUint64(u(4)), GasLimit: u(4), GasUsed: u(4), Time: u(4),
		MixDigest: common.BytesToHash(bytesOf(rng, 32)),
	}
	copy(h.Nonce[:], bytesOf(rng, 8))
	if extra < 0 {
		extra = []int{0, 1, 2, 20, 31, 32, 33, 55, 56, 97, 120, 200, 255, 256, 400, 500}[rng.Intn(16)]
	}
	h.Extra = bytesOf(rng, extra)
	if fields >= 16 {
		h.BaseFee = new(big.Int).SetUint64(u(8))
	}
	if fields >= 17 {
		w := common.BytesToHash(bytesOf(rng, 32))
		h.WithdrawalsHash = &w
	}
	return h
}

func headerGadget(api frontend.API, in []frontend.Variable) []frontend.Variable {
	var b [mpt.EthBlockHeadMaxBlockHexSize]frontend.Variable
	copy(b[:], in[2:])
	o := mpt.CheckEthBlockHash(api, b, in[0], in[1])
	out := []frontend.Variable{o.Output, o.BlockNumberLength}
	out = append(out, o.BlockHash[:]...)        // 2
	out = append(out, o.StateRoot[:]...)        // 66
	out = append(out, o.TransactionsRoot[:]...) // 130
	out = append(out, o.ReceiptsRoot[:]...)     // 194
	out = append(out, o.BlockNumber[:]...)      // 258
	return append(out, o.BlockTime[:]...)       // 266
}

func same(out []*big.Int, want []byte) bool {
	for i, x := range want {
		if out[i].Cmp(big.NewInt(int64(x))) != 0 {
			return false
		}
	}
	return true
}

func headerBuf(rng *rand.Rand, enc []byte) (buf []byte, round int) {
	p := keccak.Pad101Bytes(append([]byte{}, enc...))
	buf = make([]byte, mpt.EthBlockHeadMaxBlockHexSize)
	copy(buf, nibs(p))
	tail := buf[2*len(p):]
	if rng.Intn(3) == 0 {
		copy(tail, nibs(bytesOf(rng, len(tail)/2)))
	}
	return buf, keccak.GetKeccakRoundForPaddedBytes(p)
}

func c07(r *vm.R) {
	type job struct {
		fields, extra int
		tamper        string
	}
	var jobs []job
	for f := 15; f <= 17; f++ {
		for i := 0; i < r.N(3, 60); i++ {
			jobs = append(jobs, job{f, -1, ""})
		}
		// encodings that end just before, at and after a Keccak block boundary
		for _, d := range []int{-2, -1, 0, 1} {
			jobs = append(jobs, job{f, 1000 + d, ""})
		}
	}
	jobs = append(jobs, job{17, 2000, ""}) // as large as the buffer takes
	for i := 0; i < r.N(14, 300); i++ {
		jobs = append(jobs, job{15 + i%3, -1, []string{"fields", "nibble", "round", "prefix", "length", "drop"}[i%6]})
	}
	vm.Par(len(jobs), 0, func(i int) {
		j := jobs[i]
		key := fmt.Sprintf("header/%d/fields=%d/%d/%s", i, j.fields, j.extra, j.tamper)
		rng := r.Rand(key)
		h := genHeader(rng, j.fields, j.extra)
		if j.extra >= 500 {
			target := -1
			if j.extra < 1500 {
				target = 136*(5+rng.Intn(2)) + j.extra - 1000
			} else {
				target = 8*136 - 1
			}
			for n := 0; n < 1000; n++ { // choose the extra data that gives the wanted encoding length
				h.Extra = bytesOf(rng, n)
				if e, _ := erlp.EncodeToBytes(h); len(e) == target {
					break
				}
			}
		}
		enc, err := erlp.EncodeToBytes(h)
		if err != nil {
			panic(err)
		}
		if len(enc) > 8*136-1 {
			return
		}
		buf, round := headerBuf(rng, enc)
		num := j.fields
		input := map[string]any{"header": vm.Hex(enc), "tamper": j.tamper, "len": len(enc)}
		r.Case(key, input, func() {
			if j.tamper == "" {
				out, err := vm.Run(vm.BN254, append([]frontend.Variable{num, round}, vm.V(buf)...), headerGadget)
				r.Eval(fmt.Sprintf("header/fields=%d", j.fields), vm.Hex(enc))
				r.Sample("header", map[string]any{"fields": j.fields, "encoded_len": len(enc), "round": round})
				if err != nil {
					r.Violate(key, input, "a valid header is unsatisfiable: %v", err)
					return
				}
				r.Expect(out[0].Cmp(big.NewInt(1)) == 0, key, input, "a valid header is not accepted")
				hash := h.Hash()
				r.Expect(same(out[2:], nibs(hash[:])), key, input, "block hash %v want %x", vm.Ints(out[2:66]), hash)
				r.Expect(same(out[66:], nibs(h.Root[:])), key, input, "state root differs")
				r.Expect(same(out[130:], nibs(h.TxHash[:])), key, input, "transactions root differs")
				r.Expect(same(out[194:], nibs(h.ReceiptHash[:])), key, input, "receipts root differs")
				nb := nibs(h.Number.Bytes())
				r.Expect(out[1].Cmp(big.NewInt(int64(len(nb)))) == 0 && same(out[258:], nb), key, input, "number %v (%v nibbles) want %v", vm.Ints(out[258:266]), out[1], nb)
				r.Expect(same(out[266:], nibs(new(big.Int).SetUint64(h.Time).Bytes())), key, input, "time differs")
				return
			}
			what := j.tamper
			switch what {
			case "fields":
				num = []int{13, 14, 15, 16, 17, 18, 0}[rng.Intn(7)]
			case "nibble":
				for n := 1 + rng.Intn(3); n > 0; n-- {
					buf[rng.Intn(2*len(enc))] ^= byte(1 + rng.Intn(15))
				}
			case "round":
				round = (round + 1 + rng.Intn(7)) % 8
			case "prefix":
				at := []int{0, 3, 36, 69, 90, 123, 156, 189, 448}[rng.Intn(9)]
				buf[2*at+rng.Intn(2)] ^= byte(1 + rng.Intn(15))
			case "length":
				buf[5] ^= byte(1 + rng.Intn(3)) // total length
			case "drop": // a field is missing, the length is not adapted
				e := append(append([]byte{}, enc[:3]...), enc[36:]...)
				buf, round = headerBuf(rng, e)
			}
			out, err := vm.Run(vm.BN254, append([]frontend.Variable{num, round}, vm.V(buf)...), headerGadget)
			r.Eval("tampered/"+what, fmt.Sprint(num, round, buf))
			if err != nil {
				r.Count("tampered_unsatisfiable", 1)
				return
			}
			c := headerCfg
			c.Num = num
			d := decode(c, buf)
			pre := make([]byte, (round+1)*136)
			for k := range pre {
				pre[k] = buf[2*k]<<4 | buf[2*k+1]
			}
			if out[0].Sign() != 0 {
				r.Count("tampered_accepted", 1)
				if !d.list || !d.sumOK || d.stuck || num > 17 {
					r.Violate(key, input, "accepted although the lengths do not add up: %v (num %d)", d.lens, num)
					return
				}
				for k, f := range map[int]int{66: 3, 130: 4, 194: 5} {
					r.Expect(same(out[k:], d.data[f]), key, input, "accepted with a root that is not field %d of the encoding", f)
				}
				r.Expect(same(out[258:], d.data[8][:min(8, len(d.data[8]))]), key, input, "accepted with another number than encoded")
			} else {
				r.Count("tampered_rejected", 1)
			}
			// the hash is that of exactly the blocks selected, if they are a padded message
			if msg, ok := unpad(pre); ok {
				want := crypto.Keccak256(msg)
				r.Expect(same(out[2:], nibs(want)), key, input, "hash of the tampered encoding differs from Keccak-256 of its bytes")
			}
		})
	})
}

func unpad(b []byte) ([]byte, bool) {
	n := len(b)
	if b[n-1] == 0x81 {
		return b[:n-1], true
	}
	if b[n-1] != 0x80 {
		return nil, false
	}
	t := bytes.TrimRight(b[:n-1], "\x00")
	if len(t) == 0 || t[len(t)-1] != 1 || n-len(t) >= 136 {
		return nil, false
	}
	return t[:len(t)-1], true
}
