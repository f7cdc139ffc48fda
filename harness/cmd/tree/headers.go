package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	gkeccak "github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/common/circuits"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
)

// big of exactly n bytes (0: zero).
func bigLen(rng *rand.Rand, n int) *big.Int {
	b := make([]byte, n)
	rng.Read(b)
	switch { // also the smallest and the largest numbers of that length
	case n > 0 && rng.Intn(4) == 0:
		clear(b)
		b[0], b[n-1] = 1, b[n-1]|byte(rng.Intn(2))
	case n > 0 && rng.Intn(6) == 0:
		for i := range b {
			b[i] = 0xff
		}
	}
	if n > 0 && b[0] == 0 {
		b[0] = 1
	}
	return new(big.Int).SetBytes(b)
}

func u64Len(rng *rand.Rand, n int) uint64 { return bigLen(rng, n).Uint64() }

// header of random shape; fits tells whether every field respects the encoder's documented limits.
func header(rng *rand.Rand, oversize bool) (h types.Header, fits bool) {
	rng.Read(h.ParentHash[:])
	rng.Read(h.UncleHash[:])
	rng.Read(h.Coinbase[:])
	rng.Read(h.Root[:])
	rng.Read(h.TxHash[:])
	rng.Read(h.ReceiptHash[:])
	if rng.Intn(3) > 0 {
		rng.Read(h.Bloom[:])
	}
	rng.Read(h.MixDigest[:])
	rng.Read(h.Nonce[:])
	fits = true
	lim := func(max int) int {
		if oversize && rng.Intn(4) == 0 {
			fits = false
			return max + 1 + rng.Intn(2)
		}
		if rng.Intn(4) == 0 {
			return max
		}
		return rng.Intn(max + 1)
	}
	h.Difficulty = bigLen(rng, lim(7))
	h.Number = bigLen(rng, lim(8))
	h.GasLimit = u64Len(rng, lim(4))
	h.GasUsed = u64Len(rng, lim(4))
	h.Time = u64Len(rng, lim(4))
	h.Extra = make([]byte, rng.Intn(33))
	rng.Read(h.Extra)
	hash := func() *common.Hash { x := new(common.Hash); rng.Read(x[:]); return x }
	u := func() *uint64 { x := u64Len(rng, rng.Intn(9)); return &x }
	switch rng.Intn(6) {
	case 0: // before London
		if !oversize && rng.Intn(3) == 0 {
			h.Difficulty = nil
		}
	case 1, 2:
		h.BaseFee = bigLen(rng, lim(7))
	case 3, 4:
		h.BaseFee, h.WithdrawalsHash = bigLen(rng, lim(7)), hash()
	case 5:
		h.BaseFee, h.WithdrawalsHash = bigLen(rng, lim(7)), hash()
		h.BlobGasUsed, h.ExcessBlobGas, h.ParentBeaconRoot = u(), u(), hash()
	}
	return
}

// bytesOf turns Keccak bits back into bytes.
func bytesOf(bits []frontend.Variable) ([]byte, error) {
	out := make([]byte, len(bits)/8)
	for i, b := range bits {
		v, ok := new(big.Int).SetString(fmt.Sprint(b), 10)
		if !ok || v.Sign() < 0 || v.BitLen() > 1 {
			return nil, fmt.Errorf("bit %d is %v", i, b)
		}
		out[i/8] |= byte(v.Uint64()) << (i % 8)
	}
	return out, nil
}

func padded(b []byte) []byte {
	n := len(b)/136*136 + 136
	out := make([]byte, n)
	copy(out, b)
	out[len(b)] ^= 1
	out[n-1] ^= 0x80
	return out
}

func c38(r *vm.R) {
	n := r.N(400, 6000)
	vm.Par(n, 8, func(i int) {
		key := fmt.Sprintf("batch/%d", i)
		r.Case(key, key, func() { batch(r, key, r.Rand(key), i) })
	})
	// every extra-data length, up to and across the capacity of five blocks
	for extra := 0; extra <= 300; extra++ {
		key := fmt.Sprintf("extra/%d", extra)
		r.Case(key, extra, func() {
			rng := r.Rand(key)
			h, _ := header(rng, false)
			h.Extra = make([]byte, extra)
			rng.Read(h.Extra)
			checkBatch(r, key, []types.Header{h}, true, false)
		})
	}
	mimcRoots(r)
	chains(r)
}

func batch(r *vm.R, key string, rng *rand.Rand, i int) {
	var hs []types.Header
	fits := true
	for k := rng.Intn(5); k >= 0; k-- {
		h, f := header(rng, i%3 == 0)
		hs = append(hs, h)
		fits = fits && f
	}
	if i == 0 {
		hs, fits = nil, true
	}
	checkBatch(r, key, hs, fits, i%r.N(20, 20) == 1)
}

func checkBatch(r *vm.R, key string, hs []types.Header, fits, circuit bool) {
	snap := fmt.Sprintf("%+v", hs)
	var encs [][]byte
	var hashes []common.Hash
	over := false
	for i := range hs {
		b, err := rlp.EncodeToBytes(&hs[i])
		if err != nil {
			panic("harness: " + err.Error())
		}
		over = over || len(padded(b)) > 5*136
		encs, hashes = append(encs, b), append(hashes, hs[i].Hash())
	}
	enc, idxs, err := fsmt.EncodeHeaders(hs)
	info := map[string]any{"headers": fmt.Sprintf("%x", encs)}
	r.Eval("batch", fmt.Sprintf("%x", hashes))
	r.Expect(fmt.Sprintf("%+v", hs) == snap, key, info, "the headers were changed")
	if !fits || over {
		r.Count("refused batches", 1)
		r.Expect(err != nil, key, info, "a header beyond the limits was encoded")
		return
	}
	if !r.Expect(err == nil, key, info, "error %v", err) || !r.Expect(len(enc) == len(hs) && len(idxs) == len(hs), key, info, "%d encodings and %d rounds for %d headers", len(enc), len(idxs), len(hs)) {
		return
	}
	for k := range hs {
		r.Count("headers", 1)
		if !r.Expect(len(enc[k]) == 5*1088, key, info, "header %d: %d bits, want %d", k, len(enc[k]), 5*1088) {
			continue
		}
		b, berr := bytesOf(enc[k])
		if !r.Expect(berr == nil, key, info, "header %d: %v", k, berr) {
			continue
		}
		want := padded(encs[k])
		idx := fmt.Sprint(idxs[k])
		r.Count("round "+idx, 1)
		r.Expect(idx == fmt.Sprint(len(want)/136-1), key, info, "header %d: round %s, want %d", k, idx, len(want)/136-1)
		r.Expect(bytes.Equal(b[:len(want)], want), key, info, "header %d: blocks %x, want %x", k, b[:len(want)], want)
		r.Expect(len(bytes.Trim(b[len(want):], "\x00")) == 0, key, info, "header %d: data after its last block", k)
		if circuit && k == 0 {
			in := append([]frontend.Variable{idxs[k]}, enc[k]...)
			out, rerr := vm.Run(vm.BN254, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				o := gkeccak.Keccak256Bits(api, 5, in[0], in[1:])
				return o[:]
			})
			r.Eval("header hashed in circuit", hashes[k].Hex())
			if r.Expect(rerr == nil, key, info, "Keccak gadget: %v", rerr) {
				r.Expect(fmt.Sprint(vm.Ints(out)) == fmt.Sprint(keccakBits(hashes[k][:])), key, info, "header %d: the gadget's digest is not the header's hash %x", k, hashes[k])
			}
		}
	}
}

func mimcRoots(r *vm.R) {
	f := hfields[1]
	mod, nb, bits := f.dims()
	for d := 0; d <= r.N(7, 10); d++ {
		for rep := 0; rep < r.N(4, 20); rep++ {
			key := fmt.Sprintf("mimc root/%d/%d", d, rep)
			r.Case(key, key, func() {
				rng := r.Rand(key)
				var leaves [][]byte
				var vals []*big.Int
				for i := 0; i < 1<<d; i++ {
					v := elem(rng, mod, true)
					vals = append(vals, v)
					leaves = append(leaves, v.FillBytes(make([]byte, 32)))
				}
				snap := fmt.Sprintf("%x", leaves)
				got := fsmt.MimcRoot(leaves)
				levels := tree(vals, func(a, b *big.Int) *big.Int { return nhash(f, a, b) })
				want := levels[d][0].FillBytes(make([]byte, 32))
				r.Eval("native MiMC root", snap)
				r.Expect(bytes.Equal(got, want), key, snap, "root %x, want %x", got, want)
				r.Expect(fmt.Sprintf("%x", leaves) == snap, key, snap, "the leaves were changed")
				if rep == 0 && d <= 3 { // the circuit it feeds
					out, err := vm.Run(vm.BN254, limbVars(vals, nb, bits), f.root)
					r.Eval("MiMC root in circuit", snap)
					r.Expect(err == nil && ints(out, mod, nb, bits)[0].Cmp(new(big.Int).SetBytes(got)) == 0, key, snap, "circuit root %v (%v), native %x", out, err, got)
				}
			})
		}
	}
	for _, n := range []int{0, 3, 5, 6, 7, 12, 48, 96, 127, 129, 255, 257, 300, 384, 513, 768, 1023, 1025, 1536} {
		key := fmt.Sprintf("mimc root/size%d", n)
		r.Case(key, n, func() {
			leaves := make([][]byte, n)
			for i := range leaves {
				leaves[i] = make([]byte, 32)
			}
			m := vm.Try(func() { fsmt.MimcRoot(leaves) })
			r.Eval("refused size", key)
			r.Expect(m != "", key, n, "a tree of %d leaves was accepted", n)
		})
	}
	for i := 0; i < r.N(200, 2000); i++ {
		key := fmt.Sprintf("hash32/%d", i)
		r.Case(key, key, func() {
			rng := r.Rand(key)
			b := make([]byte, 32)
			rng.Read(b)
			if rng.Intn(5) == 0 {
				for k := range b {
					b[k] = 0xff
				}
			}
			hi, lo := new(big.Int).SetBytes(b[:16]), new(big.Int).SetBytes(b[16:])
			snap := fmt.Sprintf("%x", b)
			got := fsmt.MimcHashBytes32(b)
			want := nhash(f, hi, lo).FillBytes(make([]byte, 32))
			r.Eval("MimcHashBytes32", snap)
			r.Expect(bytes.Equal(got, want), key, snap, "%x, want %x", got, want)
			h := fsmt.NewHash(b)
			r.Eval("NewHash", snap)
			r.Expect(fmt.Sprint(h[0], h[1]) == fmt.Sprint(hi, lo), key, snap, "halves %v, want %v %v", h, hi, lo)
			r.Expect(fmt.Sprintf("%x", b) == snap, key, snap, "input was changed")
		})
	}
	r.Case("NewHash/len", nil, func() {
		for _, n := range []int{0, 1, 31, 33, 64} {
			m := vm.Try(func() { fsmt.NewHash(make([]byte, n)) })
			r.Eval("refused length", fmt.Sprint(n))
			r.Expect(m != "", "NewHash/len", n, "a hash of %d bytes was accepted", n)
		}
		e := fsmt.EmptyHash()
		r.Expect(fmt.Sprint(e[0], e[1]) == "0 0", "EmptyHash", nil, "empty hash %v", e)
	})
}

func chains(r *vm.R) {
	for i := 0; i < r.N(12, 60); i++ {
		key := fmt.Sprintf("chain/%d", i)
		r.Case(key, key, func() {
			rng := r.Rand(key)
			var prev [32]byte
			rng.Read(prev[:])
			n, start := 1+rng.Intn(20), rng.Intn(1<<30)
			switch i % 6 {
			case 1:
				n = 66 + rng.Intn(250)
			case 2:
				start = 1<<32 - 1 - rng.Intn(n)
			case 3:
				start = 1<<31 - 1 - rng.Intn(n)
			case 4:
				start = rng.Intn(1 << 62)
			case 5:
				start = 0
			}
			hs := fsmt.GenHeaders(n, start, prev)
			r.Eval("chain", fmt.Sprint(n, start, prev))
			if !r.Expect(len(hs) == n, key, n, "%d headers, want %d", len(hs), n) {
				return
			}
			for k := range hs {
				r.Expect(hs[k].ParentHash == common.Hash(prev), key, k, "header %d does not link to its parent", k)
				r.Expect(hs[k].Number != nil && hs[k].Number.Cmp(big.NewInt(int64(start+k))) == 0, key, k, "header %d has number %v", k, hs[k].Number)
				prev = hs[k].Hash()
			}
			checkBatch(r, key, hs, true, false)
			// the largest header that the generator makes is what the circuit is sized for
		})
	}
	r.Case("chunk index", nil, func() {
		rng := r.Rand("chunk")
		for i := 0; i < r.N(500, 5000); i++ {
			var xs []uint64
			for k := rng.Intn(6); k > 0; k-- {
				xs = append(xs, uint64(rng.Intn(8)))
			}
			t := uint64(rng.Intn(8))
			want := false
			for _, x := range xs {
				want = want || x == t
			}
			r.Eval("ChunkIndexFound", fmt.Sprint(t, xs))
			r.Expect(circuits.ChunkIndexFound(t, xs) == want, "chunk index", xs, "ChunkIndexFound(%d, %v) = %v", t, xs, !want)
		}
	})
}
