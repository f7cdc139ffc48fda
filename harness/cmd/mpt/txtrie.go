package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
)

func encList(items [][]byte) []byte {
	b, err := rlp.EncodeToBytes(items)
	if err != nil {
		panic(err)
	}
	return b
}

func txKey(i int) []byte { return rlp.AppendUint64(nil, uint64(i)) }

func blockWorld(rng *rand.Rand, n int) *world {
	vals := map[string][]byte{}
	for i := 0; i < n; i++ {
		vals[string(txKey(i))] = rbytes(rng, 40+rng.Intn(80))
	}
	return newWorld(vals)
}

// varWit assembles the witness of the variable-key gadget; the last node is delivered as a hash.
func varWit(root common.Hash, key []byte, nodes [][]byte, maxDepth, keyHex int) *wit {
	if len(nodes) > maxDepth {
		return nil
	}
	w := &wit{MaxDepth: maxDepth, Root: nibs(root[:]), Key: fit(nibs(key), keyHex), KeyLen: 2 * len(key), Depth: len(nodes)}
	pos := 0
	for i, b := range nodes {
		n := parseNode(b)
		w.Starts = append(w.Starts, pos)
		if i == len(nodes)-1 {
			h := crypto.Keccak256(b)
			copy(w.LeafHash[0][:], h[:16])
			copy(w.LeafHash[1][:], h[16:])
			break
		}
		p, round := pad(b)
		w.Nodes = append(w.Nodes, fit(p, nodeSize))
		w.Rounds = append(w.Rounds, round)
		w.Prefix = append(w.Prefix, n.pre)
		w.Types = append(w.Types, n.kind&1)
		if n.kind == 0 {
			pos++
		} else {
			pos += len(n.path)
		}
	}
	w.fill(w.KeyLen)
	return w
}

// onPath tells whether h is the hash of a node on the key's path.
func onPath(w *world, key []byte, h []byte) bool {
	for _, b := range w.prove(key) {
		if string(crypto.Keccak256(b)) == string(h) {
			return true
		}
	}
	return false
}

func c11(r *vm.R) {
	sizes := []int{1, 2, 3, 15, 16, 17, 100, 127, 128, 129, 130, 144, 200, 255, 256, 257, 300, 700}
	n := r.N(40, 3000)
	vm.Par(n, 0, func(i int) {
		base := fmt.Sprintf("block/%d", i)
		rng := r.Rand(base)
		size := sizes[i%len(sizes)]
		if r.Thorough && i%5 == 4 {
			size = 1 + rng.Intn(2000)
		}
		w := blockWorld(rng, size)
		idx := rng.Intn(size)
		edges := []int{0, 1, 127, 128, 129, 255, 256, size - 1, 15, 16, 143, 144}
		if i/len(sizes) < 3 || rng.Intn(2) == 0 {
			if e := edges[rng.Intn(len(edges))]; e < size {
				idx = e
			}
		}
		key := txKey(idx)
		nodes := w.prove(key)
		keyHex := 6
		d := len(nodes) + rng.Intn(3)
		if i < len(sizes) {
			d = len(nodes) // no spare level
		}
		wt := varWit(w.root, key, nodes, d, keyHex)
		in := input(wt, true)
		g := txGadget(d, keyHex)
		r.Case(base, in, func() {
			out, err := wt.run(g, true)
			r.Eval(fmt.Sprintf("keylen%d/%s", wt.KeyLen, shape(nodes)), fmt.Sprint(w.root, idx, d))
			r.Sample(fmt.Sprintf("keylen%d", wt.KeyLen), map[string]any{"block_size": size, "index": idx, "shape": shape(nodes), "max_depth": d})
			if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate(base, in, "the proof of index %d of %d entries (%s) is not accepted: %v", idx, size, shape(nodes), err)
			}
		})
		for t := 0; t < r.N(2, 8); t++ {
			c := wt.clone()
			what := corruptTx(rng, c, w, nodes, i+t)
			if what == "" {
				continue
			}
			key2 := fmt.Sprintf("%s/%s", base, what)
			in := input(c, true)
			r.Case(key2, in, func() {
				out, err := c.run(g, true)
				r.Eval("corrupt/"+what, fmt.Sprint(c))
				if err != nil {
					r.Count("unsatisfiable", 1)
					return
				}
				if out[0].Sign() == 0 {
					r.Count("not_included", 1)
					return
				}
				root := common.BytesToHash(unnibs(c.Root))
				h := append(append([]byte{}, c.LeafHash[0][:]...), c.LeafHash[1][:]...)
				if root != w.root || c.KeyLen%2 != 0 || c.KeyLen < 2 || !onPath(w, unnibs(c.Key[:c.KeyLen]), h) {
					r.Violate(key2, in, "a corrupted proof (%s of index %d of %d, %s) is accepted", what, idx, size, shape(nodes))
					return
				}
				r.Count("accepted_true_claim", 1)
			})
		}
	})
	// real blocks, the proof given the way common/proof produces it: leaf of a transaction trie
	vm.Par(r.N(2, 30), 0, func(i int) {
		base := fmt.Sprintf("transactions/%d", i)
		rng := r.Rand(base)
		size := []int{5, 140, 260}[i%3]
		var txs types.Transactions
		for j := 0; j < size; j++ {
			to := common.BytesToAddress(rbytes(rng, 20))
			txs = append(txs, types.NewTx(&types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: uint64(j), Gas: 21000, To: &to, Value: big.NewInt(rng.Int63()), Data: rbytes(rng, rng.Intn(50)), V: big.NewInt(1), R: new(big.Int).SetBytes(rbytes(rng, 32)), S: new(big.Int).SetBytes(rbytes(rng, 32))}))
		}
		vals := map[string][]byte{}
		for j := range txs {
			b, _ := txs[j].MarshalBinary()
			vals[string(txKey(j))] = b
		}
		w := newWorld(vals)
		for _, idx := range []int{0, size / 2, size - 1} {
			nodes := w.prove(txKey(idx))
			d := len(nodes)
			wt := varWit(w.root, txKey(idx), nodes, d, 6)
			in := input(wt, true)
			r.Case(base, in, func() {
				out, err := wt.run(txGadget(d, 6), true)
				r.Eval("transactions", fmt.Sprint(w.root, idx))
				if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
					r.Violate(base, in, "the proof of transaction %d of %d (%s) is not accepted: %v", idx, size, shape(nodes), err)
				}
			})
		}
	})
}

func corruptTx(rng *rand.Rand, c *wit, w *world, nodes [][]byte, k int) string {
	real := len(nodes)
	flip := func(b []byte, lo, hi int) {
		i := lo + rng.Intn(hi-lo)
		b[i] = (b[i] + 1 + byte(rng.Intn(15))) & 15
	}
	own := func() []byte { return crypto.Keccak256(rbytes(rng, 10)) }
	setLeaf := func(h []byte) { copy(c.LeafHash[0][:], h[:16]); copy(c.LeafHash[1][:], h[16:]) }
	switch k % 14 {
	case 13: // a branch that swallows more than its nibble: another key with the same walk
		for j := 0; j < real-1; j++ {
			if c.Types[j] == 0 && c.KeyLen+2 <= len(c.Key) {
				s := c.Starts[j] + 1
				nk := append(append(append([]byte{}, c.Key[:s]...), rbytesNib(rng, 2)...), c.Key[s:]...)
				c.Key, c.KeyLen = nk[:len(c.Key)], c.KeyLen+2
				for x := j + 1; x < len(c.Starts); x++ {
					c.Starts[x] += 2
				}
				return "nibbles swallowed by a branch"
			}
		}
		return ""
	case 0:
		flip(c.Root, 0, 64)
		return "root nibble"
	case 1:
		c.LeafHash[rng.Intn(2)][rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
		return "leaf hash bit"
	case 2:
		setLeaf(own())
		c.Depth = 1
		return "own leaf at depth 1"
	case 3:
		if c.Starts[real-1] == 0 {
			return ""
		}
		flip(c.Key, 0, c.Starts[real-1])
		return "consumed key nibble"
	case 4:
		if real < 2 {
			return ""
		}
		j := rng.Intn(real - 1)
		flip(c.Nodes[j], 0, 2*len(nodes[j]))
		return "node byte"
	case 5:
		if real < 2 {
			return ""
		}
		c.Types[rng.Intn(real-1)] ^= 1
		return "node type"
	case 6:
		j := rng.Intn(real)
		c.Starts[j]++
		return "fragment start"
	case 7:
		c.Depth += []int{1, -1}[rng.Intn(2)]
		return "depth"
	case 8:
		if real < 2 {
			return ""
		}
		j := rng.Intn(real - 1)
		c.Prefix[j] = (c.Prefix[j] + 1 + rng.Intn(2)) % 3
		if c.Types[j] == 0 {
			return "" // branches have none
		}
		return "path prefix length"
	case 9: // another index's leaf
		o := w.prove([]byte(w.keys[rng.Intn(len(w.keys))]))
		setLeaf(crypto.Keccak256(o[len(o)-1]))
		return "another leaf"
	case 10: // key of another index, same proof
		o := []byte(w.keys[rng.Intn(len(w.keys))])
		c.Key, c.KeyLen = fit(nibs(o), len(c.Key)), 2*len(o)
		return "another key"
	case 11: // own leaf below the real nodes
		setLeaf(own())
		return "own leaf"
	default: // own leaf, own lowest branch
		if real < 2 {
			return ""
		}
		h := own()
		p, round := pad(branchOf(h))
		c.Nodes[real-2], c.Rounds[real-2], c.Types[real-2] = fit(p, nodeSize), round, 0
		setLeaf(h)
		return "own leaf and branch"
	}
}

// composite runs the block-header + account + storage gadget on whole chains of evidence.
func composite(r *vm.R) {
	vm.Par(r.N(2, 24), 0, func(i int) {
		key := fmt.Sprintf("composite/%d", i)
		rng := r.Rand(key)
		var sw *world
		var sk []byte
		for {
			sw = genWorld(rng, false)
			sk = []byte(sw.keys[rng.Intn(len(sw.keys))])
			if len(sw.prove(sk)) <= 2 {
				break
			}
		}
		snodes := sw.prove(sk)
		acc, _ := rlp.EncodeToBytes(&account{Nonce: uint64(rng.Intn(300)), Balance: big.NewInt(rng.Int63()), Root: sw.root, CodeHash: common.BytesToHash(rbytes(rng, 32))})
		vals := map[string][]byte{}
		ks := genKeys(rng, 2+rng.Intn(3), 32, 2)
		for _, k := range ks {
			vals[string(k)] = genAccount(rng)
		}
		ak := ks[0]
		vals[string(ak)] = acc
		aw := newWorld(vals)
		anodes := aw.prove(ak)
		number := rng.Int63n(1 << 32)
		if i%2 == 1 {
			number = rng.Int63n(60000)
		}
		hd := &types.Header{ParentHash: common.BytesToHash(rbytes(rng, 32)), UncleHash: common.BytesToHash(rbytes(rng, 32)), Root: aw.root,
			TxHash: common.BytesToHash(rbytes(rng, 32)), ReceiptHash: common.BytesToHash(rbytes(rng, 32)), Difficulty: big.NewInt(0), Number: big.NewInt(number),
			GasLimit: 30000000, GasUsed: uint64(rng.Intn(30000000)), Time: 1680000000, Extra: rbytes(rng, rng.Intn(32)), BaseFee: big.NewInt(rng.Int63())}
		enc, _ := rlp.EncodeToBytes(hd)
		hp, hr := pad(enc)
		block := fit(hp, mpt.EthBlockHeadMaxBlockHexSize)
		hash := hd.Hash()
		const ad, sd = mpt.AccountMPTMaxDepth, 2
		if len(snodes) > sd {
			return
		}
		a := fixedWit(aw.root, ak, anodes, acc, ad, 228, 544)
		s := fixedWit(sw.root, sk, snodes, sw.vals[string(sk)], sd, 66, 272)
		in := append(append(append(vm.V(nibs(hash[:])), 16, hr), vm.V(block)...), a.flatten(false)...)
		in = append(in, s.flatten(false)...)
		bad := i%4 == 3
		if bad { // evidence from another storage trie
			o := newWorld(map[string][]byte{string(sk): {0x85, 1, 2, 3, 4, 5}})
			s = fixedWit(o.root, sk, o.prove(sk), o.vals[string(sk)], sd, 66, 272)
			in = append(in[:len(in)-len(s.flatten(false))], s.flatten(false)...)
		}
		info := map[string]any{"header": vm.Hex(enc), "account": input(a, false), "storage": input(s, false)}
		r.Case(key, info, func() {
			out, err := vm.Run(vm.BN254, in, func(api frontend.API, v []frontend.Variable) []frontend.Variable {
				q := &reader{v}
				bh := q.a64()
				fields, round := q.one(), q.one()
				var blk [mpt.EthBlockHeadMaxBlockHexSize]frontend.Variable
				copy(blk[:], q.n(len(blk)))
				_, akey, ast := q.a64(), q.a64(), q.n(ad)
				var av [228]frontend.Variable
				copy(av[:], q.n(228))
				al, alr, alp := q.n(544), q.one(), q.one()
				ac := q.tail(ad)
				_, skey, sst := q.a64(), q.a64(), q.n(sd)
				var sv [66]frontend.Variable
				copy(sv[:], q.n(66))
				sl, slr, slp := q.n(272), q.one(), q.one()
				sc := q.tail(sd)
				var ar [ad - 1]frontend.Variable
				copy(ar[:], ac.rounds)
				res := mpt.CheckEthAddressStorageProof(api, ad, sd, bh, fields, round, akey, skey, blk, ast, av, al, alr, alp, ac.nodes, ar, ac.prefix, ac.types, ac.depth,
					sst, sv, sl, slr, slp, sc.nodes, sc.rounds, sc.prefix, sc.types, sc.depth)
				return []frontend.Variable{res.Output, res.BlockNumber, res.SlotValue[0], res.SlotValue[1]}
			})
			r.Eval("composite", fmt.Sprint(hash, bad))
			if bad {
				r.Expect(err != nil || out[0].Sign() == 0, key, info, "a slot of another storage trie is accepted")
				return
			}
			if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate(key, info, "valid header, account and storage evidence is not accepted: %v", err)
				return
			}
			lo, hi := slotOf(sw.vals[string(sk)])
			r.Expect(out[1].Cmp(big.NewInt(number)) == 0, key, info, "block number %v want %d", out[1], number)
			r.Expect(out[2].Cmp(lo) == 0 && out[3].Cmp(hi) == 0, key, info, "slot (%v,%v) want (%v,%v)", out[2], out[3], lo, hi)
		})
	})
}
