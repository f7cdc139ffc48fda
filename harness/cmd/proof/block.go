package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethdb/memorydb"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/holiman/uint256"
)

func rbytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func rbig(rng *rand.Rand, maxBits int) *big.Int {
	n := rng.Intn(maxBits + 1)
	x := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(n)))
	return x
}

func raddr(rng *rand.Rand) (a common.Address) { rng.Read(a[:]); return }
func rhash(rng *rand.Rand) (a common.Hash)    { rng.Read(a[:]); return }

func accessList(rng *rand.Rand) (l types.AccessList) {
	for i := rng.Intn(3); i > 0; i-- {
		t := types.AccessTuple{Address: raddr(rng)}
		for j := rng.Intn(3); j > 0; j-- {
			t.StorageKeys = append(t.StorageKeys, rhash(rng))
		}
		l = append(l, t)
	}
	return
}

// inner transaction data of the type, unsigned.
func txData(rng *rand.Rand, typ int, chain *big.Int) types.TxData {
	var to *common.Address
	if rng.Intn(5) > 0 {
		a := raddr(rng)
		to = &a
	}
	data := rbytes(rng, []int{0, 1, 4, 36, 55, 56, 100, 300, 0, 1, 4, 36, 55, 56, 100, 1500, 6000}[rng.Intn(17)])
	nonce, gas := rbig(rng, 64).Uint64(), rbig(rng, 64).Uint64()
	switch typ {
	case types.LegacyTxType:
		return &types.LegacyTx{Nonce: nonce, GasPrice: rbig(rng, 100), Gas: gas, To: to, Value: rbig(rng, 256), Data: data}
	case types.AccessListTxType:
		return &types.AccessListTx{ChainID: chain, Nonce: nonce, GasPrice: rbig(rng, 100), Gas: gas, To: to, Value: rbig(rng, 256), Data: data, AccessList: accessList(rng)}
	case types.DynamicFeeTxType:
		return &types.DynamicFeeTx{ChainID: chain, Nonce: nonce, GasTipCap: rbig(rng, 100), GasFeeCap: rbig(rng, 100), Gas: gas, To: to, Value: rbig(rng, 256), Data: data, AccessList: accessList(rng)}
	}
	c, _ := uint256.FromBig(new(big.Int).And(chain, new(big.Int).SetUint64(1<<63-1)))
	return &types.BlobTx{ChainID: c, Nonce: nonce, GasTipCap: uint256.NewInt(rng.Uint64()), GasFeeCap: uint256.NewInt(rng.Uint64()), Gas: gas, To: raddr(rng), Value: uint256.NewInt(rng.Uint64()), Data: data, AccessList: accessList(rng), BlobFeeCap: uint256.NewInt(rng.Uint64()), BlobHashes: []common.Hash{rhash(rng)}}
}

func blockTx(rng *rand.Rand) *types.Transaction {
	d := txData(rng, rng.Intn(4), big.NewInt(1))
	switch x := d.(type) {
	case *types.LegacyTx:
		x.V, x.R, x.S = big.NewInt(37+rng.Int63n(2)), rbig(rng, 256), rbig(rng, 256)
	case *types.AccessListTx:
		x.V, x.R, x.S = big.NewInt(rng.Int63n(2)), rbig(rng, 256), rbig(rng, 256)
	case *types.DynamicFeeTx:
		x.V, x.R, x.S = big.NewInt(rng.Int63n(2)), rbig(rng, 256), rbig(rng, 256)
	}
	return types.NewTx(d)
}

func receipt(rng *rand.Rand, typ uint8, idx int) *types.Receipt {
	rc := &types.Receipt{Type: typ, Status: uint64(rng.Intn(2)), CumulativeGasUsed: rbig(rng, 40).Uint64(), TransactionIndex: uint(idx), Logs: []*types.Log{}}
	if rng.Intn(6) == 0 && typ == types.LegacyTxType {
		rc.PostState = rbytes(rng, 32) // before Byzantium
	}
	for i := rng.Intn(4); i > 0; i-- {
		l := &types.Log{Address: raddr(rng), Data: rbytes(rng, rng.Intn(200)), Topics: []common.Hash{}}
		for j := rng.Intn(5); j > 0; j-- {
			l.Topics = append(l.Topics, rhash(rng))
		}
		rc.Logs = append(rc.Logs, l)
	}
	rc.Bloom = types.CreateBloom(types.Receipts{rc})
	return rc
}

type blk struct {
	b  *types.Block
	rs types.Receipts
}

func newBlk(rng *rand.Rand, n int) blk {
	var txs types.Transactions
	var rs types.Receipts
	for i := 0; i < n; i++ {
		tx := blockTx(rng)
		txs = append(txs, tx)
		rs = append(rs, receipt(rng, tx.Type(), i))
	}
	h := &types.Header{Number: rbig(rng, 64), Difficulty: big.NewInt(0), Time: rng.Uint64()}
	return blk{types.NewBlock(h, &types.Body{Transactions: txs}, rs, trie.NewStackTrie(nil)), rs}
}

func encIndex(l types.DerivableList, i int) []byte {
	var b bytes.Buffer
	l.EncodeIndex(i, &b)
	return b.Bytes()
}

// checkProof is the oracle on one returned proof.
func checkProof(root common.Hash, index int, want []byte, nodes [][]byte, key, prefix []byte) error {
	if !bytes.Equal(key, rlp.AppendUint64(nil, uint64(index))) {
		return fmt.Errorf("key %x is not the RLP of %d", key, index)
	}
	if len(nodes) == 0 {
		return fmt.Errorf("no nodes")
	}
	db := memorydb.New()
	for _, n := range nodes {
		_ = db.Put(crypto.Keccak256(n), n)
	}
	v, err := trie.VerifyProof(root, key, db)
	if err != nil {
		return fmt.Errorf("proof does not verify: %v", err)
	}
	if !bytes.Equal(v, want) {
		return fmt.Errorf("proof is of %x, entry is %x", v, want)
	}
	// the order the circuits take: root first, every node holding the next one's hash, leaf last
	if crypto.Keccak256Hash(nodes[0]) != root {
		return fmt.Errorf("first node is not the root")
	}
	for i := 1; i < len(nodes); i++ {
		if !bytes.Contains(nodes[i-1], crypto.Keccak256(nodes[i])) {
			return fmt.Errorf("node %d does not refer to node %d", i-1, i)
		}
	}
	if leaf := nodes[len(nodes)-1]; !bytes.Equal(append(append([]byte(nil), prefix...), want...), leaf) {
		return fmt.Errorf("prefix %x + entry is not the leaf %x", prefix, leaf)
	}
	return nil
}

func c25(r *vm.R) {
	sizes := []int{1, 2, 3, 4, 15, 16, 17, 18, 40, 127, 128, 129, 130, 144, 200, 255, 256, 257, 300}
	n := r.N(8*len(sizes), 60*len(sizes))
	vm.Par(n, 0, func(k int) {
		rng := r.Rand(fmt.Sprintf("block/%d", k))
		size := sizes[k%len(sizes)]
		if k >= len(sizes) && rng.Intn(2) == 0 {
			size = 1 + rng.Intn(400)
		}
		bl := newBlk(rng, size)
		raw, _ := rlp.EncodeToBytes(bl.b)
		var idx []int
		if size <= 18 {
			for i := 0; i < size; i++ {
				idx = append(idx, i)
			}
		} else {
			idx = append(idx, 0, 1, 15, 16, 17, size-2, size-1, rng.Intn(size), rng.Intn(size))
			for _, b := range []int{126, 127, 128, 129, 254, 255, 256, 257} {
				if b < size {
					idx = append(idx, b)
				}
			}
		}
		for _, i := range idx {
			in := map[string]any{"block_size": size, "index": i, "case": k}
			r.Case("tx-proof", in, func() {
				nodes, key, pre, err := proof.GetTransactionProof(bl.b, i)
				if r.Expect(err == nil, "tx-proof", in, "error for an index of the block: %v", err) {
					err = checkProof(bl.b.TxHash(), i, encIndex(bl.b.Transactions(), i), nodes, key, pre)
					r.Expect(err == nil, "tx-proof", in, "%v", err)
				}
				r.Eval("tx-proof", fmt.Sprint(size, i, k))
				r.Count("proof-nodes", int64(len(nodes)))
			})
			r.Case("receipt-proof", in, func() {
				nodes, key, pre, err := proof.GetReceiptProof(bl.b, bl.rs, i)
				want := encIndex(bl.rs, i)
				if r.Expect(err == nil, "receipt-proof", in, "error for an index of the block: %v", err) {
					err = checkProof(bl.b.ReceiptHash(), i, want, nodes, key, pre)
					r.Expect(err == nil, "receipt-proof", in, "%v", err)
				}
				got, err := proof.GetReceiptRaw(bl.rs[i])
				r.Expect(err == nil && bytes.Equal(got, want), "receipt-raw", in, "consensus encoding %x, got %x (%v)", want, got, err)
				r.Eval("receipt-proof", fmt.Sprint(size, i, k))
			})
		}
		for _, i := range []int{-1, -128, -1 << 62, size, size + 1, size + 127, size + 128, 65536, 1 << 40} {
			in := map[string]any{"block_size": size, "index": i, "case": k}
			r.Case("tx-index-outside", in, func() {
				nodes, key, _, err := proof.GetTransactionProof(bl.b, i)
				r.Expect(err != nil, "tx-index-outside", in, "no error, key %x, %d nodes", key, len(nodes))
				r.Eval("tx-index-outside", fmt.Sprint(size, i))
			})
			r.Case("receipt-index-outside", in, func() {
				nodes, key, _, err := proof.GetReceiptProof(bl.b, bl.rs, i)
				r.Expect(err != nil, "receipt-index-outside", in, "no error, key %x, %d nodes", key, len(nodes))
				r.Eval("receipt-index-outside", fmt.Sprint(size, i))
			})
		}
		// receipts that are not the block's
		other := newBlk(rng, size)
		alter := func(i int) types.Receipts {
			c := append(types.Receipts(nil), bl.rs...)
			x := *c[i]
			x.CumulativeGasUsed++
			c[i] = &x
			return c
		}
		at := rng.Intn(size)
		bad := map[string]types.Receipts{
			"other-block": other.rs, "last-missing": bl.rs[:size-1], "one-more": append(append(types.Receipts(nil), bl.rs...), receipt(rng, 0, size)),
			"altered": alter(at), "first-missing": bl.rs[1:],
		}
		if size > 1 {
			c := append(types.Receipts(nil), bl.rs...)
			j := (at + 1) % size
			c[at], c[j] = c[j], c[at]
			bad["swapped"] = c
		}
		for name, rs := range bad {
			for _, i := range []int{0, at, size - 1} {
				in := map[string]any{"block_size": size, "index": i, "receipts": name, "case": k}
				r.Case("receipts-mismatch", in, func() {
					nodes, _, _, err := proof.GetReceiptProof(bl.b, rs, i)
					r.Expect(err != nil, "receipts-mismatch", in, "no error, %d nodes", len(nodes))
					r.Eval("receipts-mismatch", fmt.Sprint(name, size, i))
				})
			}
		}
		// a block whose body is not the header's
		forged := types.NewBlockWithHeader(bl.b.Header()).WithBody(types.Body{Transactions: other.b.Transactions()})
		in := map[string]any{"block_size": size, "index": at, "case": k}
		r.Case("body-mismatch", in, func() {
			_, _, _, err := proof.GetTransactionProof(forged, at)
			r.Expect(err != nil, "body-mismatch", in, "no error for transactions that are not under the block's root")
			r.Eval("body-mismatch", fmt.Sprint(size, at))
		})
		after, _ := rlp.EncodeToBytes(bl.b)
		r.Expect(bytes.Equal(raw, after), "block-modified", in, "the block was modified")
		if k < 2 {
			r.Sample("block", in)
		}
	})
	empty := newBlk(r.Rand("empty"), 0)
	for _, i := range []int{0, 1, 127} {
		in := map[string]any{"block_size": 0, "index": i}
		r.Case("empty-block", in, func() {
			_, _, _, e1 := proof.GetTransactionProof(empty.b, i)
			_, _, _, e2 := proof.GetReceiptProof(empty.b, nil, i)
			r.Expect(e1 != nil && e2 != nil, "empty-block", in, "proof of an entry of an empty block")
			r.Eval("empty-block", fmt.Sprint(i))
		})
	}
	r.Case("nil-receipt", nil, func() {
		_, err := proof.GetReceiptRaw(nil)
		r.Expect(err != nil, "nil-receipt", nil, "no error")
	})
}
