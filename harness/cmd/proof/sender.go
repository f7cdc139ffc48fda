package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

func key(rng *rand.Rand) *ecdsa.PrivateKey {
	for {
		if k, err := crypto.ToECDSA(rbytes(rng, 32)); err == nil {
			return k
		}
	}
}

// with returns tx with other raw signature values.
func with(tx *types.Transaction, d types.TxData, v, r, s *big.Int) *types.Transaction {
	switch x := d.(type) {
	case *types.LegacyTx:
		c := *x
		c.V, c.R, c.S = v, r, s
		return types.NewTx(&c)
	case *types.AccessListTx:
		c := *x
		c.V, c.R, c.S = v, r, s
		return types.NewTx(&c)
	case *types.DynamicFeeTx:
		c := *x
		c.V, c.R, c.S = v, r, s
		return types.NewTx(&c)
	}
	return tx
}

func c26(r *vm.R) {
	chains := []*big.Int{big.NewInt(1), big.NewInt(0), big.NewInt(2), big.NewInt(10), big.NewInt(56), big.NewInt(137), big.NewInt(42161),
		big.NewInt(110), big.NewInt(111), big.NewInt(1 << 31), big.NewInt(1<<62 + 5), new(big.Int).SetUint64(1<<63 - 18), new(big.Int).SetUint64(1<<63 + 7),
		new(big.Int).SetUint64(1<<64 - 1), new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(9)), new(big.Int).Lsh(big.NewInt(3), 70)}
	n := r.N(12000, 80000)
	order := crypto.S256().Params().N
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprint(i))
		chain := chains[rng.Intn(len(chains))]
		if rng.Intn(4) == 0 {
			chain = rbig(rng, 64)
		}
		typ := []int{0, 0, 2, 2, 2, 1, 3}[i%7]
		if typ == 0 && chain.Sign() == 0 {
			chain = big.NewInt(1) // go-ethereum has no replay-protected legacy signature for chain 0
		}
		d := txData(rng, typ, chain)
		k := key(rng)
		addr := crypto.PubkeyToAddress(k.PublicKey)
		if rng.Intn(12) == 0 { // a transfer to oneself
			switch x := d.(type) {
			case *types.LegacyTx:
				x.To = &addr
			case *types.DynamicFeeTx:
				x.To = &addr
			}
		}
		var signer types.Signer = types.LatestSignerForChainID(chain)
		if typ == 3 {
			c, _ := d.(*types.BlobTx)
			signer = types.LatestSignerForChainID(c.ChainID.ToBig())
		}
		kind := fmt.Sprintf("type%d", typ)
		if typ == 0 && rng.Intn(5) == 0 {
			signer, kind = types.HomesteadSigner{}, "unprotected"
		}
		tx, err := types.SignNewTx(k, signer, d)
		if err != nil {
			panic(err)
		}
		raw, _ := tx.MarshalBinary()
		in := map[string]any{"tx": vm.Hex(raw), "chain": chain.String(), "kind": kind, "case": i}
		supported := kind == "type0" || kind == "type2"
		check := func(name string, t *types.Transaction) {
			vm := map[string]any{}
			for a, b := range in {
				vm[a] = b
			}
			v, rr, ss := t.RawSignatureValues()
			vm["v"], vm["r"], vm["s"], vm["mutation"] = fmt.Sprint(v), fmt.Sprint(rr), fmt.Sprint(ss), name
			r.Case(kind+"/"+name, vm, func() {
				// the network's answer: the signer of the transaction's own chain
				var want []byte
				var werr error
				if p := tryErr(func() {
					a, e := types.Sender(types.LatestSignerForChainID(t.ChainId()), t)
					want, werr = a.Bytes(), e
				}); p != "" {
					werr = fmt.Errorf("%s", p)
				}
				got, gerr := proof.RecoverTransactionSignerAddress(t)
				if gerr == nil {
					if werr != nil {
						r.Violate(kind+"/"+name, vm, "returned %x, the network rejects the signature (%v)", got, werr)
					} else if !bytes.Equal(got, want) {
						r.Violate(kind+"/"+name, vm, "returned %x, the sender is %x", got, want)
					}
					r.Count("recovered", 1)
				} else {
					r.Expect(!(supported && werr == nil && t.Protected()), kind+"/"+name, vm, "error %v, the sender is %x", gerr, want)
					r.Count("refused", 1)
				}
				r.Eval(kind+"/"+name, fmt.Sprint(i))
			})
		}
		check("signed", tx)
		if a, e := types.Sender(signer, tx); e != nil || a != addr {
			panic(fmt.Sprint("reference signer: ", e))
		}
		if i < 4 {
			r.Sample(kind, in)
		}
		if supported {
			r.Case("unsigned-rlp", in, func() {
				b, err := proof.PrepareUnsignedTransactionRlp(tx)
				if !r.Expect(err == nil, "unsigned-rlp", in, "error %v", err) {
					return
				}
				pre := b
				if typ != 0 {
					pre = append([]byte{byte(typ)}, b...)
				}
				h := signer.Hash(tx)
				r.Expect(bytes.Equal(crypto.Keccak256(pre), h[:]), "unsigned-rlp", in, "digest %x, signed digest %x", crypto.Keccak256(pre), h)
				r.Eval("unsigned-rlp", fmt.Sprint(i))
			})
		}
		if typ == 1 || typ == 3 {
			r.Case("unsupported", in, func() {
				b, err := proof.PrepareUnsignedTransactionRlp(tx)
				if err == nil { // if it is ever supported, it has to be the signed digest
					h := signer.Hash(tx)
					r.Expect(bytes.Equal(crypto.Keccak256(append([]byte{byte(typ)}, b...)), h[:]), "unsupported", in, "unsigned encoding is not the signed digest")
				}
				r.Eval("unsupported", fmt.Sprint(i))
			})
		}
		if typ == 3 {
			return
		}
		check("unsigned", types.NewTx(d))
		v, rr, ss := tx.RawSignatureValues()
		add := func(x *big.Int, k int64) *big.Int { return new(big.Int).Add(x, big.NewInt(k)) }
		check("high-s", with(tx, d, v, rr, new(big.Int).Sub(order, ss)))
		flip := add(v, 1)
		if low := v.Bit(0); (typ == 0 && low == 0) || (typ != 0 && low == 1) {
			flip = add(v, -1)
		}
		check("flipped-parity", with(tx, d, flip, rr, ss))
		check("high-s-flipped", with(tx, d, flip, rr, new(big.Int).Sub(order, ss)))
		check("zero-r", with(tx, d, v, new(big.Int), ss))
		check("zero-s", with(tx, d, v, rr, new(big.Int)))
		check("r+order", with(tx, d, v, new(big.Int).Add(rr, order), ss))
		check("r=order", with(tx, d, v, order, ss))
		check("s=order", with(tx, d, v, rr, order))
		check("r+1", with(tx, d, v, add(rr, 1), ss))
		check("s+1", with(tx, d, v, rr, add(ss, 1)))
		check("short-r", with(tx, d, v, rbig(rng, 200), ss))
		check("long-r", with(tx, d, v, new(big.Int).Lsh(rr, 9), ss))
		check("long-s", with(tx, d, v, rr, new(big.Int).Lsh(ss, 17)))
		for _, x := range []int64{0, 1, 2, 3, 4, 26, 27, 28, 29, 30, 34, 35, 36, 37, 38, 255, 256, 257, 512} {
			check(fmt.Sprintf("v=%d", x), with(tx, d, big.NewInt(x), rr, ss))
		}
		check("v+2", with(tx, d, add(v, 2), rr, ss))
		check("v+256", with(tx, d, add(v, 256), rr, ss))
		check("v+2^64", with(tx, d, new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), 64)), rr, ss))
		if typ == 0 {
			check("other-chain", with(tx, d, add(v, 2*int64(1+rng.Intn(100))), rr, ss))
		}
	})
}

func tryErr(f func()) string { return vm.Try(f) }
