package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

// enc is the independent encoder: little-endian bits, 253 per field element, Poseidon over the elements.
type enc struct{ bits []byte }

func (e *enc) num(x *big.Int, n int) *enc {
	if x.Sign() < 0 || x.BitLen() > n {
		panic("does not fit")
	}
	for i := 0; i < n; i++ {
		e.bits = append(e.bits, byte(x.Bit(i)))
	}
	return e
}
func (e *enc) u(x uint64, n int) *enc { return e.num(new(big.Int).SetUint64(x), n) }
func (e *enc) hash() ([]byte, error) {
	var in []*big.Int
	for i := 0; i < len(e.bits); i += 253 {
		x := new(big.Int)
		for j := i; j < i+253 && j < len(e.bits); j++ {
			x.SetBit(x, j-i, uint(e.bits[j]))
		}
		in = append(in, x)
	}
	h, err := poseidon.Hash(in)
	if err != nil {
		return nil, err
	}
	return h.Bytes(), nil
}

func num(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad number " + s)
	}
	return x
}
func hx(s string) *big.Int {
	x, ok := new(big.Int).SetString("0"+strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X"), 16)
	if !ok {
		panic("bad hex " + s)
	}
	return x
}

func refReceipt(q *proof.SDKQueryProvingInfoForReceipt) ([]byte, error) {
	e := &enc{}
	e.u(q.BlockNumber, 32).num(num(q.BlockBaseFee), 128).num(num(q.MPTKey), 32)
	for _, f := range q.LogExtractInfos {
		e.num(hx(f.ContractAddress), 160).u(f.LogIndex, 16).num(hx(f.LogTopic0[:14]), 48)
		if f.ValueFromTopic {
			e.u(1, 1)
		} else {
			e.u(0, 1)
		}
		e.u(f.ValueIndex, 7).num(hx(f.Value), 256)
	}
	return e.u(q.BlockTime, 64).hash()
}

func refStorage(q *proof.SDKQueryProvingInfoForStorageSlot) ([]byte, error) {
	v, _ := new(big.Int).SetString(q.SlotValue, 10)
	return (&enc{}).u(q.BlockNumber, 32).num(num(q.BlockBaseFee), 128).num(num(q.AccountAddress), 160).num(hx(q.Slot), 256).num(v, 256).u(q.BlockTime, 64).hash()
}

func refTx(q *proof.SDKQueryProvingInfoForTransaction) ([]byte, error) {
	return (&enc{}).u(q.BlockNumber, 32).num(num(q.BlockBaseFee), 128).num(num(q.MPTKey), 32).num(hx(q.LeafHash), 256).u(q.BlockTime, 64).hash()
}

// edge returns a value of at most n bits, often at a boundary.
func edge(rng *rand.Rand, n int) *big.Int {
	one := big.NewInt(1)
	switch rng.Intn(6) {
	case 0:
		return new(big.Int)
	case 1:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
	case 2:
		return new(big.Int).Lsh(one, uint(n-1))
	}
	return rbig(rng, n)
}

func numStr(rng *rand.Rand, x *big.Int) string {
	if rng.Intn(2) == 0 {
		return "0x" + x.Text(16)
	}
	return x.Text(10)
}

func hexN(x *big.Int, n int) string {
	b := make([]byte, n)
	return "0x" + hex.EncodeToString(x.FillBytes(b))
}

// hexAny: hex with or without leading zeros and prefix.
func hexAny(rng *rand.Rand, x *big.Int) string {
	switch rng.Intn(4) {
	case 0:
		return "0x" + x.Text(16)
	case 1:
		return hexN(x, 32)[2:]
	case 2:
		return strings.ToUpper(hexN(x, 32)[2:])
	}
	return hexN(x, 32)
}

func logInfo(rng *rand.Rand) *proof.SDKQueryLogExtractInfo {
	v := edge(rng, 256)
	vs := hexN(v, 32)
	if rng.Intn(2) == 0 {
		vs = hexN(v, (v.BitLen()+7)/8)
	}
	return &proof.SDKQueryLogExtractInfo{ContractAddress: hexN(edge(rng, 160), 20), LogIndex: edge(rng, 16).Uint64(), LogTopic0: hexN(edge(rng, 256), 32),
		ValueFromTopic: rng.Intn(2) == 0, ValueIndex: edge(rng, 7).Uint64(), Value: vs, FieldNumInTopic: rng.Uint64()}
}

func genReceipt(rng *rand.Rand) *proof.SDKQueryProvingInfoForReceipt {
	q := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: edge(rng, 32).Uint64(), BlockBaseFee: numStr(rng, edge(rng, 128)), MPTKey: numStr(rng, edge(rng, 32)), BlockTime: edge(rng, 64).Uint64()}
	for i := rng.Intn(8); i > 0; i-- {
		if l := len(q.LogExtractInfos); l > 0 && rng.Intn(4) == 0 { // the same log field asked for twice
			c := *q.LogExtractInfos[l-1-rng.Intn(l)*rng.Intn(2)]
			q.LogExtractInfos = append(q.LogExtractInfos, &c)
			continue
		}
		q.LogExtractInfos = append(q.LogExtractInfos, logInfo(rng))
	}
	return q
}

func genStorage(rng *rand.Rand) *proof.SDKQueryProvingInfoForStorageSlot {
	return &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: edge(rng, 32).Uint64(), BlockBaseFee: numStr(rng, edge(rng, 128)), AccountAddress: hexN(edge(rng, 160), 20),
		Slot: hexAny(rng, edge(rng, 256)), SlotValue: edge(rng, 256).String(), BlockTime: edge(rng, 64).Uint64()}
}

func genTx(rng *rand.Rand) *proof.SDKQueryProvingInfoForTransaction {
	return &proof.SDKQueryProvingInfoForTransaction{BlockNumber: edge(rng, 32).Uint64(), BlockBaseFee: numStr(rng, edge(rng, 128)), MPTKey: numStr(rng, edge(rng, 32)),
		LeafHash: hexAny(rng, edge(rng, 256)), BlockTime: edge(rng, 64).Uint64()}
}

// bump changes a value of n bits to another one.
func bump(rng *rand.Rand, x *big.Int, n int) *big.Int {
	if rng.Intn(2) == 0 { // one bit
		b := rng.Intn(n)
		return new(big.Int).SetBit(new(big.Int).Set(x), b, x.Bit(b)^1)
	}
	for {
		if y := edge(rng, n); y.Cmp(x) != 0 {
			return y
		}
	}
}
func bumpU(rng *rand.Rand, x uint64, n int) uint64 {
	return bump(rng, new(big.Int).SetUint64(x), n).Uint64()
}

func c27(r *vm.R) {
	n := r.N(1200, 30000)
	big129 := new(big.Int).Lsh(big.NewInt(1), 128).String()
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprint(i))
		// expect runs a query that must hash to want (nil: must be an error).
		type hashFn func() ([]byte, error)
		base := map[string]struct {
			in   any
			hash hashFn
			ref  hashFn
		}{}
		rq, sq, tq := genReceipt(rng), genStorage(rng), genTx(rng)
		base["receipt"] = struct {
			in   any
			hash hashFn
			ref  hashFn
		}{rq, func() ([]byte, error) { return proof.MiMCHashReceiptCustomInputs(rq) }, func() ([]byte, error) { return refReceipt(rq) }}
		base["storage"] = struct {
			in   any
			hash hashFn
			ref  hashFn
		}{sq, func() ([]byte, error) { return proof.MiMCHashStorageCustomInputs(sq) }, func() ([]byte, error) { return refStorage(sq) }}
		base["tx"] = struct {
			in   any
			hash hashFn
			ref  hashFn
		}{tq, func() ([]byte, error) { return proof.MiMCHashTxCustomInputs(tq) }, func() ([]byte, error) { return refTx(tq) }}
		hashes := map[string][]byte{}
		for _, kind := range []string{"receipt", "storage", "tx"} {
			b := base[kind]
			r.Case(kind, b.in, func() {
				want, werr := b.ref()
				got, err := b.hash()
				if werr != nil {
					panic(werr)
				}
				r.Expect(err == nil && bytes.Equal(got, want), kind, b.in, "commitment %x (%v), encoding gives %x", got, err, want)
				again, _ := b.hash()
				r.Expect(bytes.Equal(got, again), kind, b.in, "two calls gave %x and %x", got, again)
				hashes[kind] = got
				r.Eval(kind, vm.Hex(want))
				if i < 1 {
					r.Sample(kind, b.in)
				}
			})
		}
		differs := func(kind, field string, in any, f hashFn) {
			key := kind + "/" + field
			r.Case(key, in, func() {
				got, err := f()
				r.Expect(err == nil && !bytes.Equal(got, hashes[kind]), key, map[string]any{"base": base[kind].in, "changed": in}, "changing %s left the commitment at %x (%v)", field, got, err)
				r.Eval("sensitivity/"+key, vm.Hex(got))
			})
		}
		same := func(kind, field string, in any, f hashFn) {
			key := kind + "/" + field
			r.Case(key, in, func() {
				got, err := f()
				r.Expect(err == nil && bytes.Equal(got, hashes[kind]), key, map[string]any{"base": base[kind].in, "changed": in}, "the equal query hashes to %x (%v), base to %x", got, err, hashes[kind])
				r.Eval("equal/"+key, vm.Hex(got))
			})
		}
		refused := func(kind, field string, in any, f hashFn) {
			key := kind + "/malformed/" + field
			r.Case(key, in, func() {
				got, err := f()
				r.Expect(err != nil, key, in, "no error, commitment %x", got)
				r.Eval(key, fmt.Sprint(i))
			})
		}
		badNum := []string{"", "abc", "0x", "0xzz", "1.5", "-1", "-5", big129, "12 ", "0x-1", "1e3"}
		badHex := []string{"0xzz", "0x0g", "zz", "0x12 4", "-0x12", "0x" + strings.Repeat("ff", 33), "0x00" + strings.Repeat("ff", 32)[:62] + "zz"}

		rc := func(name string, f func(q *proof.SDKQueryProvingInfoForReceipt), to func(kind, field string, in any, f hashFn)) {
			q := *rq
			q.LogExtractInfos = nil
			for _, l := range rq.LogExtractInfos {
				c := *l
				q.LogExtractInfos = append(q.LogExtractInfos, &c)
			}
			f(&q)
			to("receipt", name, &q, func() ([]byte, error) { return proof.MiMCHashReceiptCustomInputs(&q) })
		}
		type RQ = proof.SDKQueryProvingInfoForReceipt
		rc("block", func(q *RQ) { q.BlockNumber = bumpU(rng, q.BlockNumber, 32) }, differs)
		rc("fee", func(q *RQ) { q.BlockBaseFee = numStr(rng, bump(rng, num(q.BlockBaseFee), 128)) }, differs)
		rc("mpt-key", func(q *RQ) { q.MPTKey = numStr(rng, bump(rng, num(q.MPTKey), 32)) }, differs)
		rc("time", func(q *RQ) { q.BlockTime = bumpU(rng, q.BlockTime, 64) }, differs)
		if m := len(rq.LogExtractInfos); m > 0 {
			at := rng.Intn(m)
			rc("log-address", func(q *RQ) {
				q.LogExtractInfos[at].ContractAddress = hexN(bump(rng, hx(q.LogExtractInfos[at].ContractAddress), 160), 20)
			}, differs)
			rc("log-index", func(q *RQ) { q.LogExtractInfos[at].LogIndex = bumpU(rng, q.LogExtractInfos[at].LogIndex, 16) }, differs)
			rc("log-topic0", func(q *RQ) {
				t := q.LogExtractInfos[at].LogTopic0
				q.LogExtractInfos[at].LogTopic0 = hexN(bump(rng, hx(t[:14]), 48), 6) + t[14:]
			}, differs)
			rc("log-from-topic", func(q *RQ) { q.LogExtractInfos[at].ValueFromTopic = !q.LogExtractInfos[at].ValueFromTopic }, differs)
			rc("log-value-index", func(q *RQ) { q.LogExtractInfos[at].ValueIndex = bumpU(rng, q.LogExtractInfos[at].ValueIndex, 7) }, differs)
			rc("log-value", func(q *RQ) { q.LogExtractInfos[at].Value = hexN(bump(rng, hx(q.LogExtractInfos[at].Value), 256), 32) }, differs)
			if j := (at + 1) % m; *rq.LogExtractInfos[j] != *rq.LogExtractInfos[at] {
				rc("log-order", func(q *RQ) {
					q.LogExtractInfos[at], q.LogExtractInfos[j] = q.LogExtractInfos[j], q.LogExtractInfos[at]
				}, func(kind, field string, in any, f hashFn) {
					w, _ := refReceipt(in.(*RQ))
					if !bytes.Equal(w, hashes[kind]) { // entries that differ in uncommitted parts only
						differs(kind, field, in, f)
					}
				})
			}
			rc("value-form", func(q *RQ) { q.LogExtractInfos[at].Value = hexN(hx(q.LogExtractInfos[at].Value), 32) }, same)
			rc("case", func(q *RQ) {
				q.LogExtractInfos[at].ContractAddress = "0x" + strings.ToUpper(q.LogExtractInfos[at].ContractAddress[2:])
			}, same)
			bh := badHex[rng.Intn(len(badHex))]
			switch i % 10 {
			case 0:
				rc("log-value", func(q *RQ) { q.LogExtractInfos[at].Value = bh }, refused)
			case 1:
				rc("log-address", func(q *RQ) { q.LogExtractInfos[at].ContractAddress = bh }, refused)
			case 2:
				rc("log-address-long", func(q *RQ) { q.LogExtractInfos[at].ContractAddress = "0x01" + strings.Repeat("00", 20) }, refused)
			case 3:
				rc("log-topic-short", func(q *RQ) { q.LogExtractInfos[at].LogTopic0 = []string{"", "0x", "0x01", "0x0102030405"}[rng.Intn(4)] }, refused)
			case 4:
				rc("log-index-wide", func(q *RQ) { q.LogExtractInfos[at].LogIndex = 1<<16 + uint64(rng.Intn(1<<20)) }, refused)
			case 5:
				rc("value-index-wide", func(q *RQ) { q.LogExtractInfos[at].ValueIndex = 1<<7 + uint64(rng.Intn(1<<20)) }, refused)
			case 6:
				rc("too-many-logs", func(q *RQ) {
					for len(q.LogExtractInfos) < 8+rng.Intn(4) {
						q.LogExtractInfos = append(q.LogExtractInfos, logInfo(rng))
					}
				}, refused)
			case 7:
				rc("log-topic", func(q *RQ) { q.LogExtractInfos[at].LogTopic0 = bh[:len(bh)-1] + "z" }, refused)
			}
		}
		if len(rq.LogExtractInfos) < 7 {
			rc("log-added", func(q *RQ) { q.LogExtractInfos = append(q.LogExtractInfos, logInfo(rng)) }, differs)
			rc("zero-log-added", func(q *RQ) {
				q.LogExtractInfos = append(q.LogExtractInfos, &proof.SDKQueryLogExtractInfo{ContractAddress: hexN(new(big.Int), 20), LogTopic0: hexN(new(big.Int), 32), Value: "0x"})
			}, func(kind, field string, in any, f hashFn) {
				w, _ := refReceipt(in.(*RQ)) // an all-zero tail of the encoding may add elements only
				if !bytes.Equal(w, hashes[kind]) {
					differs(kind, field, in, f)
				}
			})
		}
		rc("fee-form", func(q *RQ) { q.BlockBaseFee = "0x" + num(q.BlockBaseFee).Text(16) }, same)
		bn := badNum[rng.Intn(len(badNum))]
		rc("fee", func(q *RQ) { q.BlockBaseFee = bn }, refused)
		rc("mpt-key", func(q *RQ) { q.MPTKey = bn }, refused)
		rc("mpt-key-wide", func(q *RQ) { q.MPTKey = fmt.Sprint(1<<32 + rng.Intn(1000)) }, refused)
		rc("block-wide", func(q *RQ) { q.BlockNumber = 1<<32 + rng.Uint64()>>1 }, refused)

		type SQ = proof.SDKQueryProvingInfoForStorageSlot
		sc := func(name string, f func(q *SQ), to func(kind, field string, in any, f hashFn)) {
			q := *sq
			f(&q)
			to("storage", name, &q, func() ([]byte, error) { return proof.MiMCHashStorageCustomInputs(&q) })
		}
		dec := func(s string) *big.Int { x, _ := new(big.Int).SetString(s, 10); return x }
		sc("block", func(q *SQ) { q.BlockNumber = bumpU(rng, q.BlockNumber, 32) }, differs)
		sc("fee", func(q *SQ) { q.BlockBaseFee = numStr(rng, bump(rng, num(q.BlockBaseFee), 128)) }, differs)
		sc("account", func(q *SQ) { q.AccountAddress = hexN(bump(rng, hx(q.AccountAddress), 160), 20) }, differs)
		sc("slot", func(q *SQ) { q.Slot = hexAny(rng, bump(rng, hx(q.Slot), 256)) }, differs)
		sc("value", func(q *SQ) { q.SlotValue = bump(rng, dec(q.SlotValue), 256).String() }, differs)
		sc("time", func(q *SQ) { q.BlockTime = bumpU(rng, q.BlockTime, 64) }, differs)
		sc("slot-form", func(q *SQ) { q.Slot = hexAny(rng, hx(q.Slot)) }, same)
		sc("fee-form", func(q *SQ) { q.BlockBaseFee = num(q.BlockBaseFee).String() }, same)
		sc("uncommitted", func(q *SQ) { q.BlockHash, q.SMTRoot = "0x12", "0x34" }, same)
		sc("fee", func(q *SQ) { q.BlockBaseFee = bn }, refused)
		sc("account", func(q *SQ) {
			q.AccountAddress = []string{"", "0x", "0xzz", "-1", "0x01" + strings.Repeat("00", 20)}[rng.Intn(5)]
		}, refused)
		sc("slot", func(q *SQ) { q.Slot = badHex[rng.Intn(len(badHex))] }, refused)
		sc("value", func(q *SQ) {
			q.SlotValue = []string{"", "abc", "0x12", "-1", "1.0", new(big.Int).Lsh(big.NewInt(1), 256).String(), " 1", "1_0"}[rng.Intn(8)]
		}, refused)
		sc("block-wide", func(q *SQ) { q.BlockNumber = 1 << 32 }, refused)
		r.Case("padded-slot", sq.Slot, func() {
			got := proof.GetPaddedSlotBytes(sq.Slot)
			r.Expect(hexN(hx(sq.Slot), 32) == "0x"+vm.Hex(got), "padded-slot", sq.Slot, "slot %s padded to %x", sq.Slot, got)
			r.Eval("padded-slot", sq.Slot)
		})

		type TQ = proof.SDKQueryProvingInfoForTransaction
		tc := func(name string, f func(q *TQ), to func(kind, field string, in any, f hashFn)) {
			q := *tq
			f(&q)
			to("tx", name, &q, func() ([]byte, error) { return proof.MiMCHashTxCustomInputs(&q) })
		}
		tc("block", func(q *TQ) { q.BlockNumber = bumpU(rng, q.BlockNumber, 32) }, differs)
		tc("fee", func(q *TQ) { q.BlockBaseFee = numStr(rng, bump(rng, num(q.BlockBaseFee), 128)) }, differs)
		tc("mpt-key", func(q *TQ) { q.MPTKey = numStr(rng, bump(rng, num(q.MPTKey), 32)) }, differs)
		tc("leaf", func(q *TQ) { q.LeafHash = hexAny(rng, bump(rng, hx(q.LeafHash), 256)) }, differs)
		tc("time", func(q *TQ) { q.BlockTime = bumpU(rng, q.BlockTime, 64) }, differs)
		tc("leaf-form", func(q *TQ) { q.LeafHash = hexAny(rng, hx(q.LeafHash)) }, same)
		tc("fee", func(q *TQ) { q.BlockBaseFee = bn }, refused)
		tc("mpt-key", func(q *TQ) { q.MPTKey = bn }, refused)
		tc("leaf", func(q *TQ) { q.LeafHash = badHex[rng.Intn(len(badHex))] }, refused)
		tc("block-wide", func(q *TQ) { q.BlockNumber = 1<<63 + 5 }, refused)
	})
}
