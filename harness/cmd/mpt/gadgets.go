package main

import (
	"math/big"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
)

type reader struct{ in []frontend.Variable }

func (r *reader) one() frontend.Variable { v := r.in[0]; r.in = r.in[1:]; return v }
func (r *reader) n(k int) []frontend.Variable {
	v := append([]frontend.Variable{}, r.in[:k]...)
	r.in = r.in[k:]
	return v
}
func (r *reader) a64() (o [64]frontend.Variable) { copy(o[:], r.n(64)); return }

func (w *wit) flatten(variable bool) (in []frontend.Variable) {
	add := func(v []frontend.Variable) { in = append(in, v...) }
	add(vm.V(w.Root))
	add(vm.V(w.Key))
	add(vm.V(w.Starts))
	if variable {
		in = append(in, w.KeyLen, new(big.Int).SetBytes(w.LeafHash[0][:]), new(big.Int).SetBytes(w.LeafHash[1][:]))
	} else {
		add(vm.V(w.Value))
		add(vm.V(w.Leaf))
		in = append(in, w.LeafRound, w.LeafPrefix)
	}
	for _, n := range w.Nodes {
		add(vm.V(n))
	}
	add(vm.V(w.Rounds))
	add(vm.V(w.Prefix))
	add(vm.V(w.Types))
	return append(in, w.Depth)
}

type common_ struct {
	nodes                    [][]frontend.Variable
	rounds, prefix, types    []frontend.Variable
	depth                    frontend.Variable
	leaf                     []frontend.Variable
	leafRound, leafPrefixLen frontend.Variable
}

func (r *reader) tail(d int) (c common_) {
	for i := 0; i < d-1; i++ {
		c.nodes = append(c.nodes, r.n(nodeSize))
	}
	c.rounds, c.prefix, c.types = r.n(d-1), r.n(d-1), r.n(d-1)
	c.depth = r.one()
	return
}

// storageGadget outputs: accepted, low slot value, high slot value, value length.
func storageGadget(d, leafSize int) vm.Fn {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		r := &reader{in}
		root, key, starts := r.a64(), r.a64(), r.n(d)
		var val [66]frontend.Variable
		copy(val[:], r.n(66))
		leaf, lr, lp := r.n(leafSize), r.one(), r.one()
		c := r.tail(d)
		res := mpt.CheckEthStorageProof(api, d, root, key, val, starts, leaf, lr, lp, c.nodes, c.rounds, c.prefix, c.types, c.depth)
		return []frontend.Variable{res.Output, res.SlotValue[0], res.SlotValue[1], res.ValueLength}
	}
}

// accountGadget outputs: accepted, nonce length, balance length, storage root, code hash, nonce, balance.
func accountGadget(d, leafSize int) vm.Fn {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		r := &reader{in}
		root, key, starts := r.a64(), r.a64(), r.n(d)
		var val [228]frontend.Variable
		copy(val[:], r.n(228))
		leaf, lr, lp := r.n(leafSize), r.one(), r.one()
		c := r.tail(d)
		res := mpt.CheckEthAccountProof(api, d, root, key, starts, val, leaf, lr, lp, c.nodes, c.rounds, c.prefix, c.types, c.depth)
		out := []frontend.Variable{res.Output, res.NonceLength, res.BalanceLength}
		out = append(out, res.StorageRoot[:]...)
		out = append(out, res.CodeHash[:]...)
		out = append(out, res.Nonce[:]...)
		return append(out, res.Balance[:]...)
	}
}

// txGadget outputs: accepted.
func txGadget(d, keyHex int) vm.Fn {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		r := &reader{in}
		root, key, starts := r.a64(), r.n(keyHex), r.n(d)
		kl := r.one()
		h := [2]frontend.Variable{r.one(), r.one()}
		c := r.tail(d)
		res := mpt.CheckMPTInclusionNoBranchTermination(api, d, keyHex, key, kl, root, starts, h, c.nodes, c.rounds, c.prefix, c.types, c.depth)
		return []frontend.Variable{res.Output}
	}
}

func (w *wit) run(g vm.Fn, variable bool) ([]*big.Int, error) {
	return vm.Run(vm.BN254, w.flatten(variable), g)
}
