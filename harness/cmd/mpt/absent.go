package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/ethereum/go-ethereum/crypto"
)

// absentKey returns a key not in the trie whose exclusion proof ends at the wanted node kind (any: -1).
func absentKey(rng *rand.Rand, w *world, kind int) ([]byte, [][]byte) {
	for t := 0; t < 300; t++ {
		k := nibs([]byte(w.keys[rng.Intn(len(w.keys))]))
		i := rng.Intn(64)
		if rng.Intn(3) > 0 {
			i = rng.Intn(10)
		}
		k[i] = (k[i] + 1 + byte(rng.Intn(15))) & 15
		if rng.Intn(2) == 0 {
			copy(k[i+1:], rbytesNib(rng, 63-i))
		}
		b := unnibs(k)
		if _, ok := w.vals[string(b)]; ok {
			continue
		}
		nodes := w.prove(b)
		if len(nodes) == 0 {
			continue
		}
		if kind < 0 || parseNode(nodes[len(nodes)-1]).kind == kind {
			return b, nodes
		}
	}
	return nil, nil
}

func c10(r *vm.R) {
	kinds := []string{"branch", "extension", "leaf"}
	n := r.N(24, 1200)
	vm.Par(n, 0, func(i int) {
		kind := i % 3
		base := fmt.Sprintf("absent-%s/%d", kinds[kind], i)
		rng := r.Rand(base)
		var w *world
		var k []byte
		var nodes [][]byte
		for {
			w = genWorld(rng, false)
			k, nodes = absentKey(rng, w, kind)
			if k != nil && len(nodes) <= 5 && (len(nodes) > 1 || rng.Intn(3) == 0) {
				break
			}
		}
		d := len(nodes) + rng.Intn(2)
		ls := 1088
		if kind != 0 && rng.Intn(2) == 0 {
			ls = 272
		}
		wt := fixedWit(w.root, k, nodes, []byte{0x80}, d, 66, ls)
		in := input(wt, false)
		g := storageGadget(d, ls)
		r.Case(base, in, func() {
			out, err := wt.run(g, false)
			r.Eval(base[:7]+kinds[kind]+"/"+shape(nodes), fmt.Sprint(d, ls, w.root, k))
			r.Sample(kinds[kind], map[string]any{"shape": shape(nodes), "max_depth": d, "keys": len(w.keys)})
			if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate(base, in, "a valid exclusion proof (%s) is not accepted: %v", shape(nodes), err)
				return
			}
			if out[1].Sign() != 0 || out[2].Sign() != 0 {
				r.Violate(base, in, "an absent slot has value (%v,%v)", out[1], out[2])
			}
		})
		// a non-zero value for an absent key
		for t := 0; t < r.N(1, 4); t++ {
			key := fmt.Sprintf("%s/nonzero/%d", base, t)
			c := wt.clone()
			switch rng.Intn(4) {
			case 0:
				c.Value = fit(nibs(genSlot(rng)), 66)
			case 1:
				c.Value = fit([]byte{8, 0, 0, 0, 1}, 66)
			case 2:
				c.Value = fit([]byte{0, byte(1 + rng.Intn(15))}, 66)
			default:
				c.Value = fit([]byte{8, 0}, 66)
				c.Value[2+rng.Intn(64)] = byte(1 + rng.Intn(15))
			}
			in := input(c, false)
			r.Case(key, in, func() {
				out, err := c.run(g, false)
				r.Eval("nonzero-"+kinds[kind], fmt.Sprint(c))
				if err == nil && out[0].Sign() != 0 && (out[1].Sign() != 0 || out[2].Sign() != 0) {
					r.Violate(key, in, "an exclusion proof (%s) is accepted with value %x, slot (%v,%v)", shape(nodes), c.Value, out[1], out[2])
				}
			})
		}
	})
	embeddedLeaves(r, true)
	// forged exclusions of present keys
	vm.Par(r.N(16, 900), 0, func(i int) {
		base := fmt.Sprintf("present/%d", i)
		rng := r.Rand(base)
		var w *world
		var k []byte
		var nodes [][]byte
		for {
			w = genWorld(rng, false)
			if i%8 == 3 {
				w = embeddedWorld(rng)
			}
			k = []byte(w.keys[rng.Intn(len(w.keys))])
			nodes = w.prove(k)
			if len(nodes) <= 4 && (len(nodes) >= 2 || i%7 == 0) {
				break
			}
		}
		d := len(nodes) + rng.Intn(2)
		for t := 0; t < r.N(3, 8); t++ {
			c := fixedWit(w.root, k, nodes, w.vals[string(k)], d, 66, 1088)
			c.Value = fit([]byte{8, 0}, 66)
			what := ""
			// ends the proof at node j
			stop := func(j int) {
				if j == len(nodes)-1 {
					return
				}
				p, round := pad(nodes[j])
				c.Leaf, c.LeafRound, c.LeafPrefix, c.Depth = fit(p, 1088), round, parseNode(nodes[j]).pre, j+1
				for x := j; x < len(c.Nodes); x++ {
					c.Nodes[x], c.Rounds[x], c.Types[x], c.Prefix[x] = make([]byte, nodeSize), 0, 0, 0
				}
				for x := j + 1; x < len(c.Starts); x++ {
					c.Starts[x] = 64
				}
			}
			j := rng.Intn(len(nodes))
			if len(nodes) > 1 {
				j = rng.Intn(len(nodes) - 1)
			}
			switch (i + t) % 8 {
			case 0:
				what = "stop at a node on the path"
				stop(j)
			case 1:
				what = "stop at a node, late start"
				stop(j)
				c.Starts[j] += 1 + rng.Intn(3)
			case 2:
				what = "stop at a node, early start"
				stop(j)
				if c.Starts[j] > 0 {
					c.Starts[j]--
				}
			case 3:
				what = "stop at a node, other prefix length"
				stop(j)
				c.LeafPrefix = rng.Intn(3)
			case 4:
				what = "real leaf, other prefix length"
				c.LeafPrefix = 3 - c.LeafPrefix
				if rng.Intn(3) == 0 {
					c.LeafPrefix = 0
				}
			case 5:
				what = "leaf with a moved start"
				c.Starts[len(nodes)-1] += []int{1, -1, 2}[rng.Intn(3)]
			case 6:
				what = "another key's exclusion proof"
				if o, on := absentKey(rng, w, -1); o != nil && len(on) <= d {
					f := fixedWit(w.root, k, on, []byte{0x80}, d, 66, 1088)
					f.Key = nibs(k)
					c = f
				}
			case 7:
				what = "own last node"
				var b []byte
				switch rng.Intn(3) {
				case 0:
					b = leafNode(rbytesNib(rng, 64-c.Starts[len(nodes)-1]), genSlot(rng))
				case 1:
					b = extNode(rbytesNib(rng, 3), crypto.Keccak256(k))
				default:
					b = emptyBranch(nibs(k)[c.Starts[len(nodes)-1]], crypto.Keccak256(k))
				}
				p, round := pad(b)
				c.Leaf, c.LeafRound, c.LeafPrefix = fit(p, 1088), round, parseNode(b).pre
			}
			key := fmt.Sprintf("%s/%s/%d", base, what, t)
			in := input(c, false)
			g := storageGadget(d, 1088)
			if bytes.Equal(c.Value, fit(nibs(w.vals[string(k)]), 66)) {
				continue
			}
			r.Case(key, in, func() {
				out, err := c.run(g, false)
				r.Eval("forged/"+what, fmt.Sprint(c))
				if err == nil && out[0].Sign() != 0 {
					r.Violate(key, in, "a present key's slot (%s) is accepted as absent by a forged proof (%s)", shape(nodes), what)
				}
			})
		}
	})
}

func emptyBranch(nibble byte, ref []byte) []byte {
	items := make([][]byte, 17)
	for i := 0; i < 16; i++ {
		if i != int(nibble) {
			items[i] = ref
		}
	}
	return encList(items)
}
