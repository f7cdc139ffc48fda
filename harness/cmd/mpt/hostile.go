package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
)

func rawItems(b []byte) (items []rlp.RawValue) {
	if err := rlp.DecodeBytes(b, &items); err != nil {
		panic(err)
	}
	return
}

func encRaw(items []rlp.RawValue) []byte {
	b, err := rlp.EncodeToBytes(items)
	if err != nil {
		panic(err)
	}
	return b
}

func str(b []byte) rlp.RawValue {
	e, _ := rlp.EncodeToBytes(b)
	return e
}

// relink rebuilds the nodes above node j after it changed; ref is what the parent of j now holds (nil: j's hash).
// The refs further up follow. The returned root belongs to a trie nobody would build, which is the point.
func relink(nodes [][]byte, orig [][]byte, j int, ref []byte) (common.Hash, bool) {
	for i := j - 1; i >= 0; i-- {
		old := crypto.Keccak256(orig[i+1])
		if ref == nil {
			ref = crypto.Keccak256(nodes[i+1])
		}
		items, done := rawItems(nodes[i]), false
		for x := range items {
			if string(items[x]) == string(str(old)) {
				items[x], done = str(ref), true
			}
		}
		if !done {
			return common.Hash{}, false
		}
		nodes[i], ref = encRaw(items), nil
	}
	return crypto.Keccak256Hash(nodes[0]), true
}

// hostile takes the proof of a key and returns the nodes and root of a malformed trie whose walk along the same
// key differs from an inclusion in one respect; the hash links are intact. "" if it does not apply.
func hostile(rng *rand.Rand, orig [][]byte, kind int, withLeaf bool) (nodes [][]byte, root common.Hash, what string) {
	nodes = append([][]byte{}, orig...)
	last := len(nodes) - 1
	path := func(j int, f func(n nodeInfo, p []byte) []byte) {
		items := rawItems(nodes[j])
		n := parseNode(nodes[j])
		items[0] = str(f(n, append([]byte{}, n.path...)))
		nodes[j] = encRaw(items)
	}
	exts := []int{}
	for j := 0; j < last; j++ {
		if parseNode(nodes[j]).kind == 1 {
			exts = append(exts, j)
		}
	}
	if kind >= 8 && kind <= 12 && len(exts) == 0 {
		return nil, root, ""
	}
	ext := 0
	if len(exts) > 0 {
		ext = exts[rng.Intn(len(exts))]
	}
	if (kind < 6 || kind == 14) && (!withLeaf || len(parseNode(nodes[last]).path) < 6) {
		return nil, root, ""
	}
	if (kind == 6 || kind == 7 || kind == 13 || kind == 14) && last == 0 {
		return nil, root, ""
	}
	at, ref := last, []byte(nil)
	switch kind {
	case 0:
		what = "leaf path ends early"
		path(last, func(n nodeInfo, p []byte) []byte { return hp(p[:len(p)-1-rng.Intn(4)], true) })
	case 1:
		what = "leaf path goes on"
		path(last, func(n nodeInfo, p []byte) []byte {
			return hp(append(p, rbytesNib(rng, 1+rng.Intn(2))...), true)
		})
	case 2:
		what = "leaf flagged as extension"
		path(last, func(n nodeInfo, p []byte) []byte { return hp(p, false) })
	case 3:
		what = "leaf with another flag"
		path(last, func(n nodeInfo, p []byte) []byte {
			b := hp(p, true)
			b[0] ^= []byte{0x40, 0x80, 0xc0, 0x20}[rng.Intn(4)]
			return b
		})
	case 4:
		what = "even leaf path with a second flag nibble"
		if len(parseNode(nodes[last]).path)%2 == 1 {
			return nil, root, ""
		}
		path(last, func(n nodeInfo, p []byte) []byte {
			b := hp(p, true)
			b[0] |= byte(1 + rng.Intn(15))
			return b
		})
	case 5:
		what = "leaf path empty"
		path(last, func(n nodeInfo, p []byte) []byte { return hp(nil, true) })
	case 6, 13: // truncated reference to a node whose hash ends in zeros
		at = 0
		for j := 1; j <= last; j++ {
			if crypto.Keccak256(nodes[j])[31] == 0 && (parseNode(nodes[j-1]).kind == 1) == (kind == 13) {
				at = j
			}
		}
		if at == 0 {
			return nil, root, ""
		}
		what = "branch holds a shortened reference"
		if kind == 13 {
			what = "extension holds a shortened reference"
		}
		ref = crypto.Keccak256(nodes[at])[:31]
	case 7:
		at = 1 + rng.Intn(last)
		what = "empty reference"
		ref = []byte{}
	case 8:
		what = "extension path ends early"
		at = ext
		path(at, func(n nodeInfo, p []byte) []byte { return hp(p[:len(p)-1], false) })
	case 9:
		what = "extension path goes on"
		at = ext
		path(at, func(n nodeInfo, p []byte) []byte { return hp(append(p, rbytesNib(rng, 1+rng.Intn(2))...), false) })
	case 10:
		what = "extension flagged as leaf"
		at = ext
		path(at, func(n nodeInfo, p []byte) []byte { return hp(p, true) })
	case 11:
		what = "extension with another flag"
		at = ext
		path(at, func(n nodeInfo, p []byte) []byte {
			b := hp(p, false)
			b[0] ^= []byte{0x40, 0x80, 0xc0}[rng.Intn(3)]
			return b
		})
	case 12:
		what = "even extension path with a second flag nibble"
		at = ext
		if len(parseNode(nodes[at]).path)%2 == 1 {
			return nil, root, ""
		}
		path(at, func(n nodeInfo, p []byte) []byte {
			b := hp(p, false)
			b[0] |= byte(1 + rng.Intn(15))
			return b
		})
	case 14: // the leaf starts later in the key than the branch above it ends
		what = "nibbles of the key missing between branch and leaf"
		if parseNode(nodes[last-1]).kind != 0 {
			return nil, root, ""
		}
		path(last, func(n nodeInfo, p []byte) []byte { return hp(p[1+rng.Intn(3):], true) })
	default:
		return nil, root, ""
	}
	var ok bool
	if root, ok = relink(nodes, orig, at, ref); !ok {
		return nil, root, ""
	}
	return nodes, root, what
}

// reroot gives a valid witness the nodes and root of a malformed trie, keeping its claim of where each node starts; the
// prefix lengths follow the nodes.
func reroot(valid *wit, nodes [][]byte, root common.Hash, withLeaf bool) *wit {
	c := valid.clone()
	c.Root = nibs(root[:])
	for j, b := range nodes {
		p, round := pad(b)
		if j == len(nodes)-1 {
			if withLeaf {
				c.Leaf, c.LeafRound = fit(p, len(valid.Leaf)), round
				c.LeafPrefix = parseNode(b).pre
				if c.Leaf == nil {
					return nil
				}
			}
			break
		}
		c.Nodes[j], c.Rounds[j] = fit(p, nodeSize), round
		c.Prefix[j] = parseNode(b).pre
		if c.Nodes[j] == nil {
			return nil
		}
	}
	return c
}

// zeroTail changes the value below the last node until the last node's hash ends in a zero byte, so that a shortened
// reference, padded with zeros, looks the same.
func zeroTail(rng *rand.Rand, w *world, k []byte, acct, ext bool) (*world, bool) {
	n := w.prove(k)
	any := false
	for j := 0; j < len(n)-1; j++ {
		any = any || (parseNode(n[j]).kind == 1) == ext
	}
	if !any {
		return nil, false
	}
	for t := 0; t < 3000; t++ {
		vals := map[string][]byte{}
		for a, b := range w.vals {
			vals[a] = b
		}
		vals[string(k)] = ownValue(rng, acct)
		o := newWorld(vals)
		n := o.prove(k)
		for j := 1; j < len(n); j++ {
			if crypto.Keccak256(n[j])[31] == 0 && (parseNode(n[j-1]).kind == 1) == ext {
				return o, true
			}
		}
	}
	return nil, false
}

func hostileTries(r *vm.R) {
	vm.Par(r.N(30, 900), 0, func(i int) {
		acct := i%4 == 3
		base := fmt.Sprintf("malformed/%d", i)
		rng := r.Rand(base)
		kind := i % 15
		var w *world
		var k []byte
		var nodes [][]byte
		var root common.Hash
		var orig [][]byte
		what := ""
		for t := 0; t < 400 && what == ""; t++ {
			w = genWorld(rng, acct)
			k = []byte(w.keys[rng.Intn(len(w.keys))])
			orig = w.prove(k)
			if len(orig) > 4 || (kind >= 6 && len(orig) < 2) {
				continue
			}
			if kind == 6 || kind == 13 {
				o, ok := zeroTail(rng, w, k, acct, kind == 13)
				if !ok {
					continue
				}
				w, orig = o, o.prove(k)
			}
			nodes, root, what = hostile(rng, orig, kind, true)
		}
		if what == "" {
			return
		}
		d := len(orig) + rng.Intn(2)
		vs, ls := 66, 272
		g := storageGadget(d, ls)
		if acct {
			vs, ls = 228, 544
			g = accountGadget(d, ls)
		}
		valid := fixedWit(w.root, k, orig, w.vals[string(k)], d, vs, ls)
		if valid == nil {
			return
		}
		c := reroot(valid, nodes, root, true)
		if c == nil {
			return
		}
		if kind == 14 {
			c.Starts[len(nodes)-1] = 64 - len(parseNode(nodes[len(nodes)-1]).path)
		}
		in := input(c, false)
		r.Case(base, in, func() {
			out, err := c.run(g, false)
			r.Eval("malformed trie/"+what, fmt.Sprint(c))
			if err == nil && out[0].Sign() != 0 {
				r.Violate(base+"/"+what, in, "a key is reported as included in a trie that does not hold it (%s of %s)", what, shape(orig))
			}
		})
		// the starts follow the altered path instead
		if kind == 0 || kind == 1 || kind == 8 || kind == 9 {
			c2 := c.clone()
			pos := 0
			for j, b := range nodes[:len(nodes)-1] {
				n := parseNode(b)
				c2.Starts[j] = pos
				c2.Prefix[j] = n.pre
				if n.kind == 0 {
					pos++
				} else {
					pos += len(n.path)
				}
			}
			c2.Starts[len(nodes)-1] = pos
			c2.LeafPrefix = parseNode(nodes[len(nodes)-1]).pre
			in := input(c2, false)
			r.Case(base+"/starts", in, func() {
				out, err := c2.run(g, false)
				r.Eval("malformed trie, starts along/"+what, fmt.Sprint(c2))
				if err == nil && out[0].Sign() != 0 {
					r.Violate(base+"/"+what+"/starts", in, "a key is reported as included in a trie that does not hold it (%s of %s, starts along the altered path)", what, shape(orig))
				}
			})
		}
	})
	vm.Par(r.N(12, 400), 0, func(i int) {
		base := fmt.Sprintf("malformed-var/%d", i)
		rng := r.Rand(base)
		kind := []int{6, 7, 8, 9, 10, 11, 12, 13}[i%8]
		var root common.Hash
		var nodes, orig [][]byte
		var w *world
		var key []byte
		what := ""
		for t := 0; t < 400 && what == ""; t++ {
			size := []int{2, 17, 40, 129, 200, 257, 300}[rng.Intn(7)]
			if kind == 13 {
				size = 130 + rng.Intn(13)
			}
			w = blockWorld(rng, size)
			key = txKey(rng.Intn(size))
			if kind == 13 {
				key = txKey(128 + rng.Intn(size-128))
			}
			orig = w.prove(key)
			if len(orig) < 2 {
				continue
			}
			if kind == 6 || kind == 13 {
				// until a node below one of the wanted kind has a hash ending in zero
				for x := 0; x < 3000 && what == ""; x++ {
					if nodes, root, what = hostile(rng, orig, kind, false); what == "" {
						w.t.MustUpdate(key, rbytes(rng, 40+rng.Intn(10)))
						w.root = w.t.Hash()
						orig = w.prove(key)
					}
				}
				continue
			}
			nodes, root, what = hostile(rng, orig, kind, false)
		}
		if what == "" {
			return
		}
		d := len(orig)
		valid := varWit(w.root, key, orig, d, 6)
		c := reroot(valid, nodes, root, false)
		if c == nil {
			return
		}
		in := input(c, true)
		g := txGadget(d, 6)
		r.Case(base, in, func() {
			out, err := c.run(g, true)
			r.Eval("malformed block trie/"+what, fmt.Sprint(c))
			if err == nil && out[0].Cmp(big.NewInt(0)) != 0 {
				r.Violate(base+"/"+what, in, "a leaf is reported as included in a trie whose nodes do not lead to it (%s of %s)", what, shape(orig))
			}
		})
	})
}
