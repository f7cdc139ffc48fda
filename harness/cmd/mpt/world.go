package main

import (
	"bytes"
	"math/rand"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
)

// world is a trie with its ground truth.
type world struct {
	t    *trie.Trie
	root common.Hash
	vals map[string][]byte // key bytes -> value RLP
	keys []string
}

type nodeList struct{ nodes [][]byte }

func (n *nodeList) Put(_, v []byte) error {
	n.nodes = append(n.nodes, append([]byte{}, v...))
	return nil
}
func (n *nodeList) Delete([]byte) error { return nil }

func newWorld(vals map[string][]byte) *world {
	w := &world{t: trie.NewEmpty(nil), vals: vals}
	for k, v := range vals {
		w.t.MustUpdate([]byte(k), v)
		w.keys = append(w.keys, k)
	}
	sort.Strings(w.keys)
	w.root = w.t.Hash()
	return w
}

// prove returns the nodes on the key's path, root first.
func (w *world) prove(key []byte) [][]byte {
	var n nodeList
	if err := w.t.Prove(key, &n); err != nil {
		panic(err)
	}
	return n.nodes
}

// embedded returns the leaf on the key's path that the last node of its proof contains instead of its hash, if there is one.
func (w *world) embedded(key []byte) []byte {
	nodes := w.prove(key)
	if len(nodes) == 0 {
		return nil
	}
	pos := 0
	for _, b := range nodes[:len(nodes)-1] {
		if n := parseNode(b); n.kind == 0 {
			pos++
		} else {
			pos += len(n.path)
		}
	}
	var items []rlp.RawValue
	if err := rlp.DecodeBytes(nodes[len(nodes)-1], &items); err != nil {
		panic(err)
	}
	if len(items) == 17 && pos < 2*len(key) {
		if it := items[nibs(key)[pos]]; it[0] > 0xc0 {
			return it
		}
	}
	return nil
}

func rbytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func nibs(b []byte) []byte {
	out := make([]byte, 0, 2*len(b))
	for _, x := range b {
		out = append(out, x>>4, x&15)
	}
	return out
}

func unnibs(n []byte) []byte {
	out := make([]byte, len(n)/2)
	for i := range out {
		out[i] = n[2*i]<<4 | n[2*i+1]
	}
	return out
}

// genKeys makes n keys of size bytes that share prefixes so that branches, extensions of odd and even
// length and deep leaves occur; at most maxShare nibbles are shared.
func genKeys(rng *rand.Rand, n, size, maxShare int) [][]byte {
	var keys [][]byte
	seen := map[string]bool{}
	for len(keys) < n {
		k := nibs(rbytes(rng, size))
		if len(keys) > 0 && rng.Intn(3) > 0 {
			o := nibs(keys[rng.Intn(len(keys))])
			s := rng.Intn(maxShare + 1)
			if rng.Intn(3) == 0 {
				s = rng.Intn(3)
			}
			copy(k[:s], o[:s])
		}
		b := unnibs(k)
		if !seen[string(b)] {
			seen[string(b)] = true
			keys = append(keys, b)
		}
	}
	return keys
}

type nodeInfo struct {
	rlp  []byte
	kind int // 0 branch, 1 extension, 2 leaf
	path []byte
	pre  int // nibbles before the path: 1 odd, 2 even, 0 branch
}

func parseNode(b []byte) nodeInfo {
	n := nodeInfo{rlp: b}
	var items []rlp.RawValue
	if err := rlp.DecodeBytes(b, &items); err != nil {
		panic(err)
	}
	if len(items) == 17 {
		return n
	}
	var p []byte
	if err := rlp.DecodeBytes(items[0], &p); err != nil {
		panic(err)
	}
	x := nibs(p)
	n.kind = 1
	if x[0] >= 2 {
		n.kind = 2
	}
	n.pre = 2
	if x[0]&1 == 1 {
		n.pre = 1
	}
	n.path = x[n.pre:]
	return n
}

// pad applies Keccak padding; returns the nibbles and the index of the last block.
func pad(b []byte) ([]byte, int) {
	m := append([]byte{}, b...)
	n := 136 - len(m)%136
	p := make([]byte, n)
	p[0] ^= 1
	p[n-1] ^= 0x80
	m = append(m, p...)
	return nibs(m), len(m)/136 - 1
}

func fit(n []byte, size int) []byte {
	out := make([]byte, size)
	if copy(out, n) < len(n) {
		return nil
	}
	return out
}

// wit is a full assignment of one of the inclusion gadgets.
type wit struct {
	MaxDepth   int
	Root, Key  []byte // nibbles
	KeyLen     int    // variable-length gadget
	Starts     []int
	Value      []byte
	Leaf       []byte
	LeafRound  int
	LeafPrefix int
	LeafHash   [2][16]byte // variable-length gadget
	Nodes      [][]byte
	Rounds     []int
	Prefix     []int
	Types      []int
	Depth      int
}

func (w *wit) clone() *wit {
	c := *w
	cp := func(b []byte) []byte { return append([]byte{}, b...) }
	ci := func(b []int) []int { return append([]int{}, b...) }
	c.Root, c.Key, c.Value, c.Leaf = cp(w.Root), cp(w.Key), cp(w.Value), cp(w.Leaf)
	c.Starts, c.Rounds, c.Prefix, c.Types = ci(w.Starts), ci(w.Rounds), ci(w.Prefix), ci(w.Types)
	c.Nodes = nil
	for _, n := range w.Nodes {
		c.Nodes = append(c.Nodes, cp(n))
	}
	return &c
}

const nodeSize = 1088

// fixedWit assembles the witness of the fixed-key-length gadgets from proof nodes; nil if it does not fit.
func fixedWit(root common.Hash, key []byte, nodes [][]byte, value []byte, maxDepth, valueSize, leafSize int) *wit {
	if len(nodes) == 0 || len(nodes) > maxDepth {
		return nil
	}
	w := &wit{MaxDepth: maxDepth, Root: nibs(root[:]), Key: nibs(key), Value: fit(nibs(value), valueSize), Depth: len(nodes)}
	if w.Value == nil {
		return nil
	}
	pos := 0
	for i, b := range nodes {
		n := parseNode(b)
		p, round := pad(b)
		w.Starts = append(w.Starts, pos)
		if i == len(nodes)-1 {
			if w.Leaf = fit(p, leafSize); w.Leaf == nil {
				return nil
			}
			w.LeafRound, w.LeafPrefix = round, n.pre
			break
		}
		w.Nodes = append(w.Nodes, fit(p, nodeSize))
		w.Rounds = append(w.Rounds, round)
		w.Prefix = append(w.Prefix, n.pre)
		w.Types = append(w.Types, n.kind&1)
		if n.kind == 0 {
			pos++
		} else {
			pos += len(n.path)
		}
	}
	w.fill(64)
	return w
}

// fill adds the filler layers.
func (w *wit) fill(end int) {
	for len(w.Starts) < w.MaxDepth {
		w.Starts = append(w.Starts, end)
	}
	for len(w.Nodes) < w.MaxDepth-1 {
		w.Nodes = append(w.Nodes, make([]byte, nodeSize))
		w.Rounds = append(w.Rounds, 0)
		w.Prefix = append(w.Prefix, 0)
		w.Types = append(w.Types, 0)
	}
}

func keccakOK(nodes [][]byte, root common.Hash) bool {
	return bytes.Equal(crypto.Keccak256(nodes[0]), root[:])
}
