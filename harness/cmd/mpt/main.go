// Monitors of the Merkle-Patricia gadgets: C08 completeness, C09 soundness, C10 non-existence, C11 transaction tries.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/celer-network/goutils/log"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
)

func main() {
	log.SetLevel(log.ErrorLevel)
	vm.Main(map[string]vm.Spec{
		"C08": {Run: c08, Rule: "one evaluation = one valid proof of a present key from a generated trie run through an inclusion gadget; non-trivial = distinct (gadget, depth configuration, root, key); oracle: go-ethereum trie and the values inserted into it"},
		"C09": {Run: c09, Rule: "one evaluation = one corrupted proof run through an inclusion gadget; non-trivial = distinct witnesses; oracle: the ground-truth map behind the trie - whatever is accepted must be a true (root, key, value) claim and the outputs those of that claim", Level: "fault_enumeration"},
		"C10": {Run: c10, Rule: "one evaluation = one exclusion proof (valid, forged for a present key, or with a non-zero value) run through the storage gadget; non-trivial = distinct witnesses; oracle: the ground-truth map behind the trie"},
		"C11": {Run: c11, Rule: "one evaluation = one transaction/receipt trie proof (valid or corrupted) run through the variable-key gadget; non-trivial = distinct (block, index, corruption); oracle: go-ethereum trie of the block"},
	})
}

type account struct {
	Nonce    uint64
	Balance  *big.Int
	Root     common.Hash
	CodeHash common.Hash
}

func genAccount(rng *rand.Rand) []byte {
	a := account{Nonce: rng.Uint64() >> uint(rng.Intn(65)), Balance: new(big.Int).SetBytes(rbytes(rng, rng.Intn(13)))}
	switch rng.Intn(5) {
	case 0:
		a.Nonce, a.Balance = 0, new(big.Int)
	case 1:
		a.Nonce, a.Balance = 0x7f+uint64(rng.Intn(3)), big.NewInt(0x7f+int64(rng.Intn(3)))
	case 2:
		a.Balance = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 96), big.NewInt(1))
	}
	rng.Read(a.Root[:])
	rng.Read(a.CodeHash[:])
	if rng.Intn(4) == 0 {
		a.Root[0], a.CodeHash[0] = 0, 0
	}
	b, err := rlp.EncodeToBytes(&a)
	if err != nil {
		panic(err)
	}
	return b
}

func genSlot(rng *rand.Rand) []byte {
	var v []byte
	switch rng.Intn(7) {
	case 0:
		v = []byte{byte(1 + rng.Intn(255))}
	case 1:
		v = []byte{[]byte{1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xff}[rng.Intn(7)]}
	case 2:
		v = rbytes(rng, 32)
	case 3:
		v = rbytes(rng, 31)
	default:
		v = rbytes(rng, 1+rng.Intn(32))
	}
	for v[0] == 0 {
		v[0] = byte(rng.Intn(256))
	}
	if len(v) == 32 && rng.Intn(3) == 0 {
		v[0] = 1
	}
	b, _ := rlp.EncodeToBytes(v)
	return b
}

// shape classes: number of keys and shared nibbles
func genWorld(rng *rand.Rand, acct bool) *world {
	n := []int{1, 2, 2, 3, 5, 8, 20, 60, 150}[rng.Intn(9)]
	share := []int{1, 4, 7, 12, 20}[rng.Intn(5)]
	vals := map[string][]byte{}
	for _, k := range genKeys(rng, n, 32, share) {
		if acct {
			vals[string(k)] = genAccount(rng)
		} else {
			vals[string(k)] = genSlot(rng)
		}
	}
	w := newWorld(vals)
	for again := true; again; { // leaves of less than 32 bytes are met by embedded and embeddedWorld
		again = false
		for _, k := range w.keys {
			if w.embedded([]byte(k)) != nil {
				vals[k], again = append([]byte{0xa0, 1}, rbytes(rng, 31)...), true
			}
		}
		if again {
			w = newWorld(vals)
		}
	}
	return w
}

// embeddedWorld holds two or three keys that share many nibbles and small values, so that their leaves have less than 32 bytes
// and are kept inside the branch above them (as in large storage tries: 8 shared nibbles are enough).
func embeddedWorld(rng *rand.Rand) *world {
	share := 8 + rng.Intn(12)
	a := nibs(rbytes(rng, 32))
	vals := map[string][]byte{}
	for j := 0; j < 2+rng.Intn(2); j++ {
		k := append(append([]byte{}, a[:share]...), rbytesNib(rng, 64-share)...)
		k[share] = byte(5*j + rng.Intn(5))
		vals[string(unnibs(k))] = []byte{byte(1 + rng.Intn(127))}
	}
	vals[string(rbytes(rng, 32))] = genSlot(rng)
	return newWorld(vals)
}

// embeddedLeaves runs the proofs of an embedded world: key tells which check asks.
func embeddedLeaves(r *vm.R, absent bool) {
	vm.Par(r.N(2, 40), 0, func(i int) {
		rng := r.Rand(fmt.Sprintf("embedded/%d", i))
		var w *world
		var k, leaf []byte
		for leaf == nil {
			w = embeddedWorld(rng)
			k = []byte(w.keys[rng.Intn(len(w.keys))])
			leaf = w.embedded(k)
			if absent && leaf != nil {
				x := nibs(k)
				x[63] ^= 1
				k = unnibs(x)
			}
		}
		nodes := append(w.prove(k), leaf)
		value := []byte{0x80}
		if !absent {
			value = w.vals[string(k)]
		}
		wt := fixedWit(w.root, k, nodes, value, len(nodes), 66, 272)
		in := input(wt, false)
		r.Case("embedded-leaf", in, func() {
			out, err := wt.run(storageGadget(len(nodes), 272), false)
			r.Eval("embedded/"+shape(nodes), fmt.Sprint(w.root, k))
			if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate("embedded-leaf", in, "a proof that ends in a leaf of less than 32 bytes (%s) is not accepted: %v", shape(nodes), err)
				return
			}
			if e := storageOutputs(out, value); e != "" {
				r.Violate("embedded-leaf/value", in, "%s", e)
			}
		})
	})
}

func shape(nodes [][]byte) (s string) {
	for _, b := range nodes {
		n := parseNode(b)
		s += []string{"B", "E", "L"}[n.kind]
		if n.kind != 0 {
			s += []string{"e", "o"}[len(n.path)&1]
		}
	}
	return
}

func slotOf(valueRlp []byte) (lo, hi *big.Int) {
	var v []byte
	if err := rlp.DecodeBytes(valueRlp, &v); err != nil {
		return nil, nil
	}
	if len(v) == 32 {
		return new(big.Int).SetBytes(v[1:]), big.NewInt(int64(v[0]))
	}
	return new(big.Int).SetBytes(v), new(big.Int)
}

func input(w *wit, variable bool) map[string]any {
	m := map[string]any{"root": fmt.Sprintf("%x", w.Root), "key": fmt.Sprintf("%x", w.Key), "starts": w.Starts, "rounds": w.Rounds,
		"prefix": w.Prefix, "types": w.Types, "depth": w.Depth, "max_depth": w.MaxDepth}
	var ns []string
	for _, n := range w.Nodes {
		ns = append(ns, fmt.Sprintf("%x", bytes.TrimRight(n, "\x00")))
	}
	m["nodes_nibbles"] = ns
	if variable {
		m["key_len"], m["leaf_hash"] = w.KeyLen, vm.Hex(append(w.LeafHash[0][:], w.LeafHash[1][:]...))
	} else {
		m["value"], m["leaf_nibbles"], m["leaf_round"], m["leaf_prefix"] = fmt.Sprintf("%x", w.Value), fmt.Sprintf("%x", bytes.TrimRight(w.Leaf, "\x00")), w.LeafRound, w.LeafPrefix
	}
	return m
}

// checkStorage compares an accepted storage run with the value.
// edgeWorld holds the longest leaves: the whole key (or all but a nibble or two) and the longest value.
func edgeWorld(rng *rand.Rand, acct bool, n int) *world {
	vals := map[string][]byte{}
	for j, k := range genKeys(rng, 1+n, 32, 1) {
		v := rbytes(rng, 32)
		v[0] |= 1
		b, _ := rlp.EncodeToBytes(v)
		if acct {
			a := account{Nonce: math.MaxUint64 - uint64(j), Balance: new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 96), big.NewInt(1))}
			rng.Read(a.Root[:])
			rng.Read(a.CodeHash[:])
			b, _ = rlp.EncodeToBytes(&a)
		}
		vals[string(k)] = b
	}
	return newWorld(vals)
}

func storageOutputs(out []*big.Int, value []byte) string {
	lo, hi := slotOf(value)
	if lo == nil {
		return "the value is not the RLP encoding of a slot"
	}
	if out[1].Cmp(lo) != 0 || out[2].Cmp(hi) != 0 {
		return fmt.Sprintf("slot value (%v,%v) want (%v,%v)", out[1], out[2], lo, hi)
	}
	if out[3].Cmp(big.NewInt(int64(2*len(value)-2))) != 0 {
		return fmt.Sprintf("value length %v want %d", out[3], 2*len(value)-2)
	}
	return ""
}

func accountOutputs(out []*big.Int, value []byte) string {
	var a account
	if err := rlp.DecodeBytes(value, &a); err != nil {
		return "the value is not an account: " + err.Error()
	}
	nonce := nibs(new(big.Int).SetUint64(a.Nonce).Bytes())
	bal := nibs(a.Balance.Bytes())
	if out[1].Int64() != int64(len(nonce)) || out[2].Int64() != int64(len(bal)) {
		return fmt.Sprintf("nonce/balance lengths %v %v want %d %d", out[1], out[2], len(nonce), len(bal))
	}
	eq := func(name string, at int, want []byte) string {
		for i, x := range want {
			if out[at+i].Cmp(big.NewInt(int64(x))) != 0 {
				return fmt.Sprintf("%s nibble %d is %v want %d", name, i, out[at+i], x)
			}
		}
		return ""
	}
	for _, m := range []string{eq("storage root", 3, nibs(a.Root[:])), eq("code hash", 67, nibs(a.CodeHash[:])), eq("nonce", 131, nonce), eq("balance", 195, bal)} {
		if m != "" {
			return m
		}
	}
	return ""
}

func c08(r *vm.R) {
	n := r.N(54, 2500)
	vm.Par(n, 0, func(i int) {
		acct := i%3 == 0
		name := "storage"
		if acct {
			name = "account"
		}
		key := fmt.Sprintf("%s/%d", name, i)
		rng := r.Rand(key)
		w := genWorld(rng, acct)
		if i < 9 {
			w = edgeWorld(rng, acct, i/3)
		}
		k := []byte(w.keys[rng.Intn(len(w.keys))])
		nodes := w.prove(k)
		for t := 0; t < 6 && len(nodes) < 2+i%4; t++ { // prefer deeper ones
			k = []byte(w.keys[rng.Intn(len(w.keys))])
			nodes = w.prove(k)
		}
		d := len(nodes) + rng.Intn(3)
		if d > 7 || len(nodes) > 6 {
			d = len(nodes)
		}
		if i == n-1 {
			d = 10
		}
		if d > 10 {
			r.Count("deeper_than_supported", 1)
			return
		}
		vs, ls := 66, 272
		if acct {
			vs, ls = 228, 544
		} else if rng.Intn(5) == 0 {
			ls = 1088
		}
		wt := fixedWit(w.root, k, nodes, w.vals[string(k)], d, vs, ls)
		if wt == nil {
			r.Violate(key, vm.Hex(k), "harness: the proof does not fit")
			return
		}
		in := input(wt, false)
		r.Case(key, in, func() {
			g := storageGadget(d, ls)
			if acct {
				g = accountGadget(d, ls)
			}
			out, err := wt.run(g, false)
			s := shape(nodes)
			r.Eval(name+"/"+s, fmt.Sprint(d, ls, w.root, k))
			r.Sample(name, map[string]any{"shape": s, "max_depth": d, "depth": len(nodes), "keys": len(w.keys)})
			if err != nil {
				r.Violate(key, in, "a valid proof (%s, max depth %d) is unsatisfiable: %v", s, d, err)
				return
			}
			if out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate(key, in, "a valid proof (%s, max depth %d) is not accepted (%v)", s, d, out[0])
				return
			}
			m := storageOutputs
			if acct {
				m = accountOutputs
			}
			if e := m(out, w.vals[string(k)]); e != "" {
				r.Violate(key, in, "%s", e)
			}
		})
	})
	composite(r)
	embeddedLeaves(r, false)
}

// truth tells whether the witness's claim (root, key, value) is true of the world; value returned.
func truth(w *world, wt *wit, zero bool) (val []byte, ok bool) {
	if !bytes.Equal(wt.Root, nibs(w.root[:])) {
		return nil, false
	}
	for _, x := range wt.Key {
		if x > 15 {
			return nil, false
		}
	}
	v, present := w.vals[string(unnibs(wt.Key))]
	if !present {
		if zero {
			return []byte{0x80}, true
		}
		return nil, false
	}
	return v, true
}

func c09(r *vm.R) {
	hostileTries(r)
	n := r.N(12, 500)
	vm.Par(n, 0, func(i int) {
		acct := i%4 == 0
		name := "storage"
		if acct {
			name = "account"
		}
		base := fmt.Sprintf("%s/%d", name, i)
		rng := r.Rand(base)
		var w *world
		var k []byte
		var nodes [][]byte
		for t := 0; ; t++ {
			w = genWorld(rng, acct)
			k = []byte(w.keys[rng.Intn(len(w.keys))])
			nodes = w.prove(k)
			if len(nodes) <= 4 && (len(nodes) >= 2 || i%5 == 0) {
				break
			}
		}
		d := len(nodes) + rng.Intn(2)
		vs, ls := 66, 272
		if acct {
			vs, ls = 228, 544
		} else if i%4 == 1 {
			ls = 1088
		}
		valid := fixedWit(w.root, k, nodes, w.vals[string(k)], d, vs, ls)
		g := storageGadget(d, ls)
		if acct {
			g = accountGadget(d, ls)
		}
		for _, m := range corruptions(rng, w, valid, k, nodes, r.N(9, 24), acct) {
			m := m
			key := base + "/" + m.what
			in := input(m.w, false)
			r.Case(key, in, func() {
				out, err := m.w.run(g, false)
				r.Eval("corrupt/"+m.what, fmt.Sprint(m.w))
				if err != nil {
					r.Count("unsatisfiable", 1)
					return
				}
				if out[0].Sign() == 0 {
					r.Count("not_included", 1)
					return
				}
				if out[0].Cmp(big.NewInt(1)) != 0 {
					r.Violate(key, in, "the output is %v", out[0])
					return
				}
				ww := w
				if m.world != nil {
					ww = m.world
				}
				val, ok := truth(ww, m.w, !acct)
				if !ok {
					r.Violate(key, in, "a forged proof (%s of a %s proof) is accepted: the key is not in the trie with that root", m.what, shape(nodes))
					return
				}
				r.Count("accepted_true_claim", 1)
				if acct {
					if e := accountOutputs(out, val); e != "" {
						r.Violate(key, in, "accepted (%s) with wrong outputs: %s", m.what, e)
					}
					return
				}
				lo, hi := slotOf(val)
				if out[1].Cmp(lo) != 0 || out[2].Cmp(hi) != 0 {
					r.Violate(key, in, "a forged proof (%s of a %s proof) is accepted with slot value (%v,%v), the trie holds (%v,%v)", m.what, shape(nodes), out[1], out[2], lo, hi)
				}
			})
		}
	})
}

type corruption struct {
	what  string
	w     *wit
	world *world
}

// corruptions of a valid witness: single components, then multi-component forgeries.
func corruptions(rng *rand.Rand, w *world, valid *wit, k []byte, nodes [][]byte, n int, acct bool) (out []corruption) {
	add := func(what string, f func(c *wit) bool) {
		c := valid.clone()
		if f(c) {
			out = append(out, corruption{what: what, w: c})
		}
	}
	flip := func(b []byte, lo, hi int) {
		i := lo + rng.Intn(hi-lo)
		b[i] = (b[i] + 1 + byte(rng.Intn(15))) & 15
	}
	real := len(nodes)
	single := []func(){
		func() { add("root nibble", func(c *wit) bool { flip(c.Root, 0, 64); return true }) },
		func() {
			add("last root nibble", func(c *wit) bool { flip(c.Root, 63, 64); return true })
		},
		func() { add("key nibble", func(c *wit) bool { flip(c.Key, 0, 64); return true }) },
		func() {
			add("key nibble of the leaf path", func(c *wit) bool {
				if c.Starts[real-1] >= 64 {
					return false
				}
				flip(c.Key, c.Starts[real-1], 64)
				return true
			})
		},
		func() { add("last key nibble", func(c *wit) bool { flip(c.Key, 63, 64); return true }) },
		func() {
			add("value nibble", func(c *wit) bool {
				l := 2 * len(w.vals[string(k)])
				flip(c.Value, 0, l)
				return true
			})
		},
		func() {
			add("other value", func(c *wit) bool {
				v := genSlot(rng)
				if acct {
					v = genAccount(rng)
				}
				if bytes.Equal(v, w.vals[string(k)]) {
					return false
				}
				c.Value = fit(nibs(v), len(c.Value))
				return true
			})
		},
		func() {
			add("last value nibble", func(c *wit) bool {
				l := 2 * len(w.vals[string(k)])
				flip(c.Value, l-1, l)
				return true
			})
		},
		func() {
			add("value claimed zero", func(c *wit) bool {
				c.Value = fit([]byte{8, 0}, len(c.Value))
				return true
			})
		},
		func() {
			add("node byte", func(c *wit) bool {
				if real < 2 {
					return false
				}
				j := rng.Intn(real - 1)
				flip(c.Nodes[j], 0, 2*len(nodes[j]))
				return true
			})
		},
		func() {
			add("leaf byte", func(c *wit) bool { flip(c.Leaf, 0, 2*len(nodes[real-1])); return true })
		},
		func() {
			add("leaf value byte and value", func(c *wit) bool {
				// a consistent change of value in the leaf and the claim
				l := 2 * len(nodes[real-1])
				vl := 2 * len(w.vals[string(k)])
				i := 1 + rng.Intn(vl)
				if vl > 8 && i > vl-4 {
					i = 1 + rng.Intn(vl-4)
				}
				x := byte(1 + rng.Intn(15))
				c.Leaf[l-i] ^= x
				c.Value[vl-i] ^= x
				return true
			})
		},
		func() {
			add("node type", func(c *wit) bool {
				if real < 2 {
					return false
				}
				c.Types[rng.Intn(real-1)] ^= 1
				return true
			})
		},
		func() {
			add("fragment start", func(c *wit) bool {
				j := rng.Intn(real)
				c.Starts[j] += []int{1, -1, 2, 60}[rng.Intn(4)]
				return c.Starts[j] >= 0
			})
		},
		func() {
			add("depth", func(c *wit) bool {
				c.Depth += []int{1, -1}[rng.Intn(2)]
				return true
			})
		},
		func() {
			add("path prefix length", func(c *wit) bool {
				j := rng.Intn(real)
				if j < real-1 {
					c.Prefix[j] = (c.Prefix[j] + 1 + rng.Intn(2)) % 3
				} else {
					c.LeafPrefix = (c.LeafPrefix + 1 + rng.Intn(2)) % 3
				}
				return true
			})
		},
		func() {
			add("node round", func(c *wit) bool {
				if real < 2 {
					return false
				}
				j := rng.Intn(real - 1)
				c.Rounds[j] = (c.Rounds[j] + 1) % 4
				return true
			})
		},
		func() { add("leaf round", func(c *wit) bool { c.LeafRound++; return true }) },
	}
	// multi-component forgeries
	forge := []func(){
		func() { // an own leaf for the key under the real root, claimed depth 1
			add("own leaf at depth 1", func(c *wit) bool {
				v := ownValue(rng, acct)
				leaf := leafNode(nibs(k), v)
				p, round := pad(leaf)
				c.Leaf, c.LeafRound, c.LeafPrefix, c.Depth = fit(p, len(c.Leaf)), round, 2, 1
				c.Value = fit(nibs(v), len(c.Value))
				for i := range c.Starts {
					c.Starts[i] = 0
					if i > 0 {
						c.Starts[i] = 64
					}
				}
				return c.Leaf != nil
			})
		},
		func() { // an own leaf in the real leaf's place
			add("own leaf below the real path", func(c *wit) bool {
				v := ownValue(rng, acct)
				path := nibs(k)[c.Starts[real-1]:]
				p, round := pad(leafNode(path, v))
				c.Leaf, c.LeafRound, c.LeafPrefix = fit(p, len(c.Leaf)), round, 2-len(path)&1
				c.Value = fit(nibs(v), len(c.Value))
				return c.Leaf != nil
			})
		},
		func() { // skip leading nibbles: the same tail under another head
			add("other first nibbles with a late start", func(c *wit) bool {
				s := 1 + rng.Intn(3)
				nk := append(append([]byte{}, rbytesNib(rng, s)...), nibs(k)[:64-s]...)
				path := append([]byte{}, nk[s:]...)
				// the proof of an own single-leaf trie entered at nibble s
				v := ownValue(rng, acct)
				p, round := pad(leafNode(path, v))
				h := crypto.Keccak256Hash(leafNode(path, v))
				c.Key, c.Root = nk, nibs(h[:])
				c.Leaf, c.LeafRound, c.LeafPrefix, c.Depth = fit(p, len(c.Leaf)), round, 2-len(path)&1, 1
				c.Value = fit(nibs(v), len(c.Value))
				for i := range c.Starts {
					c.Starts[i] = 64
				}
				c.Starts[0] = s
				return c.Leaf != nil
			})
		},
		func() { // the proof of one key for another key
			add("another key's proof", func(c *wit) bool {
				o := []byte(w.keys[rng.Intn(len(w.keys))])
				if bytes.Equal(o, k) {
					o = rbytes(rng, 32)
				}
				c.Key = nibs(o)
				return true
			})
		},
		func() { // own trie holding another value, real root
			add("own trie, real root", func(c *wit) bool {
				vals := map[string][]byte{}
				for a, b := range w.vals {
					vals[a] = b
				}
				v := ownValue(rng, acct)
				vals[string(k)] = v
				o := newWorld(vals)
				f := fixedWit(w.root, k, o.prove(k), v, c.MaxDepth, len(c.Value), len(c.Leaf))
				if f == nil {
					return false
				}
				*c = *f
				return true
			})
		},
		func() { // lower part of an own trie below the real upper part
			add("own lower nodes below the real upper nodes", func(c *wit) bool {
				if real < 2 {
					return false
				}
				vals := map[string][]byte{}
				for a, b := range w.vals {
					vals[a] = b
				}
				v := ownValue(rng, acct)
				vals[string(k)] = v
				f := fixedWit(w.root, k, newWorld(vals).prove(k), v, c.MaxDepth, len(c.Value), len(c.Leaf))
				if f == nil || f.Depth != c.Depth {
					return false
				}
				cut := 1 + rng.Intn(real-1)
				for i := 0; i < cut; i++ {
					f.Nodes[i], f.Rounds[i], f.Types[i], f.Prefix[i] = c.Nodes[i], c.Rounds[i], c.Types[i], c.Prefix[i]
				}
				*c = *f
				return true
			})
		},
		func() { // own upper node without the right reference; the real node is moved into the filler
			add("own root node", func(c *wit) bool {
				if real < 2 {
					return false
				}
				// swap in a branch holding the child's hash at every slot, with its hash as the root of nobody
				p, round := pad(branchOf(crypto.Keccak256(nodes[1])))
				c.Nodes[0], c.Rounds[0], c.Types[0] = fit(p, nodeSize), round, 0
				return true
			})
		},
		func() { // wrong nibble at a branch: walk the child of another nibble
			add("sibling's subtree", func(c *wit) bool {
				if real < 2 {
					return false
				}
				j := rng.Intn(real - 1)
				if c.Types[j] != 0 {
					return false
				}
				flip(c.Key, c.Starts[j], c.Starts[j]+1)
				return true
			})
		},
		func() { // an extension taken for a branch or the reverse with starts adapted
			add("skipped extension nibbles", func(c *wit) bool {
				for j := 0; j < real-1; j++ {
					if c.Types[j] == 1 {
						l := c.Starts[j+1] - c.Starts[j]
						nk := append([]byte{}, c.Key[:c.Starts[j]]...)
						nk = append(nk, c.Key[c.Starts[j+1]:]...)
						nk = append(nk, rbytesNib(rng, l)...)
						c.Key = nk
						for x := j + 1; x < real; x++ {
							c.Starts[x] -= l
						}
						return true
					}
				}
				return false
			})
		},
		func() { // fragment of the last node moved
			add("shifted leaf fragment", func(c *wit) bool {
				s := c.Starts[real-1]
				c.Key = append(append(append([]byte{}, c.Key[:s]...), byte(rng.Intn(16))), c.Key[s:63]...)
				c.Starts[real-1] = s + 1
				return s+1 < 64
			})
		},
		func() {
			add("value longer than the leaf's", func(c *wit) bool {
				l := 2 * len(w.vals[string(k)])
				if l >= len(c.Value) {
					return false
				}
				for i := l; i < len(c.Value); i++ {
					c.Value[i] = byte(rng.Intn(16))
				}
				return true
			})
		},
		func() {
			add("zero claim with an own leaf of another key", func(c *wit) bool {
				o := nibs(rbytes(rng, 32))
				p, round := pad(leafNode(o, ownValue(rng, acct)))
				c.Leaf, c.LeafRound, c.LeafPrefix, c.Depth = fit(p, len(c.Leaf)), round, 2, 1
				c.Value = fit([]byte{8, 0}, len(c.Value))
				c.Starts[0] = 0
				for i := 1; i < len(c.Starts); i++ {
					c.Starts[i] = 64
				}
				return c.Leaf != nil
			})
		},
	}
	for _, f := range forge {
		f()
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	fl := len(out)
	if fl > n/2 {
		fl = n / 2
	}
	out = out[:fl]
	rng.Shuffle(len(single), func(i, j int) { single[i], single[j] = single[j], single[i] })
	for _, f := range single {
		if len(out) >= n {
			break
		}
		f()
	}
	return out
}

func ownValue(rng *rand.Rand, acct bool) []byte {
	if acct {
		return genAccount(rng)
	}
	return genSlot(rng)
}

func rbytesNib(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rng.Intn(16))
	}
	return b
}

func hp(path []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	if len(path)&1 == 1 {
		return unnibs(append([]byte{f | 1}, path...))
	}
	return unnibs(append([]byte{f, 0}, path...))
}

func leafNode(path, value []byte) []byte {
	b, err := rlp.EncodeToBytes([][]byte{hp(path, true), value})
	if err != nil {
		panic(err)
	}
	return b
}

func extNode(path, ref []byte) []byte {
	b, _ := rlp.EncodeToBytes([][]byte{hp(path, false), ref})
	return b
}

func branchOf(ref []byte) []byte {
	items := make([][]byte, 17)
	for i := 0; i < 16; i++ {
		items[i] = ref
	}
	items[16] = nil
	b, _ := rlp.EncodeToBytes(items)
	return b
}
