package main

import (
	"fmt"
	"hash"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	"github.com/consensys/gnark-crypto/ecc"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"golang.org/x/crypto/sha3"
)

// nfield is a native field with its MiMC.
type nfield struct {
	name string
	p    *big.Int
	h    func() hash.Hash
}

var nfields = []nfield{
	{"bn254", ecc.BN254.ScalarField(), func() hash.Hash { return mimc254.NewMiMC() }},
	{"bls12-377", ecc.BLS12_377.ScalarField(), func() hash.Hash { return mimc377.NewMiMC() }},
}

func (f nfield) hash(xs ...*big.Int) *big.Int {
	h := f.h()
	for _, x := range xs {
		buf := make([]byte, h.BlockSize())
		new(big.Int).Mod(x, f.p).FillBytes(buf)
		if _, err := h.Write(buf); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// tree returns all levels, leaves first.
func tree(leaves []*big.Int, h func(a, b *big.Int) *big.Int) [][]*big.Int {
	out := [][]*big.Int{leaves}
	for len(leaves) > 1 {
		var up []*big.Int
		for i := 0; i < len(leaves); i += 2 {
			up = append(up, h(leaves[i], leaves[i+1]))
		}
		leaves = up
		out = append(out, up)
	}
	return out
}

// path returns the siblings and directions (1: the node is a right child) of a leaf.
func path(levels [][]*big.Int, i int) (sib []*big.Int, dir []int) {
	for _, l := range levels[:len(levels)-1] {
		sib, dir = append(sib, l[i^1]), append(dir, i&1)
		i /= 2
	}
	return
}

func keccak(b ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func keccakBits(b []byte) (out []int) { // little-endian within bytes
	for _, x := range b {
		for j := 0; j < 8; j++ {
			out = append(out, int(x>>j&1))
		}
	}
	return
}

// walk is the reference for path gadgets with arbitrary directions.
func walk(h func(a, b *big.Int) *big.Int, v *big.Int, sib []*big.Int, dir []int) *big.Int {
	for i := range sib {
		if dir[i] == 1 {
			v = h(sib[i], v)
		} else {
			v = h(v, sib[i])
		}
	}
	return v
}

func other(rng *rand.Rand, x, p *big.Int) *big.Int {
	d := new(big.Int).Rand(rng, new(big.Int).Sub(p, big.NewInt(1)))
	if rng.Intn(2) == 0 {
		d.SetInt64(0)
	}
	d.Add(d, big.NewInt(1)).Add(d, x)
	return d.Mod(d, p)
}

func c19(r *vm.R) {
	var jobs []func()
	add := func(key string, f func(key string, rng *rand.Rand)) {
		jobs = append(jobs, func() { r.Case(key, key, func() { f(key, r.Rand(key)) }) })
	}
	// Keccak roots
	for d := 0; d <= r.N(3, 5); d++ {
		for rep := 0; rep < r.N(3, 8); rep++ {
			d := d
			add(fmt.Sprintf("keccak/%d/%d", d, rep), func(key string, rng *rand.Rand) {
				leaves := make([][]byte, 1<<d)
				var in []int
				for i := range leaves {
					leaves[i] = make([]byte, 32)
					if rng.Intn(5) > 0 {
						rng.Read(leaves[i])
					}
					if i > 0 && rng.Intn(6) == 0 {
						copy(leaves[i], leaves[i-1])
					}
					in = append(in, keccakBits(leaves[i])...)
				}
				info := fmt.Sprintf("%x", leaves)
				out, err := vm.Run(vm.BN254, vm.V(in), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					ls := make([][256]frontend.Variable, len(in)/256)
					for i := range ls {
						copy(ls[i][:], in[256*i:])
					}
					o := merkle.KeccakMerkleRoot(api, ls)
					return o[:]
				})
				for len(leaves) > 1 {
					var up [][]byte
					for i := 0; i < len(leaves); i += 2 {
						up = append(up, keccak(leaves[i], leaves[i+1]))
					}
					leaves = up
				}
				r.Eval("keccak root", info)
				if r.Expect(err == nil, key, info, "unsatisfiable: %v", err) {
					r.Expect(fmt.Sprint(vm.Ints(out)) == fmt.Sprint(keccakBits(leaves[0])), key, info, "wrong root, want %x", leaves[0])
				}
			})
		}
	}
	for _, n := range []int{0, 3, 5, 6, 7} {
		n := n
		add(fmt.Sprintf("keccak/size%d", n), func(key string, rng *rand.Rand) {
			_, err := vm.Run(vm.BN254, vm.V(make([]int, 256*n+1)), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ls := make([][256]frontend.Variable, n)
				for i := range ls {
					copy(ls[i][:], in[256*i:])
				}
				o := merkle.KeccakMerkleRoot(api, ls)
				return o[:]
			})
			r.Eval("refused size", key)
			r.Expect(err != nil, key, n, "a tree of %d leaves was accepted", n)
		})
	}
	// emulated MiMC roots and paths
	for _, f := range hfields {
		f := f
		mod, nb, bits := f.dims()
		h := func(a, b *big.Int) *big.Int { return nhash(f, a, b) }
		for d := 0; d <= r.N(3, 5); d++ {
			for rep := 0; rep < r.N(2, 4); rep++ {
				d, rep := d, rep
				mk := func(rng *rand.Rand) []*big.Int {
					leaves := make([]*big.Int, 1<<d)
					for i := range leaves {
						leaves[i] = elem(rng, mod, false)
					}
					return leaves
				}
				add(fmt.Sprintf("emulated root/%s/%d/%d", f.name(), d, rep), func(key string, rng *rand.Rand) {
					leaves := mk(rng)
					levels := tree(leaves, h)
					want := new(big.Int).Mod(levels[d][0], mod)
					out, err := vm.Run(natives[rep%len(natives)], limbVars(leaves, nb, bits), f.root)
					r.Eval("emulated root", key)
					if r.Expect(err == nil, key, vm.Str(leaves), "unsatisfiable: %v", err) {
						r.Expect(ints(out, mod, nb, bits)[0].Cmp(want) == 0, key, vm.Str(leaves), "root %v, want %v", ints(out, mod, nb, bits), want)
					}
				})
				add(fmt.Sprintf("emulated path/%s/%d/%d", f.name(), d, rep), func(key string, rng *rand.Rand) {
					leaves := mk(rng)
					levels := tree(leaves, h)
					i := rng.Intn(len(leaves))
					sib, dir := path(levels, i)
					run := func(kind string, leaf *big.Int, sib []*big.Int, dir []int) *big.Int {
						info := map[string]any{"leaf": leaf.String(), "siblings": vm.Str(sib), "directions": dir}
						in := append(vm.V(dir), limbVars(append([]*big.Int{leaf}, sib...), nb, bits)...)
						out, err := vm.Run(natives[rep%len(natives)], in, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return f.restore(api, d, in) })
						want := new(big.Int).Mod(walk(h, leaf, sib, dir), mod)
						r.Eval("emulated path "+kind, fmt.Sprint(key, kind))
						if !r.Expect(err == nil, key+"/"+kind, info, "unsatisfiable: %v", err) {
							return nil
						}
						got := ints(out, mod, nb, bits)[0]
						r.Expect(got.Cmp(want) == 0, key+"/"+kind, info, "root %v, want %v", got, want)
						return got
					}
					root := run("valid", leaves[i], sib, dir)
					want := new(big.Int).Mod(levels[d][0], mod)
					r.Expect(root == nil || root.Cmp(want) == 0, key, i, "path of leaf %d gives %v, the tree's root is %v", i, root, want)
					if d == 0 {
						return
					}
					k := rng.Intn(d)
					bad := append([]int(nil), dir...)
					bad[k] ^= 1
					run("direction", leaves[i], sib, bad)
					s2 := append([]*big.Int(nil), sib...)
					s2[k] = other(rng, s2[k], mod)
					run("sibling", leaves[i], s2, dir)
					run("leaf", other(rng, leaves[i], mod), sib, dir)
					bad[k] = 2 + rng.Intn(9)
					in := append(vm.V(bad), limbVars(append([]*big.Int{leaves[i]}, sib...), nb, bits)...)
					out, err := vm.Run(natives[rep%len(natives)], in, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return f.restore(api, d, in) })
					r.Eval("non-boolean direction", key)
					r.Expect(err != nil, key+"/nonbool", bad, "directions %v gave a root %v", bad, out)
					for _, nd := range []int{d - 1, d + 1} {
						nd := nd
						dirs := append(append([]int(nil), dir...), 0)[:nd]
						in := append(vm.V(dirs), limbVars(append([]*big.Int{leaves[i]}, sib...), nb, bits)...)
						out, err := vm.Run(natives[rep%len(natives)], in, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return f.restore(api, nd, in) })
						r.Eval("direction count", fmt.Sprint(key, nd))
						r.Expect(err != nil, key+"/count", nd, "%d directions for %d siblings gave a root %v", nd, d, out)
					}
				})
			}
		}
	}
	// native MiMC paths
	for _, f := range nfields {
		f := f
		h := func(a, b *big.Int) *big.Int { return f.hash(a, b) }
		for d := 0; d <= r.N(5, 7); d++ {
			for i := 0; i < 1<<d; i++ {
				for _, hashed := range []bool{true, false} {
					d, i, hashed := d, i, hashed
					add(fmt.Sprintf("path/%s/%d/%d/%v", f.name, d, i, hashed), func(key string, rng *rand.Rand) {
						leaves := make([]*big.Int, 1<<d)
						nodes := make([]*big.Int, 1<<d)
						for k := range leaves {
							leaves[k] = elem(rng, f.p, true)
							nodes[k] = leaves[k]
							if !hashed {
								nodes[k] = f.hash(leaves[k])
							}
						}
						levels := tree(nodes, h)
						sib, dir := path(levels, i)
						spare := rng.Intn(3) // more directions than siblings are ignored
						fn := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
							m, err := mimc.NewMiMC(api)
							if err != nil {
								panic("harness: " + err.Error())
							}
							if rng.Intn(2) == 0 {
								m.Write(in[0]) // data left in the hasher must not matter
							}
							g := merkle.MerkleRootBasedOnMiMCHash
							if hashed {
								g = merkle.MerkleRootWithLeaveHash
							}
							return one(g(api, m, in[0], in[1+d:1+d+d+spare], in[1:1+d]))
						}
						run := func(leaf *big.Int, sib []*big.Int, dir []int) ([]*big.Int, error) {
							in := append(append(vm.V([]*big.Int{leaf}), vm.V(sib)...), vm.V(dir)...)
							return vm.Run(f.p, append(in, vm.V(make([]int, spare))...), fn)
						}
						check := func(kind string, leaf *big.Int, sib []*big.Int, dir []int, same bool) {
							info := map[string]any{"leaf": leaf.String(), "siblings": vm.Str(sib), "directions": dir}
							out, err := run(leaf, sib, dir)
							r.Eval("path "+kind, fmt.Sprint(key, kind))
							if !r.Expect(err == nil, key+"/"+kind, info, "unsatisfiable: %v", err) {
								return
							}
							v := leaf
							if !hashed {
								v = f.hash(leaf)
							}
							want := walk(h, v, sib, dir)
							r.Expect(out[0].Cmp(want) == 0, key+"/"+kind, info, "root %v, want %v", out[0], want)
							r.Expect((want.Cmp(levels[d][0]) == 0) == same, key+"/"+kind, info, "harness: reference inconsistent")
						}
						check("valid", leaves[i], sib, dir, true)
						if d == 0 {
							return
						}
						check("leaf", other(rng, leaves[i], f.p), sib, dir, false)
						k := rng.Intn(d)
						s2 := append([]*big.Int(nil), sib...)
						s2[k] = other(rng, s2[k], f.p)
						check("sibling", leaves[i], s2, dir, false)
						d2 := append([]int(nil), dir...)
						d2[k] ^= 1
						node := walk(h, nodes[i], sib[:k], dir[:k])
						check("direction", leaves[i], sib, d2, node.Cmp(sib[k]) == 0)
						d2[k] = []int{2, 3, -1, 100}[rng.Intn(4)]
						out, err := run(leaves[i], sib, d2)
						r.Eval("non-boolean direction", key)
						r.Expect(err != nil, key+"/nonbool", d2, "directions %v gave root %v", d2, out)
					})
				}
			}
		}
	}
	vm.Par(len(jobs), 8, func(i int) { jobs[i]() })
}

func one(v frontend.Variable) []frontend.Variable { return []frontend.Variable{v} }

func c20(r *vm.R) {
	var jobs []func()
	for _, f := range nfields {
		for d := 0; d <= 18; d++ {
			for v := 0; v <= 3; v++ {
				for rep := 0; rep < r.N(3, 12); rep++ {
					f, d, v := f, d, v
					key := fmt.Sprintf("%s/%d/%d/%d", f.name, d, v, rep)
					jobs = append(jobs, func() { r.Case(key, key, func() { smtCase(r, key, f, d, v) }) })
				}
			}
		}
	}
	vm.Par(len(jobs), 8, func(i int) { jobs[i]() })
}

func smtCase(r *vm.R, key string, f nfield, d, v int) {
	rng := r.Rand(key)
	h := func(a, b *big.Int) *big.Int { return f.hash(a, b) }
	rv := func(n int) (out []*big.Int) {
		for i := 0; i < n; i++ {
			out = append(out, elem(rng, f.p, true))
		}
		return
	}
	bitsOf := func(n int) (out []int) {
		for i := 0; i < n; i++ {
			out = append(out, rng.Intn(2))
		}
		return
	}
	parts, pdir := rv(v+1), bitsOf(v)
	sib, dir := rv(d), bitsOf(d)
	// default (empty) siblings are the usual case in a sparse tree: a chain of hashes of zero
	if rng.Intn(2) == 0 {
		z := f.hash(big.NewInt(0))
		for i := range sib {
			if rng.Intn(3) > 0 {
				sib[i] = z
			}
			z = h(z, z)
		}
	}
	value := func(parts []*big.Int, pdir []int) *big.Int { return walk(h, f.hash(parts[0]), parts[1:], pdir) }
	rootOf := func(parts []*big.Int, pdir []int, sib []*big.Int, dir []int) *big.Int {
		return walk(h, f.hash(value(parts, pdir)), sib, dir)
	}
	root := rootOf(parts, pdir, sib, dir)
	check := func(kind string, parts []*big.Int, pdir []int, sib []*big.Int, dir []int, root *big.Int) {
		var in []frontend.Variable
		in = append(in, vm.V(parts)...)
		in = append(in, vm.V(pdir)...)
		in = append(in, vm.V(dir)...)
		in = append(in, vm.V(sib)...)
		in = append(in, root)
		nonbool := false
		for _, x := range append(append([]int(nil), pdir...), dir...) {
			nonbool = nonbool || x != 0 && x != 1
		}
		out, err := vm.Run(f.p, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			m, err := mimc.NewMiMC(api)
			if err != nil {
				panic("harness: " + err.Error())
			}
			p, pd, di, sb := in[:v+1], in[v+1:2*v+1], in[2*v+1:2*v+1+d], in[2*v+1+d:2*v+1+2*d]
			lv := smt.CalculateLeafValueHash(api, m, p, pd)
			return []frontend.Variable{smt.CheckSMTInclusion(api, m, d, p, pd, di, sb, in[len(in)-1]), lv}
		})
		info := map[string]any{"parts": vm.Str(parts), "partDirections": pdir, "siblings": vm.Str(sib), "directions": dir, "root": root.String()}
		r.Eval("inclusion "+kind, fmt.Sprint(key, kind))
		if nonbool {
			r.Expect(err != nil, key+"/"+kind, info, "a non-boolean direction was accepted: %v", out)
			return
		}
		if !r.Expect(err == nil, key+"/"+kind, info, "unsatisfiable: %v", err) {
			return
		}
		want := int64(0)
		if rootOf(parts, pdir, sib, dir).Cmp(new(big.Int).Mod(root, f.p)) == 0 {
			want = 1
		}
		r.Count(fmt.Sprintf("flag %d expected", want), 1)
		r.Expect(out[0].Cmp(big.NewInt(want)) == 0, key+"/"+kind, info, "inclusion flag %v, want %d", out[0], want)
		lv := value(parts, pdir)
		r.Expect(out[1].Cmp(lv) == 0, key+"/"+kind, info, "leaf value hash %v, want %v", out[1], lv)
	}
	set := func(xs []*big.Int, i int) []*big.Int {
		c := append([]*big.Int(nil), xs...)
		c[i] = other(rng, c[i], f.p)
		return c
	}
	seti := func(xs []int, i, v int) []int {
		c := append([]int(nil), xs...)
		c[i] = v
		return c
	}
	// a count that does not match is refused: a part without a direction, a direction without a part, a sibling
	// without a direction
	for _, c := range [][3]int{{v, v - 1, d}, {v, v + 1, d}, {v, v, d - 1}} {
		np, nd := c[1], c[2]
		if np < 0 || nd < 0 {
			continue
		}
		in := append(vm.V(parts), vm.V(append(append([]int(nil), pdir...), rng.Intn(2))[:np])...)
		in = append(append(append(in, vm.V(dir[:nd])...), vm.V(sib)...), root)
		out, err := vm.Run(f.p, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			m, err := mimc.NewMiMC(api)
			if err != nil {
				panic("harness: " + err.Error())
			}
			p, in := in[:v+1], in[v+1:]
			pd, in := in[:np], in[np:]
			di, in := in[:nd], in[nd:]
			return one(smt.CheckSMTInclusion(api, m, d, p, pd, di, in[:d], in[d]))
		})
		r.Eval("inclusion counts", fmt.Sprint(key, c))
		r.Expect(err != nil, key+"/counts", fmt.Sprint(c), "%d parts with %d directions and %d siblings with %d directions give the flag %v", v, np, d, nd, out)
	}
	check("valid", parts, pdir, sib, dir, root)
	check("root", parts, pdir, sib, dir, other(rng, root, f.p))
	check("root complement", parts, pdir, sib, dir, new(big.Int).Sub(f.p, root))
	check("zero root", parts, pdir, sib, dir, big.NewInt(0))
	check("leaf value for root", parts, pdir, sib, dir, f.hash(value(parts, pdir)))
	check("leaf part", set(parts, rng.Intn(v+1)), pdir, sib, dir, root)
	if v > 0 {
		i := rng.Intn(v)
		check("part direction", parts, seti(pdir, i, 1-pdir[i]), sib, dir, root)
		check("part direction value", parts, seti(pdir, i, 2+rng.Intn(3)), sib, dir, root)
	}
	if d > 0 {
		i := rng.Intn(d)
		check("sibling", parts, pdir, set(sib, i), dir, root)
		check("position", parts, pdir, sib, seti(dir, i, 1-dir[i]), root)
		check("position value", parts, pdir, sib, seti(dir, i, 2+rng.Intn(3)), root)
		check("top sibling", parts, pdir, set(sib, d-1), dir, root)
	}
}
