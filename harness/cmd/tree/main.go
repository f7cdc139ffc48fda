// Monitors of MiMC, Merkle roots, sparse Merkle trees and header batches (C18, C19, C20, C38).
package main

import (
	"fmt"
	"hash"
	"math/big"
	"math/rand"

	"verifharness/vm"

	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/consensys/gnark-crypto/ecc"
	mimc377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	mimc254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	mimc761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C18": {Run: c18, Level: "exploration", Rule: "random histories of Write, Sum, Reset and Hash over random and boundary elements (0, 1, p-1, p and other unreduced representations) of each emulated field, run in the test engine over two native fields; after every operation the digest is compared with the native hash of everything written since the last reset",
			Assumptions: []string{"gnark-crypto's native MiMC is the reference"}},
		"C19": {Run: c19, Level: "exploration", Rule: "Keccak, emulated-MiMC and native-MiMC Merkle gadgets run over random trees of every power-of-two size in range and every leaf position; roots are compared with trees computed by x/crypto Keccak and gnark-crypto MiMC; every change of leaf, direction or sibling must change the root, and non-boolean directions must be unsatisfiable"},
		"C20": {Run: c20, Level: "exploration", Rule: "sparse Merkle trees (depth 1..18, leaf value trees of 1..4 parts) built natively over two fields; the inclusion flag must be 1 for the stored leaf and 0 after any change of root, leaf part, position bit or sibling, and the leaf value hash must equal the native one"},
		"C38": {Run: c38, Level: "exploration", Rule: "headers over every field-length class, optional-field shape and extra-data length, encoded in batches; the encoded blocks are turned back into bytes, compared with the padded go-ethereum encoding, hashed natively up to the returned round and, for a sample, by the Keccak gadget, against the header's real hash; oversized fields and headers must give an error; generated chains and MiMC roots are compared with references"},
	})
}

type hfield interface {
	name() string
	dims() (mod *big.Int, nb, bits int)
	hasher() hash.Hash
	run(api frontend.API, ops []op, in []frontend.Variable) []frontend.Variable
	root(api frontend.API, in []frontend.Variable) []frontend.Variable
	restore(api frontend.API, depth int, in []frontend.Variable) []frontend.Variable
}

type hf[T emulated.FieldParams] struct {
	n  string
	id ecc.ID
	h  func() hash.Hash
}

type op struct {
	kind byte // 'w'rite n, 's'um, 'r'eset, 'h'ash n
	n    int
}

func (o op) String() string { return fmt.Sprintf("%c%d", o.kind, o.n) }

func (f hf[T]) name() string      { return f.n }
func (f hf[T]) hasher() hash.Hash { return f.h() }
func (f hf[T]) dims() (*big.Int, int, int) {
	var p T
	return p.Modulus(), int(p.NbLimbs()), int(p.BitsPerLimb())
}

func (f hf[T]) elems(in []frontend.Variable) (out []*emulated.Element[T]) {
	_, nb, _ := f.dims()
	for i := 0; i < len(in); i += nb {
		out = append(out, &emulated.Element[T]{Limbs: in[i : i+nb]})
	}
	return
}

func (f hf[T]) run(api frontend.API, ops []op, in []frontend.Variable) (out []frontend.Variable) {
	h := emimc.NewMiMC[T](api, f.id)
	es := f.elems(in)
	for _, o := range ops {
		switch o.kind {
		case 'w':
			lent := append(make([]*emulated.Element[T], 0, o.n+2), es[:o.n]...)
			h.Write(lent...)
			reuse(lent)
			es = es[o.n:]
		case 'r':
			h.Reset()
		case 's':
			out = append(out, h.Sum().Limbs...)
		case 'h':
			lent := append(make([]*emulated.Element[T], 0, o.n+2), es[:o.n]...)
			out = append(out, h.Hash(lent...).Limbs...)
			reuse(lent)
			es = es[o.n:]
		}
	}
	return
}

// reuse is a caller filling its slice with other elements once a call has returned.
func reuse[T emulated.FieldParams](l []*emulated.Element[T]) {
	var p T
	l = l[:cap(l)]
	for i := range l {
		other := &emulated.Element[T]{}
		for j := 0; j < int(p.NbLimbs()); j++ {
			other.Limbs = append(other.Limbs, 77+i)
		}
		l[i] = other
	}
}

func (f hf[T]) root(api frontend.API, in []frontend.Variable) []frontend.Variable {
	m, es := merkle.NewMimcRootAPI[T](api, f.id), f.elems(in)
	if n := len(es); n > 1 && n <= 8 { // other trees of the same nodes before and after
		other := append([]*emulated.Element[T](nil), es...)
		for i := 1; i < n; i += 2 {
			other[i] = es[(i+1)%n]
		}
		m.MimcRoot(other)
		root := m.MimcRoot(es)
		m.MimcRoot(other)
		return root.Limbs
	}
	return m.MimcRoot(es).Limbs
}

func (f hf[T]) restore(api frontend.API, depth int, in []frontend.Variable) []frontend.Variable {
	es := f.elems(in[depth:])
	m := merkle.NewMimcRootAPI[T](api, f.id)
	if depth > 0 && depth <= 3 { // another path from the same leaf
		var flipped []frontend.Variable
		for i := range in[:depth] {
			flipped = append(flipped, i%2)
		}
		m.RestoreMimcRoot(es[0], append(append([]*emulated.Element[T](nil), es[2:]...), es[1]), flipped)
	}
	return m.RestoreMimcRoot(es[0], es[1:], in[:depth]).Limbs
}

var hfields = []hfield{
	hf[emulated.BN254Fr]{"bn254", ecc.BN254, func() hash.Hash { return mimc254.NewMiMC() }},
	hf[emulated.BLS12377Fr]{"bls12-377", ecc.BLS12_377, func() hash.Hash { return mimc377.NewMiMC() }},
	hf[emulated.BW6761Fr]{"bw6-761", ecc.BW6_761, func() hash.Hash { return mimc761.NewMiMC() }},
}

// elem returns an element representation: reduced, or at or above the modulus but within its bit length.
func elem(rng *rand.Rand, mod *big.Int, reduced bool) *big.Int {
	switch rng.Intn(8) {
	case 0:
		return big.NewInt(int64(rng.Intn(2)))
	case 1:
		return new(big.Int).Sub(mod, big.NewInt(int64(1+rng.Intn(2))))
	case 2:
		if !reduced {
			return new(big.Int).Add(mod, big.NewInt(int64(rng.Intn(2))))
		}
	case 3:
		if !reduced {
			m := new(big.Int).Lsh(big.NewInt(1), uint(mod.BitLen()))
			return m.Sub(m, big.NewInt(1))
		}
	case 4:
		return new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), 64))
	}
	return new(big.Int).Rand(rng, mod)
}

func limbsLE(x *big.Int, nb, bits int) (out []*big.Int) {
	mask := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	for i := 0; i < nb; i++ {
		v := new(big.Int).Rsh(x, uint(i*bits))
		out = append(out, v.And(v, mask))
	}
	return
}

// ints recombines observed limbs into integers modulo mod.
func ints(v []*big.Int, mod *big.Int, nb, bits int) (out []*big.Int) {
	for i := 0; i+nb <= len(v); i += nb {
		x := new(big.Int)
		for j := nb - 1; j >= 0; j-- {
			x.Lsh(x, uint(bits)).Add(x, v[i+j])
		}
		out = append(out, x.Mod(x, mod))
	}
	return
}

func nhash(f hfield, xs ...*big.Int) *big.Int {
	mod, _, _ := f.dims()
	h := f.hasher()
	for _, x := range xs {
		buf := make([]byte, h.BlockSize())
		new(big.Int).Mod(x, mod).FillBytes(buf)
		if _, err := h.Write(buf); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

func limbVars(xs []*big.Int, nb, bits int) (out []frontend.Variable) {
	for _, x := range xs {
		out = append(out, vm.V(limbsLE(x, nb, bits))...)
	}
	return
}

var natives = []*big.Int{ecc.BN254.ScalarField(), ecc.BW6_761.ScalarField(), ecc.BLS12_377.ScalarField()}

func c18(r *vm.R) {
	n := r.N(50, 400)
	vm.Par(len(hfields)*n, 8, func(k int) {
		f, i := hfields[k%len(hfields)], k/len(hfields)
		key := fmt.Sprintf("%s/%d", f.name(), i)
		r.Case(key, key, func() {
			rng := r.Rand(key)
			mod, nb, bits := f.dims()
			var ops []op
			var ins, want []*big.Int
			var state []*big.Int
			total, sums := 0, 0
			for total < 5 || sums == 0 {
				o := op{kind: "wwsshr"[rng.Intn(6)]}
				if i < 4 { // the one-shot interface with 0..3 inputs
					o = op{'h', i}
				}
				switch o.kind {
				case 'w', 'h':
					if i >= 4 {
						o.n = rng.Intn(4)
					}
					if o.kind == 'h' {
						state = nil
					}
					for j := 0; j < o.n; j++ {
						e := elem(rng, mod, false)
						ins, state = append(ins, e), append(state, e)
					}
					total += o.n + 1
				case 'r':
					state = nil
				}
				if o.kind == 's' || o.kind == 'h' {
					want = append(want, nhash(f, state...))
					sums++
					total++
				}
				ops = append(ops, o)
				if i < 4 {
					break
				}
			}
			info := map[string]any{"ops": fmt.Sprint(ops), "inputs": vm.Str(ins)}
			out, err := vm.Run(natives[i%len(natives)], append([]frontend.Variable{0}, limbVars(ins, nb, bits)...), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return f.run(api, ops, in[1:])
			})
			r.Eval("history "+f.name(), fmt.Sprint(ops, ins))
			r.Sample("history", info)
			if !r.Expect(err == nil, key, info, "unsatisfiable: %v", err) {
				return
			}
			got := ints(out, mod, nb, bits)
			r.Count("digests compared", int64(len(want)))
			r.Count("elements hashed", int64(len(ins)))
			r.Expect(fmt.Sprint(got) == fmt.Sprint(want), key, info, "digests %v, want %v", got, want)
		})
	})
}
