package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/cat"
	"verifharness/vm"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test/unsafekzg"
)

var c39 = vm.Spec{
	Run: runC39,
	Rule: "A case is one attempt to prove a gadget's result with real keys, or to verify a proof, in Groth16 or PLONK (distinct by gadget, system, witness and what was " +
		"changed). The honest result must be proved and its proof accepted; a result altered anywhere must neither be proved nor accepted with the honest proof; an " +
		"input that the gadget refuses must not be proved.",
	Assumptions: []string{"the PLONK reference string is generated for the test; gnark's provers and verifiers are sound"},
}

// claim is the gadget with its results as public values.
type claim struct {
	In  []frontend.Variable
	Out []frontend.Variable `gnark:",public"`
	g   *cat.Gadget
}

func (c *claim) Define(api frontend.API) error {
	out := c.g.Fn(api, c.In)
	if len(out) != len(c.Out) {
		return fmt.Errorf("%d outputs, want %d", len(out), len(c.Out))
	}
	for i := range out {
		api.AssertIsEqual(out[i], c.Out[i])
	}
	return nil
}

type prover struct {
	prove  func(w witness.Witness) (any, error)
	verify func(p any, pub witness.Witness) error
}

func curve(f *big.Int) ecc.ID {
	for _, id := range ecc.Implemented() {
		if id.ScalarField().Cmp(f) == 0 {
			return id
		}
	}
	panic("harness: no curve")
}

func newProver(g *cat.Gadget, nOut int, sparse bool) (*prover, constraint.ConstraintSystem, error) {
	c := &claim{In: make([]frontend.Variable, g.NIn()), Out: make([]frontend.Variable, nOut), g: g}
	var nb frontend.NewBuilder = r1cs.NewBuilder
	if sparse {
		nb = scs.NewBuilder
	}
	cs, err := frontend.Compile(g.Field, nb, c, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, nil, err
	}
	opt := backend.WithSolverOptions(withHints())
	if sparse {
		srs, lag, err := unsafekzg.NewSRS(cs)
		if err != nil {
			return nil, cs, err
		}
		pk, vk, err := plonk.Setup(cs, srs, lag)
		if err != nil {
			return nil, cs, err
		}
		return &prover{func(w witness.Witness) (any, error) { return plonk.Prove(cs, pk, w, opt) },
			func(p any, pub witness.Witness) error { return plonk.Verify(p.(plonk.Proof), vk, pub) }}, cs, nil
	}
	pk, vk, err := groth16.Setup(cs)
	if err != nil {
		return nil, cs, err
	}
	return &prover{func(w witness.Witness) (any, error) { return groth16.Prove(cs, pk, w, opt) },
		func(p any, pub witness.Witness) error { return groth16.Verify(p.(groth16.Proof), vk, pub) }}, cs, nil
}

func runC39(r *vm.R) {
	var gs []*cat.Gadget
	for _, g := range cat.All() {
		if g.Weight == 0 && g.Canon == nil || r.Thorough && g.Weight == 1 && g.Canon == nil {
			gs = append(gs, g)
		}
	}
	limit := r.N(60000, 200000)
	vm.Par(2*len(gs), 0, func(k int) {
		g, sparse := gs[k/2], k%2 == 1
		sys := []string{"groth16", "plonk"}[k%2]
		name := key(g) + "/" + sys
		r.Case(name, nil, func() { endToEnd(r, g, name, fmt.Sprint(k/2), sys, sparse, limit) })
	})
}

func endToEnd(r *vm.R, g *cat.Gadget, name, id, sys string, sparse bool, limit int) {
	rng := r.Rand(name + id)
	// the direct evaluation is the reference
	in := g.Gen(rng)
	ref, err := vm.Compile(g.Field, g.NIn(), sparse, g.Fn)
	if err != nil {
		r.Violate(name, nil, "does not compile: %v", err)
		return
	}
	if ref.CS.GetNbConstraints() > limit {
		r.Count("left out for their size", 1)
		return
	}
	out := honest(g, in, rng)
	if out == nil {
		r.Count("no honest result", 1)
		return
	}
	p, cs, err := newProver(g, len(out), sparse)
	if err != nil {
		// Circuits of constants only, or without commitments to make, are the backend's to refuse.
		r.Count("not set up: "+sys+" "+strings.SplitN(err.Error(), "\n", 2)[0], 1)
		if cs == nil {
			r.Violate(name, nil, "does not compile with public results: %v", err)
		}
		return
	}
	r.Count("constraints", int64(cs.GetNbConstraints()))
	wit := func(in, out []*big.Int) (full, pub witness.Witness) {
		c := &claim{In: vm.V(in), Out: vm.V(out)}
		full, err := frontend.NewWitness(c, g.Field)
		if err == nil {
			pub, err = full.Public()
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
		return
	}
	prove := func(w witness.Witness) (proof any, err error) {
		if m := vm.Try(func() { proof, err = p.prove(w) }); m != "" {
			err = fmt.Errorf("%s", m)
		}
		return
	}
	for n := 0; n < r.N(2, 6); n++ {
		if n > 0 {
			in = g.Gen(rng)
			if out = honest(g, in, rng); out == nil {
				continue
			}
		}
		note := map[string]any{"inputs": vm.Str(in), "results": vm.Str(out)}
		full, pub := wit(in, out)
		proof, err := prove(full)
		r.Eval(sys+" honest", name+fmt.Sprint(in))
		r.Sample(sys, map[string]any{"gadget": key(g), "case": note})
		if !r.Expect(err == nil, name, note, "the true result cannot be proved: %v", err) {
			continue
		}
		err = p.verify(proof, pub)
		r.Expect(err == nil, name, note, "the proof of the true result is refused: %v", err)
		if len(out) == 0 {
			continue
		}
		for m := 0; m < r.N(2, 5); m++ {
			bad := append([]*big.Int{}, out...)
			i := rng.Intn(len(bad))
			bad[i] = new(big.Int).Mod(new(big.Int).Add(bad[i], []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Rand(rng, g.Field)}[rng.Intn(3)]), g.Field)
			if same(bad, out) {
				continue
			}
			bfull, bpub := wit(in, bad)
			n2 := map[string]any{"inputs": vm.Str(in), "claimed": vm.Str(bad), "results": vm.Str(out)}
			r.Eval(sys+" altered", name+fmt.Sprint(in, bad))
			r.Expect(p.verify(proof, bpub) != nil, name, n2, "the proof is accepted for another result")
			if m == 0 {
				q, err := prove(bfull)
				r.Expect(err != nil || p.verify(q, bpub) != nil, name, n2, "a wrong result was proved and the proof accepted")
			}
		}
		if g.Bad != nil {
			bin := g.Bad(rng)
			bfull, _ := wit(bin, out)
			q, err := prove(bfull)
			_, bpub := wit(bin, out)
			r.Eval(sys+" refused input", name+fmt.Sprint(bin))
			r.Expect(err != nil || p.verify(q, bpub) != nil, name, map[string]any{"inputs": vm.Str(bin), "claimed": vm.Str(out)}, "a proof was made from inputs that the gadget refuses")
		}
	}
}

// honest evaluates the gadget directly; nil when it gives nothing.
func honest(g *cat.Gadget, in []*big.Int, rng *rand.Rand) []*big.Int {
	for k := 0; k < 4; k++ {
		out, err := vm.Run(g.Field, vm.V(in), g.Fn)
		if err == nil {
			if out == nil {
				out = []*big.Int{}
			}
			return out
		}
		if !g.Partial {
			return nil
		}
		copy(in, g.Gen(rng))
	}
	return nil
}
