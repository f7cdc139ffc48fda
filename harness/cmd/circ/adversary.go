package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"verifharness/cat"
	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend/cs"
)

// A dishonest prover: it answers every hint call honestly but the chosen ones.
type adversary struct {
	calls  []string // the kinds of the hint calls in order: name and number of outputs
	target map[int]bool
	some   string // or calls of this hint, each with this probability
	prob   float64
	rng    *rand.Rand
	mutate func(name string, field *big.Int, ins, outs []*big.Int) bool
	hit    int
}

// hintNames lists every hint a solver can call.
func hintTable() map[solver.HintID]solver.Hint {
	t := map[solver.HintID]solver.Hint{}
	for _, h := range append(solver.GetRegisteredHints(), limbs.SplitHint) {
		id := solver.GetHintID(h)
		if id == vm.CaptureID || id == solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder) {
			continue
		}
		t[id] = h
	}
	return t
}

var errStop = errors.New("nothing to mutate")

func (a *adversary) options() []solver.Option {
	opts := []solver.Option{solver.WithNbTasks(1)}
	for id, h := range hintTable() {
		h := h
		name := solver.GetHintName(h)
		name = name[strings.LastIndexByte(name, '/')+1:]
		opts = append(opts, solver.OverrideHint(id, func(field *big.Int, ins, outs []*big.Int) error {
			n := len(a.calls)
			kind := fmt.Sprintf("%s/%d", name, len(outs))
			if has(name, "mulHint") {
				nb, bits := int(ins[1].Int64()), uint(ins[0].Int64())
				if recompose(ins[2+2*nb:2+3*nb], bits).Cmp(big.NewInt(1)) == 0 {
					kind += "-reduction" // a multiplication by one: only the representation changes
				}
			}
			a.calls = append(a.calls, kind)
			if err := h(field, ins, outs); err != nil {
				return err
			}
			if a.mutate != nil && (a.target[n] || a.some == kind && a.rng.Float64() < a.prob) {
				if a.mutate(name, field, ins, outs) {
					a.hit++
				} else if a.some == "" {
					return errStop // the solve would be the honest one
				}
			}
			return nil
		}))
	}
	return opts
}

func reduce(field *big.Int, outs []*big.Int) {
	for _, o := range outs {
		o.Mod(o, field)
	}
}

func recompose(l []*big.Int, bits uint) *big.Int {
	v := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		v.Lsh(v, bits)
		v.Add(v, l[i])
	}
	return v
}

// decompose puts what does not fit into the last limb.
func decompose(v *big.Int, bits uint, l []*big.Int) {
	v = new(big.Int).Set(v)
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	for i := range l {
		if i == len(l)-1 {
			l[i].Set(v)
			return
		}
		l[i].And(v, m)
		v.Rsh(v, bits)
	}
}

// mulAttack replaces the remainder of a multiplication by another representative of the same class, consistently.
func mulAttack(k int64, field *big.Int, ins, outs []*big.Int) bool {
	bits, nb := uint(ins[0].Int64()), int(ins[1].Int64())
	pl, al, bl := ins[2:2+nb], ins[2+nb:2+2*nb], ins[2+2*nb:2+3*nb]
	nq := (len(outs) - 2*nb + 2) / 2
	nc := nb + nq - 2
	ql, rl, cl := outs[:nq], outs[nq:nq+nb], outs[nq+nb:nq+nb+nc]
	p := recompose(pl, bits)
	quo, rem := recompose(ql, bits), recompose(rl, bits)
	quo.Sub(quo, big.NewInt(k))
	rem.Add(rem, new(big.Int).Mul(p, big.NewInt(k)))
	if quo.Sign() < 0 || rem.Sign() < 0 {
		return false
	}
	decompose(quo, bits, ql)
	decompose(rem, bits, rl)
	xp, yp := make([]*big.Int, nb+nq-1), make([]*big.Int, nb+nq-1)
	for i := range xp {
		xp[i], yp[i] = new(big.Int), new(big.Int)
	}
	t := new(big.Int)
	for i := 0; i < nb; i++ {
		for j := 0; j < nb; j++ {
			xp[i+j].Add(xp[i+j], t.Mul(al[i], bl[j]))
		}
		yp[i].Add(yp[i], rl[i])
		for j := 0; j < nq; j++ {
			yp[i+j].Add(yp[i+j], t.Mul(ql[j], pl[i]))
		}
	}
	carry := new(big.Int)
	for i := range cl {
		carry.Add(carry, yp[i])
		carry.Sub(carry, xp[i])
		carry.Rsh(carry, bits)
		cl[i].Set(carry)
	}
	reduce(field, outs)
	return true
}

// One mutation of the outputs of one hint call. It returns false when it does not apply to this call.
type mutation struct {
	name string
	on   func(hint string) bool // nil: any hint
	f    func(rng *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool
}

func one(f func(rng *rand.Rand, field *big.Int, o *big.Int)) func(*rand.Rand, string, *big.Int, []*big.Int, []*big.Int) bool {
	return func(rng *rand.Rand, _ string, field *big.Int, _, outs []*big.Int) bool {
		o := outs[rng.Intn(len(outs))]
		old := new(big.Int).Mod(o, field)
		f(rng, field, o)
		o.Mod(o, field)
		return o.Cmp(old) != 0
	}
}

// emulatedLimbs says how many bits and limbs the elements in the outputs of an emulated hint have.
func emulatedLimbs(hint string, ins []*big.Int) (bits uint, nb int, p *big.Int, ok bool) {
	if !strings.Contains(hint, "emulated") && !strings.Contains(hint, "fields_") && !strings.Contains(hint, "sw_") {
		return
	}
	if len(ins) < 3 || !ins[0].IsInt64() || !ins[1].IsInt64() {
		return
	}
	bits, nb = uint(ins[0].Int64()), int(ins[1].Int64())
	at := 2
	if strings.HasSuffix(hint, "DivHint") {
		at = 4
	}
	if strings.HasSuffix(hint, "RemHint") {
		at += nb
		nb = len(ins) - at
	}
	if bits < 8 || bits > 256 || nb < 1 || nb > 32 || len(ins) < at+nb {
		return
	}
	return bits, nb, recompose(ins[at:at+nb], bits), true
}

func group(f func(rng *rand.Rand, v, p *big.Int) *big.Int) func(*rand.Rand, string, *big.Int, []*big.Int, []*big.Int) bool {
	return func(rng *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		if strings.HasSuffix(hint, "mulHint") || strings.HasSuffix(hint, "QuoHint") {
			return false
		}
		bits, nb, p, ok := emulatedLimbs(hint, ins)
		if !ok || p.Sign() == 0 || len(outs)%nb != 0 {
			return false
		}
		at := nb * rng.Intn(len(outs)/nb)
		v := recompose(outs[at:at+nb], bits)
		w := f(rng, v, p)
		if w == nil || w.Sign() < 0 || w.Cmp(v) == 0 {
			return false
		}
		decompose(w, bits, outs[at:at+nb])
		reduce(field, outs)
		return true
	}
}

func isBits(hint string) bool { return strings.Contains(hint, "bits.") }

func has(h string, names ...string) bool {
	for _, n := range names {
		if strings.HasSuffix(h, "."+n) {
			return true
		}
	}
	return false
}
func onLists(h string) bool  { return !has(h, "InvZeroHint", "RightShift", "countHint") }
func onDigits(h string) bool { return isBits(h) || has(h, "SplitHint", "DecomposeHint") }
func onMul(h string) bool    { return has(h, "mulHint") }
func onElements(h string) bool {
	return (strings.Contains(h, "emulated") || strings.Contains(h, "fields_") || strings.Contains(h, "sw_")) &&
		!has(h, "mulHint", "QuoHint", "RightShift", "MultiplicationHint")
}

var mutations = []mutation{
	{name: "plus-one", f: one(func(_ *rand.Rand, _, o *big.Int) { o.Add(o, big.NewInt(1)) })},
	{name: "minus-one", f: one(func(_ *rand.Rand, _, o *big.Int) { o.Sub(o, big.NewInt(1)) })},
	{name: "zero", f: one(func(_ *rand.Rand, _, o *big.Int) { o.SetInt64(0) })},
	{name: "one", f: one(func(_ *rand.Rand, _, o *big.Int) { o.SetInt64(1) })},
	{name: "flip", f: one(func(_ *rand.Rand, _, o *big.Int) { o.Sub(big.NewInt(1), o) })},
	{name: "negate", f: one(func(_ *rand.Rand, _, o *big.Int) { o.Neg(o) })},
	{name: "random", f: one(func(rng *rand.Rand, f, o *big.Int) { o.Rand(rng, f) })},
	{name: "plus-power", f: one(func(rng *rand.Rand, f, o *big.Int) {
		o.Add(o, new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(f.BitLen()-1))))
	})},
	{name: "swap", on: onLists, f: func(rng *rand.Rand, _ string, _ *big.Int, _, outs []*big.Int) bool {
		i, j := rng.Intn(len(outs)), rng.Intn(len(outs))
		if outs[i].Cmp(outs[j]) == 0 {
			return false
		}
		t := new(big.Int).Set(outs[i])
		outs[i].Set(outs[j])
		outs[j].Set(t)
		return true
	}},
	{name: "zero-all", f: func(_ *rand.Rand, _ string, _ *big.Int, _, outs []*big.Int) bool {
		ch := false
		for _, o := range outs {
			ch = ch || o.Sign() != 0
			o.SetInt64(0)
		}
		return ch
	}},
	// Value-preserving: a unit of a higher limb becomes 2^size of the next lower one, or the other way round.
	{name: "transfer", on: onLists, f: func(rng *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		if len(outs) < 2 {
			return false
		}
		i := rng.Intn(len(outs) - 1)
		j := i + 1
		if rng.Intn(4) == 0 {
			j = i + 1 + rng.Intn(len(outs)-i-1)
		}
		size := uint(1)
		switch {
		case isBits(hint):
		case strings.Contains(hint, "SplitHint"):
			// The first part is the most significant one, the last may be smaller.
			i, j = j, i
			lo := func(k int) int {
				return max(0, int(ins[1].Int64())-int(ins[2].Int64())*(k+1))
			}
			size = uint((lo(j) - lo(i)) / (i - j))
			if lo(j)-lo(i) != int(size)*(i-j) {
				i = j + 1
				size = uint(lo(j) - lo(i))
			}
			c := big.NewInt(int64(1 - 2*rng.Intn(2)))
			outs[i].Add(outs[i], new(big.Int).Lsh(c, size*uint(i-j)))
			outs[j].Sub(outs[j], c)
			reduce(field, outs)
			return true
		case strings.Contains(hint, "DecomposeHint"):
			size = uint(ins[1].Int64())
		default:
			if b, _, _, ok := emulatedLimbs(hint, ins); ok {
				size = b
			} else {
				size = []uint{1, 2, 4, 7, 8, 16, 32, 64}[rng.Intn(8)]
			}
		}
		c := big.NewInt(int64(1 + rng.Intn(3)))
		if rng.Intn(2) == 0 {
			c.Neg(c)
		}
		w := new(big.Int).Lsh(c, size*uint(j-i))
		outs[i].Add(outs[i], w)
		outs[j].Sub(outs[j], c)
		reduce(field, outs)
		return true
	}},
	// The decomposition of another integer with the same residue.
	{name: "alias", on: onDigits, f: func(rng *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		var size uint
		var v *big.Int
		switch {
		case isBits(hint):
			size = 1
		case strings.Contains(hint, "SplitHint"):
			size = uint(ins[2].Int64())
		case strings.Contains(hint, "DecomposeHint"):
			size = uint(ins[1].Int64())
		default:
			return false
		}
		v = recompose(outs, size)
		v.Add(v, new(big.Int).Mul(field, big.NewInt(int64(1+rng.Intn(2)))))
		decompose(v, size, outs)
		reduce(field, outs)
		return true
	}},
	// The whole of a value that does not fit, its excess in some digit.
	{name: "complete", on: onDigits, f: func(rng *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		size := uint(1)
		if strings.Contains(hint, "DecomposeHint") {
			return false
		} else if strings.Contains(hint, "SplitHint") {
			size = uint(ins[2].Int64())
			if int(ins[1].Int64()) != len(outs)*int(size) {
				return false
			}
		}
		v := new(big.Int).Set(ins[len(ins)-1])
		if size > 1 || strings.Contains(hint, "SplitHint") {
			v.Set(ins[0])
		}
		d := append([]*big.Int{}, outs...)
		if strings.Contains(hint, "SplitHint") {
			for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
				d[i], d[j] = d[j], d[i]
			}
		}
		before := recompose(d, size)
		excess := v.Sub(v, before)
		if excess.Sign() == 0 {
			return false
		}
		k := rng.Intn(len(d))
		inv := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), uint(k)*size), field)
		d[k].Add(d[k], inv.Mul(inv, excess))
		reduce(field, outs)
		return true
	}},
	{name: "element-plus-modulus", on: onElements, f: group(func(_ *rand.Rand, v, p *big.Int) *big.Int { return new(big.Int).Add(v, p) })},
	{name: "element-negated", on: onElements, f: group(func(_ *rand.Rand, v, p *big.Int) *big.Int { return new(big.Int).Sub(p, v) })},
	{name: "element-random", on: onElements, f: group(func(rng *rand.Rand, _, p *big.Int) *big.Int { return new(big.Int).Rand(rng, p) })},
	{name: "element-zero", on: onElements, f: group(func(_ *rand.Rand, _, _ *big.Int) *big.Int { return new(big.Int) })},
	{name: "remainder-plus-modulus", on: onMul, f: func(_ *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		return strings.HasSuffix(hint, ".mulHint") && mulAttack(1, field, ins, outs)
	}},
	{name: "remainder-minus-modulus", on: onMul, f: func(_ *rand.Rand, hint string, field *big.Int, ins, outs []*big.Int) bool {
		return strings.HasSuffix(hint, ".mulHint") && mulAttack(-1, field, ins, outs)
	}},
}

var generic []mutation
var remainderPlus mutation

func init() {
	for _, m := range mutations {
		if m.name == "remainder-plus-modulus" {
			remainderPlus = m
		}
		if m.on == nil {
			generic = append(generic, m)
		}
	}
}

// special lists the mutations made for the kind of answer that a hint gives.
func special(hint string) (o []mutation) {
	for _, m := range mutations {
		if m.on != nil && m.on(hint) {
			o = append(o, m)
			if m.name == "remainder-plus-modulus" {
				o = append(o, m, m)
			}
		}
	}
	return
}

var c16 = vm.Spec{
	Run:   runC16,
	Level: "fault_enumeration",
	Rule: "A case is one dishonest solve of one compiled gadget: an input, the hint calls that answered dishonestly and how (distinct by " +
		"gadget, hint, mutation and answer). It violates when all constraints hold and the observed outputs mean something else than the " +
		"honest ones, or when an input that the honest prover cannot satisfy becomes satisfiable.",
	Assumptions: []string{
		"commitment challenges are a deterministic hash of what is committed to, standing in for the prover's",
		"only hint answers are dishonest; all other wires follow from the constraints, as in gnark's solver",
	},
}

func runC16(r *vm.R) {
	gs := cat.All()
	// Heavy gadgets first.
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].Weight > gs[j].Weight })
	vm.Par(len(gs), 0, func(i int) {
		g := gs[i]
		k := key(g)
		r.Case(k, map[string]any{"gadget": k}, func() { attack(r, g, fmt.Sprintf("%s/%d", k, i)) })
	})
}

func attack(r *vm.R, g *cat.Gadget, label string) {
	k := key(g)
	rng := r.Rand(label)
	c, err := vm.Compile(g.Field, g.NIn(), false, g.Fn)
	if err != nil {
		r.Count("does_not_compile", 1) // C35 tells
		return
	}
	nInputs := []int{r.N(4, 12), r.N(3, 6), r.N(3, 6), r.N(1, 3)}[g.Weight]
	nMut := []int{r.N(220, 3000), r.N(72, 700), r.N(14, 160), r.N(12, 100)}[g.Weight]
	for n := 0; n < nInputs; n++ {
		in := g.Gen(rng)
		bad := false
		if g.Bad != nil && n%2 == 1 {
			in, bad = g.Bad(rng), true
		}
		honest := &adversary{}
		out, err := c.Solve(vm.V(in), honest.options()...)
		switch {
		case bad && err == nil, !bad && err != nil && !g.Partial:
			// Wrong without any dishonesty: the business of the gadget's own property.
			r.Count("honest_unexpected", 1)
			continue
		case err != nil:
			bad = true
		}
		r.Count("honest_solves", 1)
		byKind := map[string][]int{}
		for j, h := range honest.calls {
			byKind[h] = append(byKind[h], j)
		}
		var kinds []string
		var reductions []int
		for h := range byKind {
			kinds = append(kinds, h)
		}
		sort.Strings(kinds)
		// Every single representation change is tried, as far as there are not too many.
		for j, h := range honest.calls {
			if strings.HasSuffix(h, "-reduction") && len(reductions) < r.N(32, 200) {
				reductions = append(reductions, j)
			}
		}
		r.Count("hint_calls_available", int64(len(honest.calls)))
		if len(kinds) == 0 {
			r.Eval("no-hints", "")
			continue
		}
		want := fmt.Sprint(g.Meaning(out))
		rngs := make([]*rand.Rand, nMut+len(reductions))
		for m := range rngs {
			rngs[m] = rand.New(rand.NewSource(rng.Int63()))
		}
		workers := 1
		if g.Weight > 0 {
			workers = 8
		}
		vm.Par(len(rngs), workers, func(m int) {
			rng := rngs[m]
			kind := kinds[m%len(kinds)]
			if m >= nMut {
				kind = honest.calls[reductions[m-nMut]]
			}
			hint := kind[:strings.IndexByte(kind, '/')]
			muts := generic
			if sp := special(hint); len(sp) > 0 && m/len(kinds)%4 != 3 {
				muts = sp
			}
			mut := muts[rng.Intn(len(muts))]
			idx := byKind[kind]
			mr := rand.New(rand.NewSource(rng.Int63()))
			a := &adversary{target: map[int]bool{}, rng: mr}
			scope := "call"
			pick := rng.Intn(10)
			if (mut.name == "remainder-plus-modulus" || mut.name == "element-plus-modulus") && len(idx) > 1 {
				pick += 5 // lawful where the value alone matters: at many calls together
			}
			switch {
			case m >= nMut:
				mut = remainderPlus
				a.target[reductions[m-nMut]] = true
			case pick == 8:
				a.some, a.prob, scope = kind, 1, "every-call"
			case pick == 7:
				scope = "two-calls"
				a.target[idx[rng.Intn(len(idx))]] = true
				a.target[rng.Intn(len(honest.calls))] = true
			case pick > 8:
				a.some, a.prob, scope = kind, []float64{0.5, 0.125, 0.03}[rng.Intn(3)], "some-calls"
			default:
				a.target[idx[rng.Intn(len(idx))]] = true
			}
			var answers string
			a.mutate = func(name string, field *big.Int, ins, outs []*big.Int) bool {
				var before []string
				before = vm.Str(outs)
				if !mut.f(mr, name, field, ins, outs) {
					return false
				}
				if len(answers) < 400 {
					answers += fmt.Sprintf("%s(%.120v): %.120v -> %.120v; ", name, vm.Str(ins), before, vm.Str(outs))
				}
				return true
			}
			o, err := c.Solve(vm.V(in), a.options()...)
			if a.hit == 0 {
				r.Count("mutation_not_applicable", 1)
				return
			}
			r.Eval(scope+"/"+mut.name, k+hint+answers)
			r.Count("hint/"+hint, 1)
			desc := map[string]any{"gadget": k, "input": vm.Str(in), "hint": hint, "mutation": mut.name, "scope": scope, "answers": answers}
			if err != nil {
				r.Count("refused", 1)
				return
			}
			if m < 3 {
				r.Sample("accepted", desc)
			}
			r.Count("accepted_same_meaning_or_alarm", 1)
			if bad {
				r.Violate(k+"/forged", desc, "an input that must be refused is satisfied when %s answers dishonestly (%s, %s): %s", hint, mut.name, scope, answers)
				return
			}
			if got := fmt.Sprint(g.Meaning(o)); got != want {
				r.Violate(k+"/forged", desc, "all constraints hold with %s answering dishonestly (%s, %s), and the outputs are %.300s instead of %.300s; %s", hint, mut.name, scope, got, want, answers)
			}
		})
	}
}
