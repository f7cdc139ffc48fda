package vm

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/test"
)

// Fn is a gadget under test: inputs to the outputs that the monitor observes.
type Fn func(api frontend.API, in []frontend.Variable) []frontend.Variable

// circ is the universal harness circuit.
type circ struct {
	In []frontend.Variable
	g  *gadget // behind a pointer: the engine compares clones with reflect.DeepEqual
}

type gadget struct {
	f Fn
	c func(api frontend.API, out []frontend.Variable) error
}

func (c *circ) Define(api frontend.API) error {
	return c.g.c(api, c.g.f(api, c.In))
}

var BN254 = ecc.BN254.ScalarField()

func vars[T any](in []T) []frontend.Variable {
	out := make([]frontend.Variable, len(in))
	for i := range in {
		out[i] = in[i]
	}
	return out
}

// V converts any slice to circuit variables.
func V[T any](in []T) []frontend.Variable { return vars(in) }

// Run evaluates the gadget on the given inputs in the test engine over the given native field and
// returns the observed outputs. err is set when a constraint fails (or the gadget panics).
func Run(field *big.Int, in []frontend.Variable, f Fn) (out []*big.Int, err error) {
	c := func(api frontend.API, o []frontend.Variable) error {
		if len(o) == 0 {
			return nil
		}
		_, err := api.Compiler().NewHint(func(_ *big.Int, ins, outs []*big.Int) error {
			out = make([]*big.Int, len(ins))
			for i := range ins {
				out[i] = new(big.Int).Mod(ins[i], field)
			}
			outs[0].SetUint64(0)
			return nil
		}, 1, o...)
		return err
	}
	g := &gadget{func(api frontend.API, v []frontend.Variable) []frontend.Variable { return f.watched(api, v) }, c}
	if m := Try(func() {
		err = test.IsSolved(&circ{make([]frontend.Variable, len(in)), g}, &circ{in, g}, field)
	}); m != "" {
		panic("harness: " + m)
	}
	if err != nil {
		out = nil
	}
	return out, err
}

// spare marks the capacity beyond the inputs of a watched gadget.
var spare frontend.Variable = new(big.Int).SetUint64(0x5a5a5a5a5a5a)

// watched runs the gadget on a copy of its inputs with spare capacity behind them: a gadget that overwrites the slice it
// was given, or appends into the memory behind it, changes what the rest of the caller's circuit uses.
func (f Fn) watched(api frontend.API, v []frontend.Variable) []frontend.Variable {
	const extra = 8
	back := make([]frontend.Variable, len(v)+extra)
	copy(back, v)
	for i := len(v); i < len(back); i++ {
		back[i] = spare
	}
	keep := append([]frontend.Variable{}, back...)
	out := f(api, back[:len(v)])
	for i := range back {
		if back[i] != keep[i] {
			panic(fmt.Sprintf("the gadget changed its caller's variable %d of %d", i, len(v)))
		}
	}
	return out
}

// --- compiled circuits -------------------------------------------------------------------------------

var (
	capMu sync.Mutex
	caps  = map[string][]*big.Int{}
)

// captureHint records its inputs (all but the first, which is the slot id) in the capture table.
func captureHint(_ *big.Int, ins, outs []*big.Int) error {
	vals := make([]*big.Int, len(ins)-1)
	for i := range vals {
		vals[i] = new(big.Int).Set(ins[i+1])
	}
	capMu.Lock()
	caps[ins[0].String()] = vals
	capMu.Unlock()
	outs[0].SetUint64(0)
	return nil
}

func init() { solver.RegisterHint(captureHint) }

var CaptureID = solver.GetHintID(captureHint)

// CommitHint stands in for the prover's commitments: the challenge is a hash of everything committed to.
var CommitHint = solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), func(field *big.Int, ins, outs []*big.Int) error {
	h := sha256.New()
	for _, v := range ins {
		h.Write(new(big.Int).Mod(v, field).FillBytes(make([]byte, (field.BitLen()+7)/8)))
	}
	outs[0].SetBytes(h.Sum(nil))
	outs[0].Mod(outs[0], field)
	return nil
})

// Compiled is a gadget compiled to constraints whose outputs are observed when it is solved.
type Compiled struct {
	CS    constraint.ConstraintSystem
	field *big.Int
	nIn   int
}

var slotMu sync.Mutex
var slot uint64

// Compile builds the gadget as R1CS (plonk: sparse R1CS).
func Compile(field *big.Int, nIn int, plonk bool, f Fn) (*Compiled, error) {
	g := &gadget{f: func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		return append([]frontend.Variable{in[0]}, f(api, in[1:])...)
	}}
	cc := &circ{make([]frontend.Variable, nIn+1), g}
	g.c = func(api frontend.API, o []frontend.Variable) error {
		h, err := api.Compiler().NewHint(captureHint, 1, o...)
		if err != nil {
			return err
		}
		api.AssertIsEqual(h[0], 0)
		return nil
	}
	var b frontend.NewBuilder = r1cs.NewBuilder
	if plonk {
		b = scs.NewBuilder
	}
	var sys constraint.ConstraintSystem
	var err error
	if m := Try(func() { sys, err = frontend.Compile(field, b, cc, frontend.IgnoreUnconstrainedInputs()) }); m != "" {
		return nil, fmt.Errorf("%s", m)
	}
	if err != nil {
		return nil, err
	}
	return &Compiled{CS: sys, field: field, nIn: nIn}, nil
}

// Solve solves the compiled gadget and returns the observed outputs; err when it is unsatisfiable.
func (c *Compiled) Solve(in []frontend.Variable, opts ...solver.Option) ([]*big.Int, error) {
	opts = append([]solver.Option{CommitHint}, opts...)
	slotMu.Lock()
	slot++
	id := slot
	slotMu.Unlock()
	w, err := frontend.NewWitness(&circ{In: append([]frontend.Variable{id}, in...)}, c.field)
	if err != nil {
		return nil, fmt.Errorf("witness: %w", err)
	}
	var serr error
	if m := Try(func() { _, serr = c.CS.Solve(w, opts...) }); m != "" {
		serr = fmt.Errorf("%s", m)
	}
	capMu.Lock()
	out := caps[fmt.Sprint(id)]
	delete(caps, fmt.Sprint(id))
	capMu.Unlock()
	if serr != nil {
		return out, serr
	}
	return out, nil
}

// --- values --------------------------------------------------------------------------------------------

func Nibbles(b []byte) []int {
	out := make([]int, 0, 2*len(b))
	for _, x := range b {
		out = append(out, int(x>>4), int(x&15))
	}
	return out
}

// BitsLE returns n bits of x, least significant first.
func BitsLE(x *big.Int, n int) []uint {
	out := make([]uint, n)
	for i := range out {
		out[i] = x.Bit(i)
	}
	return out
}

func Ints(v []*big.Int) []int64 {
	out := make([]int64, len(v))
	for i := range v {
		if !v[i].IsInt64() {
			out[i] = -1
			continue
		}
		out[i] = v[i].Int64()
	}
	return out
}

func Str(v []*big.Int) []string {
	out := make([]string, len(v))
	for i := range v {
		out[i] = v[i].String()
	}
	return out
}
