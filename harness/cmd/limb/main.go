// Monitors of limb arithmetic and of packing into emulated elements (C15, C17).
package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C15": {Run: c15, Level: "exploration", Rule: "limb lists over one native field, cut into random sizes, put through Split, Merge, Resplit, LrotMerge and Lrot in the gnark test engine; every output limb and its declared size is compared with slicing, concatenating or rotating the bit string; a limb wider than declared must be unsatisfiable when split",
			Assumptions: []string{"declared sizes below the field's bit length where an operation merges everything into one element"}},
		"C17": {Run: c17, Level: "exploration", Rule: "random and boundary integers of every emulated field, cut into chunks of every size, packed by ToElement/ToElements and unpacked by FromElement in the test engine; limbs and chunks are compared with integer arithmetic and packing then unpacking must be the identity; integers wider than the field must be unsatisfiable and sizes ToElements cannot pack must be refused"},
	})
}

var fields = []struct {
	name string
	p    *big.Int
}{{"bn254", vm.BN254}, {"bls12-377", ecc.BLS12_377.ScalarField()}, {"bw6-761", ecc.BW6_761.ScalarField()}}

// value of n bits: boundary patterns and random ones.
func value(rng *rand.Rand, n int) *big.Int {
	max := new(big.Int).Lsh(big.NewInt(1), uint(n))
	switch rng.Intn(7) {
	case 0:
		return big.NewInt(0)
	case 1:
		return max.Sub(max, big.NewInt(1))
	case 2:
		return new(big.Int).Rsh(max, 1)
	case 3:
		return new(big.Int).Lsh(big.NewInt(1), uint(rng.Intn(n)))
	}
	return new(big.Int).Rand(rng, max)
}

// cut returns the bits [from, from+n) of the total-bit number x, counted from the most significant one.
func cut(x *big.Int, total, from, n int) *big.Int {
	v := new(big.Int).Rsh(x, uint(total-from-n))
	return v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
}

func rotl(x *big.Int, total, k int) *big.Int {
	return new(big.Int).Or(new(big.Int).Lsh(cut(x, total, k, total-k), uint(k)), cut(x, total, 0, k))
}

// sizesOf random limb sizes with the given total.
func sizesOf(rng *rand.Rand, total int) (out []int) {
	if rng.Intn(2) == 0 { // equal limbs, last one smaller
		s := 1 + rng.Intn(total)
		for t := total; t > 0; t -= s {
			out = append(out, min(s, t))
		}
		return
	}
	for t := total; t > 0; {
		s := 1 + rng.Intn(min(t, 70))
		out = append(out, s)
		t -= s
	}
	return
}

func c15(r *vm.R) {
	ops := []string{"Split", "SplitN", "Merge", "Resplit", "LrotMerge", "Lrot", "Wide", "ResplitWide"}
	n := r.N(3000, 12000)
	type job struct {
		op string
		f  int
		i  int
	}
	var jobs []job
	for _, op := range ops {
		for f := range fields {
			for i := 0; i < n; i++ {
				jobs = append(jobs, job{op, f, i})
			}
		}
	}
	vm.Par(len(jobs), 8, func(k int) {
		j := jobs[k]
		key := fmt.Sprintf("%s/%s/%d", j.op, fields[j.f].name, j.i)
		r.Case(key, key, func() { one(r, key, j.op, fields[j.f].p, r.Rand(key)) })
	})
}

func one(r *vm.R, key, op string, p *big.Int, rng *rand.Rand) {
	total := 1 + rng.Intn(p.BitLen()-1)
	if rng.Intn(4) == 0 {
		total = 1 + rng.Intn(40)
	}
	if op == "ResplitWide" {
		total = p.BitLen() + rng.Intn(3*p.BitLen())
	}
	x := value(rng, total)
	sizes := sizesOf(rng, total)
	if op == "Split" || op == "SplitN" || op == "Wide" {
		sizes = []int{total}
	}
	if op == "ResplitWide" { // limbs must stay below the field size
		sizes = nil
		lim := 1 + rng.Intn(p.BitLen()-1)
		for t := total; t > 0; t -= lim {
			sizes = append(sizes, min(lim, t))
		}
	}
	var in []*big.Int
	off := 0
	for _, s := range sizes {
		in = append(in, cut(x, total, off, s))
		off += s
	}
	size := 1 + rng.Intn(total)
	amount := rng.Intn(total + 1)
	if rng.Intn(4) == 0 && len(sizes) > 1 { // on a limb boundary
		amount = 0
		for _, s := range sizes[:rng.Intn(len(sizes)+1)] {
			amount += s
		}
	}
	nb := 1 + rng.Intn(total/size)
	if op == "ResplitWide" {
		size = 1 + rng.Intn(p.BitLen()-1)
	}
	if op == "Resplit" && rng.Intn(6) == 0 {
		size = total + rng.Intn(20)
	}
	y := x
	var want []int // sizes
	equal := func(t, s int) {
		for ; t > 0; t -= s {
			want = append(want, min(s, t))
		}
	}
	switch op {
	case "Split", "Resplit", "ResplitWide", "Wide":
		equal(total, size)
	case "SplitN":
		if size == total {
			nb = 1
		}
		for i := 0; i < nb; i++ {
			want = append(want, size)
		}
		if rem := total - nb*size; rem > 0 {
			want = append(want, rem)
		}
	case "Merge":
		want = []int{total}
	case "LrotMerge":
		y, want = rotl(x, total, amount), []int{total}
	case "Lrot":
		y = rotl(x, total, amount)
		equal(total, size)
	}
	wide := op == "Wide"
	if wide {
		if size == total || total+1 >= p.BitLen() {
			return // not split, or no room above the declared size
		}
		in[0] = new(big.Int).Add(in[0], new(big.Int).Lsh(big.NewInt(int64(1+rng.Intn(1))), uint(total)))
		if rng.Intn(2) == 0 {
			in[0] = new(big.Int).Sub(p, big.NewInt(1))
		}
	}
	var got []int
	out, err := vm.Run(p, vm.V(in), func(api frontend.API, v []frontend.Variable) []frontend.Variable {
		la := limbs.NewAPI(api)
		back := make(limbs.Limbs, len(v)+4) // with spare capacity, watched for changes
		for i := range v {
			back[i] = limbs.Limb{Val: v[i], Size: sizes[i]}
		}
		ls := back[:len(v)]
		var res limbs.Limbs
		switch op {
		case "Split", "Wide":
			res = la.Split(ls[0], size)
		case "SplitN":
			res = la.Split(ls[0], size, nb)
		case "Merge":
			res = limbs.Limbs{la.Merge(ls)}
		case "Resplit", "ResplitWide":
			res = la.Resplit(ls, size)
		case "LrotMerge":
			res = limbs.Limbs{la.LrotMerge(ls, amount)}
		case "Lrot":
			res = la.Lrot(ls, amount, size)
		}
		got = nil
		for i := range res {
			got = append(got, res[i].Size)
		}
		for i := range ls {
			if ls[i].Size != sizes[i] {
				panic("input limbs were changed")
			}
		}
		for _, l := range back[len(v):] {
			if l != (limbs.Limb{}) {
				panic("the memory behind the input limbs was changed")
			}
		}
		return append(res.Values(), ls.Values()...)
	})
	info := map[string]any{"value": x.Text(16), "sizes": sizes, "size": size, "nb": nb, "amount": amount}
	r.Eval(op, fmt.Sprint(op, p.BitLen(), x, sizes, size, nb, amount))
	if wide {
		r.Expect(err != nil, key, info, "a limb of %d bits holding %s was split into %v", total, in[0].Text(16), out)
		return
	}
	if !r.Expect(err == nil, key, info, "unsatisfiable: %v", err) {
		return
	}
	r.Expect(fmt.Sprint(got) == fmt.Sprint(want), key, info, "sizes %v, want %v", got, want)
	var exp []*big.Int
	off = 0
	for _, s := range want {
		exp = append(exp, cut(y, total, off, s))
		off += s
	}
	exp = append(exp, in...)
	r.Expect(fmt.Sprint(out) == fmt.Sprint(exp), key, info, "limbs %v, want %v", out, exp)
	r.Count("limbs compared", int64(len(out)))
}

// --- emulated elements -----------------------------------------------------------------------------------

type efield interface {
	name() string
	to(api frontend.API, in []frontend.Variable, size int) []frontend.Variable
	tos(api frontend.API, in []frontend.Variable, size int) []frontend.Variable
	from(api frontend.API, limbs []frontend.Variable, size int) []frontend.Variable
	trip(api frontend.API, in []frontend.Variable, size int) []frontend.Variable
	dims() (mod *big.Int, nb, bits int)
}

type ef[T emulated.FieldParams] struct{ n string }

func (e ef[T]) name() string { return e.n }
func (e ef[T]) dims() (*big.Int, int, int) {
	var p T
	return p.Modulus(), int(p.NbLimbs()), int(p.BitsPerLimb())
}
func (e ef[T]) to(api frontend.API, in []frontend.Variable, size int) []frontend.Variable {
	return emu.ToElement[T](api, in, size).Limbs
}
func (e ef[T]) tos(api frontend.API, in []frontend.Variable, size int) (out []frontend.Variable) {
	for _, x := range emu.ToElements[T](api, in, size) {
		out = append(out, x.Limbs...)
	}
	return
}
func (e ef[T]) from(api frontend.API, ls []frontend.Variable, size int) []frontend.Variable {
	return emu.FromElement[T](api, &emulated.Element[T]{Limbs: ls}, size)
}
func (e ef[T]) trip(api frontend.API, in []frontend.Variable, size int) []frontend.Variable {
	return emu.FromElement[T](api, emu.ToElement[T](api, in, size), size)
}

var efields = []efield{
	ef[emulated.BN254Fr]{"BN254Fr"}, ef[emulated.BN254Fp]{"BN254Fp"}, ef[emulated.BLS12377Fr]{"BLS12377Fr"}, ef[emulated.BLS12381Fr]{"BLS12381Fr"},
	ef[emulated.BLS12381Fp]{"BLS12381Fp"}, ef[emulated.BW6761Fr]{"BW6761Fr"}, ef[emulated.BW6761Fp]{"BW6761Fp"}, ef[emulated.Secp256k1Fp]{"Secp256k1Fp"}, ef[emulated.Secp256k1Fr]{"Secp256k1Fr"},
	ef[emulated.P256Fp]{"P256Fp"}, ef[emulated.P384Fp]{"P384Fp"}, ef[emulated.Goldilocks]{"Goldilocks"},
}

func chunks(x *big.Int, total, size int) (out []*big.Int) {
	for off := 0; off < total; off += size {
		out = append(out, cut(x, total, off, min(size, total-off)))
	}
	return
}

func limbsLE(x *big.Int, nb, bits int) (out []*big.Int) {
	for i := 0; i < nb; i++ {
		out = append(out, cut(x, nb*bits, (nb-1-i)*bits, bits))
	}
	return
}

func c17(r *vm.R) {
	n := r.N(400, 3000)
	type job struct {
		e efield
		f int
		i int
	}
	var jobs []job
	for _, e := range efields {
		for f := range fields {
			for i := 0; i < n/len(fields); i++ {
				jobs = append(jobs, job{e, f, i})
			}
		}
	}
	vm.Par(len(jobs), 8, func(k int) {
		j := jobs[k]
		key := fmt.Sprintf("%s/%s/%d", j.e.name(), fields[j.f].name, j.i)
		r.Case(key, key, func() { oneEmu(r, key, j.e, fields[j.f].p, r.Rand(key)) })
	})
}

func oneEmu(r *vm.R, key string, e efield, p *big.Int, rng *rand.Rand) {
	mod, nb, bits := e.dims()
	total := nb * bits
	common := []int{1, 2, 4, 8, 16, 32, 64, 128, 192, 24, 40, 48, 96, 120, 248, 250}
	size := common[rng.Intn(len(common))]
	if rng.Intn(4) == 0 {
		size = 1 + rng.Intn(min(p.BitLen()-1, total))
	}
	elem := func() *big.Int {
		switch rng.Intn(6) {
		case 0:
			return big.NewInt(int64(rng.Intn(3)))
		case 1:
			return new(big.Int).Sub(mod, big.NewInt(int64(rng.Intn(3)-1)))
		case 2:
			return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(mod.BitLen())), big.NewInt(1))
		case 3:
			return value(rng, 1+rng.Intn(mod.BitLen()))
		}
		return new(big.Int).Rand(rng, mod)
	}
	check := func(kind string, info any, out, want []*big.Int, err error) {
		r.Eval(kind, fmt.Sprint(kind, e.name(), info))
		if r.Expect(err == nil, key+"/"+kind, info, "unsatisfiable: %v", err) {
			r.Expect(fmt.Sprint(out) == fmt.Sprint(want), key+"/"+kind, info, "got %v, want %v", out, want)
			r.Count("words compared", int64(len(out)))
		}
	}
	// unpack: element limbs to chunks, most significant first, the last one smaller
	x := elem()
	info := map[string]any{"value": x.Text(16), "chunk": size}
	out, err := vm.Run(p, vm.V(limbsLE(x, nb, bits)), func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.from(api, in, size) })
	check("FromElement", info, out, chunks(x, total, size), err)
	// pack: any number of chunks up to the element's width
	nc := (mod.BitLen() + size - 1) / size
	if rng.Intn(3) == 0 {
		nc = 1 + rng.Intn(nc)
	}
	if nc*size > total { // more limbs than the element has
		nc = total / size
	}
	if nc > 0 {
		x = elem()
		x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(nc*size)), big.NewInt(1)))
		info = map[string]any{"value": x.Text(16), "chunk": size, "chunks": nc}
		in := vm.V(chunks(x, nc*size, size))
		out, err = vm.Run(p, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.to(api, in, size) })
		check("ToElement", info, out, limbsLE(x, nb, bits), err)
		if nc*size == total {
			out, err = vm.Run(p, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.trip(api, in, size) })
			check("round trip", info, out, chunks(x, total, size), err)
		}
		// one bit more than the field: refused
		if nc*size > mod.BitLen() {
			y := new(big.Int).SetBit(x, mod.BitLen(), 1)
			info = map[string]any{"value": y.Text(16), "chunk": size, "chunks": nc}
			out, err = vm.Run(p, vm.V(chunks(y, nc*size, size)), func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.to(api, in, size) })
			r.Eval("too wide", fmt.Sprint(e.name(), info))
			r.Expect(err != nil, key+"/wide", info, "an integer wider than the field was packed as %v", out)
		}
	}
	// several elements
	s := 1 << rng.Intn(7)
	if bits%s != 0 {
		return
	}
	k := 1 + rng.Intn(3)
	var cs, want []*big.Int
	var hex []string
	for i := 0; i < k; i++ {
		x := elem()
		hex = append(hex, x.Text(16))
		cs = append(cs, chunks(x, total, s)...)
		want = append(want, limbsLE(x, nb, bits)...)
	}
	info = map[string]any{"values": hex, "chunk": s}
	out, err = vm.Run(p, vm.V(cs), func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.tos(api, in, s) })
	check("ToElements", info, out, want, err)
	// input that does not fill the elements, or chunks that do not fill limbs
	bad := cs[:len(cs)-1-rng.Intn(min(len(cs), total/s)-1+1)%len(cs)]
	if len(bad)*s%total != 0 {
		out, err = vm.Run(p, vm.V(bad), func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.tos(api, in, s) })
		r.Eval("refused", fmt.Sprint(e.name(), len(bad), s))
		r.Expect(err != nil, key+"/partial", info, "%d chunks of %d bits were packed into %d limbs", len(bad), s, len(out))
	}
	if size < bits && bits%size != 0 {
		m := 2 * total
		out, err = vm.Run(p, vm.V(chunks(new(big.Int).Lsh(big.NewInt(1), uint(m-1)), m*size/size, size)), func(api frontend.API, in []frontend.Variable) []frontend.Variable { return e.tos(api, in, size) })
		r.Eval("refused", fmt.Sprint(e.name(), "chunk", size))
		r.Expect(err != nil, key+"/chunk", size, "chunks of %d bits were packed into %d limbs", size, len(out))
	}
}
