package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
)

func rnd(rng *rand.Rand, n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		switch rng.Intn(5) {
		case 0:
			out[i] = big.NewInt(0)
		case 1:
			out[i] = new(big.Int).Sub(vm.BN254, big.NewInt(int64(1+rng.Intn(2))))
		case 2:
			out[i] = new(big.Int).Rand(rng, vm.BN254)
		default:
			out[i] = big.NewInt(int64(rng.Intn(16)))
		}
	}
	return out
}

func eq(a []*big.Int, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// outOfRange selectors of a domain 0..n-1.
func outOfRange(rng *rand.Rand, n int) []*big.Int {
	neg := new(big.Int).Sub(vm.BN254, big.NewInt(1))
	return []*big.Int{big.NewInt(int64(n)), big.NewInt(int64(n + 1 + rng.Intn(5))), neg, new(big.Int).Rsh(vm.BN254, 1)}
}

func c13(r *vm.R) {
	var jobs []func()
	add := func(key string, input any, f func(rng *rand.Rand)) {
		jobs = append(jobs, func() { r.Case(key, input, func() { f(r.Rand(key)) }) })
	}
	// multiplexers and decoder
	for _, name := range []string{"rlp.Multiplexer", "mux.Multiplex"} {
		for n := 1; n <= r.N(40, 70); n++ {
			for w := 1; w <= 3; w++ {
				name, n, w := name, n, w
				key := fmt.Sprintf("%s/n=%d/w=%d", name, n, w)
				add(key, nil, func(rng *rand.Rand) {
					data := rnd(rng, n*w)
					f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						var rows [][]frontend.Variable
						for i := 0; i < w; i++ {
							rows = append(rows, in[1+i*n:1+(i+1)*n])
						}
						if name == "rlp.Multiplexer" {
							return rlp.Multiplexer(api, in[0], w, n, rows)
						}
						return mux.Multiplex(api, in[0], w, n, rows)
					}
					for s := 0; s < n; s++ {
						out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
						r.Eval(name, fmt.Sprint(n, w, s, data))
						var want []*big.Int
						for i := 0; i < w; i++ {
							want = append(want, data[i*n+s])
						}
						r.Expect(err == nil && eq(out, want), key, map[string]any{"data": vm.Str(data), "selector": s}, "selected %v want %v (%v)", out, want, err)
					}
					for _, s := range outOfRange(rng, n) {
						out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
						r.Eval(name+"/outofrange", fmt.Sprint(n, w, s))
						r.Expect(err != nil, key+"/outofrange", s.String(), "an out-of-range selector selects %v", out)
					}
				})
			}
		}
	}
	for n := 1; n <= r.N(40, 70); n++ {
		n := n
		key := fmt.Sprintf("decoder/n=%d", n)
		add(key, n, func(rng *rand.Rand) {
			f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				o, ok := rlp.Decoder(api, n, in[0])
				return append(o, ok)
			}
			sel := []*big.Int{}
			for s := 0; s < n; s++ {
				sel = append(sel, big.NewInt(int64(s)))
			}
			sel = append(sel, outOfRange(rng, n)...)
			for _, s := range sel {
				out, err := vm.Run(vm.BN254, []frontend.Variable{s}, f)
				r.Eval("decoder", fmt.Sprint(n, s))
				want := make([]*big.Int, n+1)
				for i := range want {
					want[i] = big.NewInt(0)
				}
				if s.Cmp(big.NewInt(int64(n))) < 0 {
					want[s.Int64()] = big.NewInt(1)
					want[n] = big.NewInt(1)
				}
				r.Expect(err == nil && eq(out, want), key, s.String(), "decoded %v (%v)", out, err)
			}
			a, b := rnd(rng, n), rnd(rng, n)
			out, err := vm.Run(vm.BN254, vm.V(append(append([]*big.Int{}, a...), b...)), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{rlp.EscalarProduct(api, n, in[:n], in[n:])}
			})
			want := new(big.Int)
			for i := range a {
				want.Add(want, new(big.Int).Mul(a[i], b[i]))
			}
			want.Mod(want, vm.BN254)
			r.Eval("scalar product", fmt.Sprint(a, b))
			r.Expect(err == nil && out[0].Cmp(want) == 0, key, vm.Str(a), "scalar product %v want %v (%v)", out, want, err)
		})
	}
	// comparisons
	add("compare", nil, func(rng *rand.Rand) {
		for i := 0; i < r.N(2000, 8000); i++ {
			v := rnd(rng, 2)
			if i%3 == 0 {
				v[1] = new(big.Int).Add(v[0], big.NewInt(int64(rng.Intn(3)-1)))
				v[1].Mod(v[1], vm.BN254)
			}
			out, err := vm.Run(vm.BN254, vm.V(v), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return []frontend.Variable{rlp.LessThan(api, in[0], in[1]), rlp.Equal(api, in[0], in[1])}
			})
			r.Eval("compare", fmt.Sprint(v))
			lt, e := int64(0), int64(0)
			if v[0].Cmp(v[1]) < 0 {
				lt = 1
			}
			if v[0].Cmp(v[1]) == 0 {
				e = 1
			}
			r.Expect(err == nil && out[0].Int64() == lt && out[1].Int64() == e, "compare", vm.Str(v), "less-than/equal %v want %d %d (%v)", out, lt, e, err)
		}
		for n := 0; n < 5000; n++ {
			r.Expect(rlp.LogCeil(n) == bits.Len(uint(n)), "logceil", n, "LogCeil(%d)=%d", n, rlp.LogCeil(n))
		}
		r.Eval("logceil", "0..4999")
	})
	// array equality
	for n := 1; n <= r.N(40, 70); n++ {
		n := n
		key := fmt.Sprintf("arrayequal/n=%d", n)
		add(key, n, func(rng *rand.Rand) {
			for diff := -1; diff < n; diff++ {
				a := rnd(rng, n+rng.Intn(3))
				b := append([]*big.Int{}, a...)
				b = append(b, rnd(rng, rng.Intn(3))...)
				if diff >= 0 {
					b[diff] = new(big.Int).Mod(new(big.Int).Add(b[diff], big.NewInt(1)), vm.BN254)
				}
				f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					return []frontend.Variable{rlp.ArrayEqual(api, in[1:1+len(a)], in[1+len(a):], n, in[0])}
				}
				in := vm.V(append(append([]*big.Int{}, a...), b...))
				for t := 0; t <= n; t++ {
					if n > 10 && diff >= 0 && (t < diff-1 || t > diff+2) && t != n {
						continue
					}
					out, err := vm.Run(vm.BN254, append([]frontend.Variable{t}, in...), f)
					want := int64(1)
					if diff >= 0 && diff < t {
						want = 0
					}
					r.Eval("arrayequal", fmt.Sprint(n, diff, t, a))
					r.Expect(err == nil && out[0].IsInt64() && out[0].Int64() == want, key, map[string]any{"n": n, "differ_at": diff, "length": t}, "equality of the first %d is %v want %d (%v)", t, out, want, err)
				}
				for _, t := range outOfRange(rng, n+1) {
					_, err := vm.Run(vm.BN254, append([]frontend.Variable{t}, in...), f)
					r.Eval("arrayequal/outofrange", fmt.Sprint(n, diff, t))
					r.Expect(err != nil, key+"/outofrange", t.String(), "compares more elements than there are")
				}
			}
		})
	}
	// sub-arrays
	for _, n := range []int{1, 2, 3, 6, 7, 8, 15, 16, 31, 32, 64, 65, 100, 127, 128, 130, 200} {
		n := n
		if n > 130 && !r.Thorough {
			continue
		}
		key := fmt.Sprintf("subarray/n=%d", n)
		add(key, n, func(rng *rand.Rand) {
			for k := 0; k < r.N(30, 90); k++ {
				maxSel := 1 + rng.Intn(n)
				if k%2 == 0 {
					maxSel = n
				}
				nb := bits.Len(uint(n))
				data := rnd(rng, n)
				f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					o, l := rlp.NewSubArray(n, maxSel, nb).SubArray(api, in[2:], in[0], in[1])
					return append(append([]frontend.Variable{}, o...), l)
				}
				from := rng.Intn(n + 1)
				end := from + rng.Intn(min(maxSel, n-from)+1)
				if k == 1 {
					from, end = 0, maxSel
				}
				in := map[string]any{"n": n, "max": maxSel, "from": from, "end": end}
				out, err := vm.Run(vm.BN254, append([]frontend.Variable{from, end}, vm.V(data)...), f)
				r.Eval("subarray", fmt.Sprint(n, maxSel, from, end, data))
				if !r.Expect(err == nil && len(out) == maxSel+1, key, in, "unsatisfied: %v", err) {
					continue
				}
				r.Expect(out[maxSel].Cmp(big.NewInt(int64(end-from))) == 0 && eq(out[:end-from], data[from:end]), key, in, "sub-array %v of %v", out, data)
				for _, bad := range [][2]int{{end + 1, end}, {0, n + 1}, {n + 1, n + 1}, {-1, 1}, {0, maxSel + 1}} {
					if bad[0] >= 0 && bad[0] <= bad[1] && bad[1] <= n && bad[1]-bad[0] <= maxSel {
						continue
					}
					_, err := vm.Run(vm.BN254, append([]frontend.Variable{bad[0], bad[1]}, vm.V(data)...), f)
					r.Eval("subarray/outofrange", fmt.Sprint(n, maxSel, bad))
					r.Expect(err != nil, key+"/outofrange", bad, "an out-of-range sub-array is selected")
				}
			}
		})
	}
	// shifts
	for n := 1; n <= r.N(36, 60); n++ {
		n := n
		key := fmt.Sprintf("shiftleft/n=%d", n)
		add(key, n, func(rng *rand.Rand) {
			for k := 0; k < r.N(24, 60); k++ {
				lo := rng.Intn(n + 1)
				hi := lo + rng.Intn(n+2)
				data := rnd(rng, n)
				f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					return rlp.ShiftLeft(api, n, lo, hi, in[1:], in[0])
				}
				for s := lo; s <= hi; s++ {
					out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
					want := make([]*big.Int, n)
					for i := range want {
						want[i] = data[(i+s)%n]
					}
					r.Eval("shiftleft", fmt.Sprint(n, lo, hi, s, data))
					r.Expect(err == nil && eq(out, want), key, map[string]any{"n": n, "min": lo, "max": hi, "shift": s}, "shifted %v want %v (%v)", out, want, err)
				}
				for _, s := range []int{lo - 1, lo - 2, lo + 1<<bits.Len(uint(hi-lo))} {
					if s >= lo && s <= hi {
						continue
					}
					out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
					r.Eval("shiftleft/outofrange", fmt.Sprint(n, lo, hi, s))
					r.Expect(err != nil, key+"/outofrange", map[string]any{"n": n, "min": lo, "max": hi, "shift": s}, "an out-of-range shift is done: %v", out)
				}
			}
		})
		key2 := fmt.Sprintf("shiftright/n=%d", n)
		add(key2, n, func(rng *rand.Rand) {
			for _, nb := range []int{bits.Len(uint(n)), bits.Len(uint(n)) + 1, 1} {
				data := rnd(rng, n)
				f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					return rlp.ShiftRight(api, n, nb, in[1:], in[0])
				}
				for s := 0; s < 1<<nb; s++ {
					out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
					want := make([]*big.Int, n)
					for i := range want {
						want[i] = big.NewInt(0)
						if i >= s {
							want[i] = data[i-s]
						}
					}
					r.Eval("shiftright", fmt.Sprint(n, nb, s, data))
					r.Expect(err == nil && eq(out, want), key2, map[string]any{"n": n, "bits": nb, "shift": s}, "shifted %v want %v (%v)", out, want, err)
				}
				for _, s := range []int{1 << nb, -1} {
					out, err := vm.Run(vm.BN254, append([]frontend.Variable{s}, vm.V(data)...), f)
					r.Eval("shiftright/outofrange", fmt.Sprint(n, nb, s))
					r.Expect(err != nil, key2+"/outofrange", s, "an out-of-range shift is done: %v", out)
				}
			}
		})
	}
	// compiled: a selector that is not a constant is constrained the same way
	add("compiled", nil, func(rng *rand.Rand) {
		n := 9
		cc, err := vm.Compile(vm.BN254, 1+n, false, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := rlp.Multiplexer(api, in[0], 1, n, [][]frontend.Variable{in[1:]})
			return append(o, rlp.ShiftLeft(api, n, 0, n-1, in[1:], in[0])...)
		})
		if err != nil {
			r.Violate("compiled", nil, "does not compile: %v", err)
			return
		}
		data := rnd(rng, n)
		for s := 0; s < n+2; s++ {
			out, err := cc.Solve(append([]frontend.Variable{s}, vm.V(data)...))
			r.Eval("compiled", fmt.Sprint(s, data))
			if s >= n {
				r.Expect(err != nil, "compiled/outofrange", s, "an out-of-range selector is accepted")
				continue
			}
			r.Expect(err == nil && out[0].Cmp(data[s]) == 0 && out[1].Cmp(data[s]) == 0, "compiled", s, "selected %v want %v (%v)", out, data[s], err)
		}
	})
	vm.Par(len(jobs), 0, func(i int) { jobs[i]() })
}
