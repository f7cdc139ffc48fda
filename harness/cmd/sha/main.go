// Monitors of the SHA-256 (C03) and SHA-512 (C04) gadgets: write/sum/reset/fork histories against crypto/sha256 and crypto/sha512.
package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"
	"math/rand"

	"verifharness/vm"

	gsha256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	gsha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/consensys/gnark/frontend"
)

const rule = "one evaluation = one digest observed in one history of write/sum/reset/fork operations (or a rejected non-byte input); non-trivial = distinct (history shape, content) ; the oracle is the Go standard library over the concatenation of the live writes"

func main() {
	vm.Main(map[string]vm.Spec{
		"C03": {Run: func(r *vm.R) { run(r, s256) }, Rule: rule},
		"C04": {Run: func(r *vm.R) { run(r, s512) }, Rule: rule},
	})
}

// dig is the gadget's interface as a client sees it.
type dig interface {
	Write(p []frontend.Variable) (int, error)
	Sum() []frontend.Variable
	Reset()
}

type suite struct {
	name  string
	block int
	size  int
	std   func() hash.Hash
	mk    func(api frontend.API) dig
	fork  func(d dig) dig
}

// fork copies the digest value, which is what a client does with d2 := d.
var s256 = suite{"sha256", 64, 32, sha256.New,
	func(api frontend.API) dig { d := gsha256.New(api); return &d },
	func(d dig) dig { return forkAny(d) }}
var s512 = suite{"sha512", 128, 64, sha512.New,
	func(api frontend.API) dig { d := gsha512.New(api); return &d },
	func(d dig) dig { return forkAny(d) }}

type op struct {
	kind string // write, sum, reset, fork (sum on a copy that got more data)
	n    int
}

func (o op) String() string { return fmt.Sprintf("%s%d", o.kind, o.n) }

// replay runs the history natively: expected digests, in order.
func (s suite) expect(ops []op, data []byte) (want [][]byte) {
	cur := []byte{}
	off := 0
	for _, o := range ops {
		switch o.kind {
		case "write":
			cur = append(cur, data[off:off+o.n]...)
			off += o.n
		case "reset":
			cur = []byte{}
		case "sum":
			h := s.std()
			h.Write(cur)
			want = append(want, h.Sum(nil))
		case "fork":
			h := s.std()
			h.Write(cur)
			h.Write(data[off : off+o.n])
			off += o.n
			want = append(want, h.Sum(nil))
		}
	}
	return
}

func (s suite) fn(r *vm.R, ops []op) vm.Fn {
	return func(api frontend.API, in []frontend.Variable) (out []frontend.Variable) {
		d := s.mk(api)
		off := 0
		wr := func(d dig, n int) {
			buf := make([]frontend.Variable, n)
			copy(buf, in[off:off+n])
			off += n
			k, err := d.Write(buf)
			if k != n || err != nil {
				r.Violate("write-result", fmt.Sprint(ops), "Write of %d bytes returned %d, %v", n, k, err)
			}
			for i := range buf { // the caller reuses its buffer
				buf[i] = 77
			}
		}
		for _, o := range ops {
			switch o.kind {
			case "write":
				wr(d, o.n)
			case "reset":
				d.Reset()
			case "sum":
				out = append(out, d.Sum()...)
			case "fork":
				c := s.fork(d)
				wr(c, o.n)
				out = append(out, c.Sum()...)
			}
		}
		return
	}
}

func total(ops []op) (n int) {
	for _, o := range ops {
		if o.kind == "write" || o.kind == "fork" {
			n += o.n
		}
	}
	return
}

func data(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch rng.Intn(5) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = []byte{0x80, 0, 1, 0x7f}[rng.Intn(4)]
		}
	default:
		rng.Read(b)
	}
	return b
}

func check(r *vm.R, s suite, key string, ops []op, d []byte, out []*big.Int) {
	want := s.expect(ops, d)
	if len(out) != len(want)*s.size {
		r.Violate(key, fmt.Sprint(ops), "%d output bytes for %d digests", len(out), len(want))
		return
	}
	for i, w := range want {
		got := make([]byte, s.size)
		for k := range got {
			o := out[i*s.size+k]
			if !o.IsUint64() || o.Uint64() > 255 {
				r.Violate(key, fmt.Sprint(ops), "output %d is not a byte: %v", k, o)
				return
			}
			got[k] = byte(o.Uint64())
		}
		r.Expect(bytes.Equal(got, w), key, map[string]any{"history": fmt.Sprint(ops), "data": vm.Hex(d)}, "digest %d = %x want %x", i, got, w)
	}
}

func run(r *vm.R, s suite) {
	type job struct {
		key string
		ops []op
	}
	var jobs []job
	B := s.block
	pad := B - B/8 // first length whose padding needs another block
	// one-shot: every length modulo the block size (quick: around boundaries and a stride)
	for n := 0; n <= 2*B+2; n++ {
		near := n%B <= 1 || n%B >= B-1 || (n%B >= pad-2 && n%B <= pad+1)
		if r.Thorough || near || n%5 == int(r.Seed%5) {
			jobs = append(jobs, job{fmt.Sprintf("oneshot/len=%d", n), []op{{"write", n}, {"sum", 0}}})
		}
	}
	// lengths whose byte or bit count needs more than one or two bytes of the length field
	for _, n := range []int{255, 256, 8191, 8192 + B - 9} {
		if n < 8000 || s.block == 64 && n > 8191 || s.block == 128 && n == 8191 || r.Thorough {
			jobs = append([]job{{fmt.Sprintf("oneshot/len=%d", n), []op{{"write", n / 3}, {"write", n - n/3}, {"sum", 0}}}}, jobs...)
		}
	}
	jobs = append(jobs, job{"oneshot/empty", []op{{"sum", 0}}})
	// every split of a message around the block boundary
	for _, tot := range []int{B - 1, B, B + 1, 2*B + 1} {
		for _, a := range []int{0, 1, B / 2, pad - 1, pad, B - 1, B, B + 1} {
			if a > tot {
				continue
			}
			jobs = append(jobs, job{fmt.Sprintf("split/%d+%d", a, tot-a), []op{{"write", a}, {"write", tot - a}, {"sum", 0}}})
		}
	}
	// random histories
	rng := r.Rand("histories")
	for i := 0; i < r.N(30, 600); i++ {
		var ops []op
		budget := 3 * B
		for k := 0; k < 2+rng.Intn(6); k++ {
			n := []int{0, 1, rng.Intn(B), B - 1, B, pad, rng.Intn(2 * B)}[rng.Intn(7)]
			if n > budget {
				n = budget
			}
			switch c := rng.Intn(10); {
			case c < 6:
				ops = append(ops, op{"write", n})
				budget -= n
			case c < 8:
				ops = append(ops, op{"sum", 0})
			case c < 9:
				ops = append(ops, op{"fork", n % 20})
			default:
				ops = append(ops, op{"reset", 0})
			}
		}
		ops = append(ops, op{"sum", 0}, op{"sum", 0})
		jobs = append(jobs, job{fmt.Sprintf("history/%d", i), ops})
	}
	vm.Par(len(jobs), 0, func(i int) {
		j := jobs[i]
		d := data(r.Rand(j.key), total(j.ops))
		r.Case(j.key, map[string]any{"history": fmt.Sprint(j.ops), "data": vm.Hex(d)}, func() {
			out, err := vm.Run(vm.BN254, vm.V(d), s.fn(r, j.ops))
			r.Eval("history", fmt.Sprint(j.ops)+vm.Hex(d))
			r.Count("digests", int64(len(s.expect(j.ops, d))))
			r.Sample("history", fmt.Sprint(j.ops))
			if err != nil {
				r.Violate(j.key, fmt.Sprint(j.ops), "unsatisfied: %v", err)
				return
			}
			check(r, s, j.key, j.ops, d, out)
		})
	})
	// compiled systems
	for _, plonk := range []bool{false, true} {
		for _, n := range []int{3, pad} {
			if n == pad && plonk && !r.Thorough {
				continue
			}
			key := fmt.Sprintf("compiled/plonk=%v/len=%d", plonk, n)
			ops := []op{{"write", n}, {"sum", 0}}
			r.Case(key, nil, func() {
				c, err := vm.Compile(vm.BN254, n, plonk, s.fn(r, ops))
				if err != nil {
					r.Violate(key, nil, "does not compile: %v", err)
					return
				}
				r.Count("compiled_constraints", int64(c.CS.GetNbConstraints()))
				for k := 0; k < 3; k++ {
					d := data(r.Rand(fmt.Sprint(key, k)), n)
					out, err := c.Solve(vm.V(d))
					r.Eval("compiled", key+vm.Hex(d))
					if err != nil {
						r.Violate(key, vm.Hex(d), "unsatisfied: %v", err)
						continue
					}
					check(r, s, key, ops, d, out)
				}
				for _, bad := range []int64{256, -1, 1 << 40} {
					in := vm.V(data(r.Rand(key), n))
					in[n-1] = bad
					_, err := c.Solve(in)
					r.Eval("nonbyte", fmt.Sprint(key, bad))
					r.Expect(err != nil, key+"/nonbyte", bad, "an input element that is not a byte is accepted")
				}
			})
		}
	}
}
