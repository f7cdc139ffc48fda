// Monitors of the Keccak gadgets (C01) and Keccak padding (C02).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	commonc "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/consensys/gnark/frontend"
	"golang.org/x/crypto/sha3"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C01": {Run: c01, Rule: "one evaluation = one gadget run on one message with one round selection, tail and variant; non-trivial = distinct (variant, message length, rounds, content) with a non-empty or boundary-length message; the oracle is x/crypto Keccak-256 (and an independent keccak-f for the permutation)"},
		"C02": {Run: c02, Rule: "one evaluation = one padding helper run on one (length, content, capacity); non-trivial = distinct (helper, length, capacity); the oracle is an independent pad10*1 plus canary bytes around the caller's buffer"},
	})
}

func k256(m []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(m)
	return h.Sum(nil)
}

// padRef is pad10*1 written from its definition.
func padRef(m []byte) []byte {
	n := (len(m)/136 + 1) * 136
	p := make([]byte, n)
	copy(p, m)
	p[len(m)] |= 0x01
	p[n-1] |= 0x80
	return p
}

func bitsOf(b []byte) []frontend.Variable {
	out := make([]frontend.Variable, 0, 8*len(b))
	for _, x := range b {
		for i := 0; i < 8; i++ {
			out = append(out, int(x>>i&1))
		}
	}
	return out
}

func bytesOfBits(v []*big.Int) ([]byte, bool) {
	out := make([]byte, len(v)/8)
	for i, x := range v {
		if !x.IsUint64() || x.Uint64() > 1 {
			return nil, false
		}
		out[i/8] |= byte(x.Uint64()) << (i % 8)
	}
	return out, true
}

func bytesOfNibs(v []*big.Int) ([]byte, bool) {
	out := make([]byte, len(v)/2)
	for i, x := range v {
		if !x.IsUint64() || x.Uint64() > 15 {
			return nil, false
		}
		out[i/2] |= byte(x.Uint64()) << (4 * (1 - i%2))
	}
	return out, true
}

func content(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch rng.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2: // looks like padding
		for i := range b {
			b[i] = []byte{0x01, 0x80, 0x81, 0}[rng.Intn(4)]
		}
	default:
		rng.Read(b)
	}
	return b
}

// lanes of data, padded up to rounds*17 with junk lanes.
func lanes(rng *rand.Rand, padded []byte, rounds int, junk bool) []frontend.Variable {
	out := make([]frontend.Variable, rounds*17)
	for i := range out {
		switch {
		case (i+1)*8 <= len(padded):
			out[i] = binary.LittleEndian.Uint64(padded[8*i:])
		case junk:
			out[i] = rng.Uint64()
		default:
			out[i] = 0
		}
	}
	return out
}

func lengthsFor(rng *rand.Rand, blocks, extra int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 0 && n < blocks*136 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	add(0)
	add(1)
	for b := 1; b <= blocks; b++ {
		for _, d := range []int{-2, -1, 0, 1} {
			if extra < 20 && blocks > 4 && b > 1 && b < blocks && rng.Intn(blocks) > 2 {
				continue // quick: a seeded sample of the inner boundaries
			}
			add(b*136 + d)
		}
	}
	if extra < 20 && blocks > 16 {
		extra = 1
	}
	for i := 0; i < extra; i++ {
		add(rng.Intn(blocks * 136))
	}
	return
}

type wordVariant struct {
	name   string
	rounds int
	f      vm.Fn // in: roundIndex, lanes
	nibs   vm.Fn // in: roundIndex, inLen, nibbles; out 64 nibbles + length
}

func variants() []wordVariant {
	return []wordVariant{
		{"std", keccak.MAX_ROUNDS, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			var b [keccak.MAX_ROUNDS][17]frontend.Variable
			for i := range b {
				copy(b[i][:], in[1+17*i:])
			}
			o := keccak.Keccak256(api, b, in[0])
			return o[:]
		}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := rlp.Keccak256AsNibbles(api, in[1], keccak.NibblesToU64Array(api, in[2:]), in[0])
			return append(append([]frontend.Variable{}, o.Output[:]...), o.OutputLength)
		}},
		{"normaltx", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			var b [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
			for i := range b {
				copy(b[i][:], in[1+17*i:])
			}
			o := keccak.Keccak256ForNormalTransaction(api, b, in[0])
			return o[:]
		}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := rlp.Keccak256ForNormalTransactionAsNibbles(api, in[1], keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, in[2:]), in[0])
			return append(append([]frontend.Variable{}, o.Output[:]...), o.OutputLength)
		}},
		{"maxtx", keccak.MAX_TRANSACTION_LEAF_ROUNDS, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			var b [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]frontend.Variable
			for i := range b {
				copy(b[i][:], in[1+17*i:])
			}
			o := keccak.Keccak256ForMaxTransaction(api, b, in[0])
			return o[:]
		}, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			o := rlp.Keccak256ForMaxTransactionAsNibbles(api, in[1], keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, in[2:]), in[0])
			return append(append([]frontend.Variable{}, o.Output[:]...), o.OutputLength)
		}},
	}
}

func c01(r *vm.R) {
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, f) }
	for _, v := range variants() {
		v := v
		rng := r.Rand("len/" + v.name)
		for _, n := range lengthsFor(rng, v.rounds, r.N(8, 400)) {
			n := n
			key := fmt.Sprintf("words/%s/len=%d", v.name, n)
			add(func() {
				g := r.Rand(key)
				m := content(g, n)
				p := padRef(m)
				ri := len(p)/136 - 1
				junk := g.Intn(3) > 0
				r.Case(key, map[string]any{"msg": vm.Hex(m), "junk_tail": junk}, func() {
					// the library's own padding feeds the gadget
					lib := keccak.Pad101Bytes(append([]byte{}, m...))
					if !bytes.Equal(lib, p) {
						r.Violate(key, vm.Hex(m), "library padding differs from pad10*1: %x", lib)
					}
					if got := keccak.GetKeccakRoundForPaddedBytes(lib); got != ri {
						r.Violate(key, vm.Hex(m), "round of padded bytes %d want %d", got, ri)
					}
					in := append([]frontend.Variable{ri}, lanes(g, p, v.rounds, junk)...)
					out, err := vm.Run(vm.BN254, in, v.f)
					r.Eval("words/"+v.name, vm.Hex(m))
					r.Sample("words/"+v.name, map[string]any{"len": n, "round": ri, "junk": junk})
					if err != nil {
						r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
						return
					}
					got := make([]byte, 32)
					for i, o := range out {
						if !o.IsUint64() {
							r.Violate(key, vm.Hex(m), "lane %d is not a 64-bit word: %v", i, o)
							return
						}
						binary.LittleEndian.PutUint64(got[8*i:], o.Uint64())
					}
					r.Expect(bytes.Equal(got, k256(m)), key, vm.Hex(m), "digest %x want %x", got, k256(m))
				})
			})
		}
		// nibble pipeline
		for _, n := range lengthsFor(r.Rand("nlen/"+v.name), v.rounds, r.N(2, 100)) {
			if n%136 > 2 && n%136 < 134 && n > 400 && !r.Thorough {
				continue
			}
			n := n
			key := fmt.Sprintf("nibbles/%s/len=%d", v.name, n)
			add(func() {
				g := r.Rand(key)
				m := content(g, n)
				p := padRef(m)
				ri := len(p)/136 - 1
				buf := make([]byte, v.rounds*136)
				copy(buf, p)
				if g.Intn(2) == 0 {
					g.Read(buf[len(p):])
				}
				r.Case(key, vm.Hex(m), func() {
					in := append([]frontend.Variable{ri, 2 * n}, vm.V(vm.Nibbles(buf))...)
					out, err := vm.Run(vm.BN254, in, v.nibs)
					r.Eval("nibbles/"+v.name, vm.Hex(m))
					if err != nil {
						r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
						return
					}
					got, ok := bytesOfNibs(out[:64])
					r.Expect(ok && bytes.Equal(got, k256(m)), key, vm.Hex(m), "digest nibbles %v want %x", vm.Ints(out[:64]), k256(m))
					wantLen := int64(64)
					if 2*n < 64 {
						wantLen = int64(2 * n)
					}
					r.Expect(out[64].Cmp(big.NewInt(wantLen)) == 0, key, vm.Hex(m), "output length %v want %d", out[64], wantLen)
				})
			})
		}
		// out-of-range round selections are never satisfiable
		for _, ri := range []int{v.rounds, v.rounds + 1, 255, -1} {
			key := fmt.Sprintf("words/%s/round=%d", v.name, ri)
			ri := ri
			add(func() {
				r.Case(key, ri, func() {
					in := append([]frontend.Variable{ri}, lanes(r.Rand(key), padRef(nil), v.rounds, false)...)
					out, err := vm.Run(vm.BN254, in, v.f)
					r.Eval("words/"+v.name+"/outofrange", key)
					r.Expect(err != nil, key, ri, "round index outside the capacity accepted: %v", out)
				})
			})
		}
	}
	// partial-width recomposition
	for w := 1; w <= r.N(4, 10); w++ {
		w := w
		key := fmt.Sprintf("recompose/w=%d", w)
		add(func() {
			g := r.Rand(key)
			b := content(g, 136*g.Intn(w+1))
			r.Case(key, vm.Hex(b), func() {
				out, err := vm.Run(vm.BN254, vm.V(vm.Nibbles(b)), func(api frontend.API, in []frontend.Variable) (o []frontend.Variable) {
					for _, blk := range keccak.RecomposeHexToKeccakU64s(api, in, w) {
						o = append(o, blk[:]...)
					}
					return
				})
				r.Eval("recompose", key)
				if err != nil || len(out) != 17*w {
					r.Violate(key, vm.Hex(b), "failed: %v (%d words)", err, len(out))
					return
				}
				for i := range out {
					want := uint64(0)
					if 8*i < len(b) {
						want = binary.LittleEndian.Uint64(b[8*i:])
					}
					r.Expect(out[i].Cmp(new(big.Int).SetUint64(want)) == 0, key, vm.Hex(b), "word %d = %v want %d", i, out[i], want)
				}
			})
		})
	}
	// bit gadgets
	maxR := r.N(4, 8)
	for max := 1; max <= maxR; max++ {
		for min := 0; min <= max; min++ { // min 0: plain variant
			for ri := 0; ri < max; ri++ {
				if min > 0 && ri < min-1 {
					continue
				}
				max, min, ri := max, min, ri
				key := fmt.Sprintf("bits/min=%d/max=%d/round=%d", min, max, ri)
				add(func() {
					g := r.Rand(key)
					n := ri*136 + []int{0, 1, 134, 135, g.Intn(136)}[g.Intn(5)]
					m := content(g, n)
					p := padRef(m)
					tail := make([]byte, max*136-len(p))
					junk := g.Intn(2) == 0
					if junk {
						g.Read(tail)
					}
					r.Case(key, map[string]any{"msg": vm.Hex(m), "tail": vm.Hex(tail)}, func() {
						in := append([]frontend.Variable{ri}, bitsOf(append(append([]byte{}, p...), tail...))...)
						f := func(api frontend.API, in []frontend.Variable) []frontend.Variable {
							if min == 0 {
								o := keccak.Keccak256Bits(api, max, in[0], in[1:])
								return o[:]
							}
							o := keccak.Keccak256BitsOptimized(api, min, max, in[0], in[1:])
							return o[:]
						}
						out, err := vm.Run(vm.BN254, in, f)
						r.Eval("bits", key+vm.Hex(m))
						r.Sample("bits", map[string]any{"min": min, "max": max, "round": ri, "len": n, "junk": junk})
						if err != nil {
							r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
							return
						}
						got, ok := bytesOfBits(out)
						r.Expect(ok && bytes.Equal(got, k256(m)), key, vm.Hex(m), "digest bits %x want %x", got, k256(m))
					})
				})
			}
			if max > 1 {
				bad := []int{max, max + 7, -1}
				if min > 1 {
					bad = append(bad, min-2)
				}
				for _, ri := range bad {
					key := fmt.Sprintf("bits/min=%d/max=%d/bad=%d", min, max, ri)
					min, max, ri := min, max, ri
					add(func() {
						r.Case(key, ri, func() {
							buf := make([]byte, max*136)
							copy(buf, padRef(nil))
							in := append([]frontend.Variable{ri}, bitsOf(buf)...)
							_, err := vm.Run(vm.BN254, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
								if min == 0 {
									o := keccak.Keccak256Bits(api, max, in[0], in[1:])
									return o[:]
								}
								o := keccak.Keccak256BitsOptimized(api, min, max, in[0], in[1:])
								return o[:]
							})
							r.Eval("bits/outofrange", key)
							r.Expect(err != nil, key, ri, "round index outside the selectable rounds accepted")
						})
					})
				}
			}
		}
	}
	// permutation
	for i := 0; i < r.N(6, 200); i++ {
		key := fmt.Sprintf("permute/%d", i)
		i := i
		add(func() {
			g := r.Rand(key)
			var s [25]uint64
			for k := range s {
				switch i {
				case 0:
				case 1:
					s[k] = ^uint64(0)
				default:
					s[k] = g.Uint64()
				}
			}
			r.Case(key, s, func() {
				b := make([]byte, 200)
				for k := range s {
					binary.LittleEndian.PutUint64(b[8*k:], s[k])
				}
				out, err := vm.Run(vm.BN254, bitsOf(b), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					var a [1600]frontend.Variable
					copy(a[:], in)
					o := keccakf.Permute(api, a)
					return o[:]
				})
				r.Eval("permute", key)
				if err != nil {
					r.Violate(key, s, "unsatisfied: %v", err)
					return
				}
				got, ok := bytesOfBits(out)
				refF(&s)
				for k := range s {
					binary.LittleEndian.PutUint64(b[8*k:], s[k])
				}
				r.Expect(ok && bytes.Equal(got, b), key, i, "permuted state %x want %x", got, b)
			})
		})
	}
	// compiled constraint systems: honest message solves to the digest, both back ends
	for _, plonk := range []bool{false, true} {
		for _, max := range []int{1, 2} {
			plonk, max := plonk, max
			key := fmt.Sprintf("compiled/plonk=%v/max=%d", plonk, max)
			if max == 2 && plonk && !r.Thorough {
				continue
			}
			add(func() {
				r.Case(key, nil, func() {
					c, err := vm.Compile(vm.BN254, 1+max*1088, plonk, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
						o := keccak.Keccak256Bits(api, max, in[0], in[1:])
						return o[:]
					})
					if err != nil {
						r.Violate(key, nil, "does not compile: %v", err)
						return
					}
					r.Count("compiled_constraints", int64(c.CS.GetNbConstraints()))
					for _, n := range []int{0, 55, 135, 136*max - 1} {
						m := content(r.Rand(fmt.Sprint(key, n)), n)
						p := padRef(m)
						ri := len(p)/136 - 1
						if ri >= max {
							continue
						}
						buf := make([]byte, max*136)
						copy(buf, p)
						out, err := c.Solve(append([]frontend.Variable{ri}, bitsOf(buf)...))
						r.Eval("compiled", fmt.Sprint(key, n))
						if err != nil {
							r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
							continue
						}
						got, ok := bytesOfBits(out)
						r.Expect(ok && bytes.Equal(got, k256(m)), key, vm.Hex(m), "compiled digest %x want %x", got, k256(m))
					}
					// a non-bit input must not satisfy the bit gadget
					bad := bitsOf(make([]byte, max*136))
					bad[3] = 2
					if max == 1 {
						_, err = c.Solve(append([]frontend.Variable{0}, bad...))
						r.Eval("compiled/nonbit", key)
						r.Expect(err != nil, key, "bit=2", "a message bit equal to 2 is accepted")
					}
				})
			})
		}
	}
	vm.Par(len(jobs), 0, func(i int) { jobs[len(jobs)-1-i]() }) // compilations first
}

var rc = [24]uint64{}

func init() { // round constants from the LFSR definition
	lfsr := byte(1)
	for i := 0; i < 24; i++ {
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				rc[i] |= 1 << ((1 << j) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
}

// refF is keccak-f[1600] from its specification.
func refF(a *[25]uint64) {
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				c[x] ^= a[x+5*y]
			}
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		x, y, cur := 1, 0, a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], bits.RotateLeft64(cur, (t+1)*(t+2)/2)
		}
		for y := 0; y < 5; y++ {
			var row [5]uint64
			for x := 0; x < 5; x++ {
				row[x] = a[x+5*y]
			}
			for x := 0; x < 5; x++ {
				a[x+5*y] = row[x] ^ (^row[(x+1)%5] & row[(x+2)%5])
			}
		}
		a[0] ^= rc[round]
	}
}

func c02(r *vm.R) {
	maxLen := r.N(11*136+3, 15*136)
	natives := []struct {
		name  string
		bytes func([]byte) []byte
		words func([]byte) []uint64
		bbits func([]byte) []uint8
		u64s  func([]byte) []uint64
	}{
		{"gadget", keccak.Pad101Bytes, keccak.Pad101, keccak.Bytes2BlockBits, keccak.Bytes2Uint64s},
		{"common", commonc.Pad101Bytes, commonc.Pad101, commonc.Bytes2BlockBits, commonc.Bytes2Uint64s},
	}
	for _, nt := range natives {
		nt := nt
		vm.Par(maxLen+1, 0, func(n int) {
			for _, spare := range []int{0, 1, 7, 136, 300} {
				key := fmt.Sprintf("native/%s/len=%d", nt.name, n)
				g := r.Rand(fmt.Sprint(key, spare))
				r.Case(key, map[string]any{"len": n, "spare": spare}, func() {
					back := make([]byte, n+spare)
					g.Read(back)
					want := append([]byte{}, back...)
					m := back[:n]
					p := padRef(append([]byte{}, m...))
					got := nt.bytes(m)
					r.Eval("native/"+nt.name, fmt.Sprint(n, "/", spare))
					r.Expect(bytes.Equal(got, p), key, n, "padding %x want %x", got, p)
					r.Expect(bytes.Equal(back, want), "alias/"+nt.name, map[string]int{"len": n, "spare": spare}, "padding %d bytes wrote into the caller's buffer (capacity %d)", n, n+spare)
					copy(back, want)
					w := nt.words(m)
					r.Expect(bytes.Equal(back, want), "alias/"+nt.name, map[string]int{"len": n, "spare": spare}, "word padding wrote into the caller's buffer")
					copy(back, want)
					ok := len(w)*8 == len(p)
					for i := 0; ok && i < len(w); i++ {
						ok = w[i] == binary.LittleEndian.Uint64(p[8*i:])
					}
					r.Expect(ok, key, n, "word padding %v", w)
					bb := nt.bbits(p)
					ok = len(bb) == 8*len(p)
					for i := 0; ok && i < len(bb); i++ {
						ok = bb[i] == p[i/8]>>(i%8)&1
					}
					r.Expect(ok, key, n, "block bits wrong")
					// results of two calls are independent
					a := nt.bytes(m)
					b := nt.bytes(m)
					for i := range a {
						a[i] ^= 0xff
					}
					r.Expect(bytes.Equal(b, p), "alias/"+nt.name, n, "two padding results share memory")
					if nt.name == "gadget" {
						r.Expect(keccak.GetKeccakRoundForPaddedBytes(p) == n/136, key, n, "round for padded bytes %d want %d", keccak.GetKeccakRoundForPaddedBytes(p), n/136)
						if len(w) <= 17*keccak.MAX_ROUNDS {
							blocks, good := keccak.Uint64s2Blocks(w), true
							for i := 0; i < 17*keccak.MAX_ROUNDS; i++ {
								var x uint64
								if i < len(w) {
									x = w[i]
								}
								good = good && fmt.Sprint(blocks[i/17][i%17]) == fmt.Sprint(x)
							}
							r.Expect(good, key, n, "word blocks %v of %v", blocks, w)
						}
						r.Expect(keccak.GetRoundIndex(8*n) == n/136, "round-index", n, "round index for %d bytes = %d want %d", n, keccak.GetRoundIndex(8*n), n/136)
					}
				})
			}
		})
		r.Sample("native/"+nt.name, map[string]any{"lengths": []int{0, maxLen}, "spare": []int{0, 1, 7, 136, 300}})
	}
	// all 4-byte-boundary bit conversions
	for n := 0; n <= 64; n += 8 {
		b := make([]byte, n)
		r.Rand(fmt.Sprint("b2b", n)).Read(b)
		r.Case(fmt.Sprintf("bytes2bits/%d", n), n, func() {
			for k, f := range []func([]byte) []uint8{keccak.Bytes2Bits, commonc.Bytes2Bits} {
				x := f(b)
				r.Eval("bytes2bits", fmt.Sprint(k, n))
				ok := len(x) == 8*n
				for i := 0; ok && i < len(x); i++ {
					ok = x[i] == b[i/8]>>(i%8)&1
				}
				r.Expect(ok, fmt.Sprintf("bytes2bits/%d", n), n, "bits %v of %x", x, b)
			}
		})
	}
	// in-circuit padding with fixed length
	var lens []int
	for _, n := range append(lengthsFor(r.Rand("pb"), 3, r.N(20, 200)), 130, 133) {
		lens = append(lens, n)
	}
	vm.Par(len(lens), 0, func(i int) {
		n := lens[i]
		for extra := 0; extra < 2; extra++ {
			rounds := n/136 + 1 + extra
			key := fmt.Sprintf("padbits/len=%d", n)
			m := content(r.Rand(key), n)
			r.Case(key, vm.Hex(m), func() {
				out, err := vm.Run(vm.BN254, bitsOf(m), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
					back := append(append([]frontend.Variable{}, in...), 7, 7, 7, 7)
					o := keccak.PadBits101(api, back[:len(in)], rounds)
					for _, x := range back[len(in):] {
						if x != 7 {
							r.Violate("alias/padbits", n, "in-circuit padding wrote into the caller's slice")
						}
					}
					return o
				})
				r.Eval("padbits", fmt.Sprint(n, "/", rounds))
				if err != nil {
					r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
					return
				}
				want := append(padRef(m), make([]byte, 136*extra)...)
				got, ok := bytesOfBits(out)
				r.Expect(ok && bytes.Equal(got, want), key, vm.Hex(m), "padded bits %x want %x", got, want)
			})
		}
	})
	// in-circuit padding with variable length: (element width, min, max) and every length in between
	type pv struct{ inBits, min, max, n int } // min, max, n in bytes
	var pvs []pv
	for _, ib := range []int{1, 2, 4, 8} {
		for _, mm := range [][2]int{{0, 0}, {0, 5}, {130, 140}, {134, 137}, {0, 136}, {128, 135}, {270, 275}, {135, 135}} {
			for n := mm[0]; n <= mm[1]; n++ {
				if mm[1]-mm[0] > 20 && n%9 != 0 && n < 133 && !r.Thorough {
					continue
				}
				if ib == 2 && mm[0] != 130 && !r.Thorough {
					continue
				}
				pvs = append(pvs, pv{ib, mm[0], mm[1], n})
			}
		}
	}
	vm.Par(len(pvs), 0, func(i int) {
		c := pvs[i]
		key := fmt.Sprintf("pad101bits/in=%d/min=%d/max=%d/len=%d", c.inBits, c.min, c.max, c.n)
		g := r.Rand(key)
		m := content(g, c.n)
		full := make([]byte, c.max)
		if g.Intn(2) == 0 {
			g.Read(full) // junk behind the message
		}
		copy(full, m)
		r.Case(key, map[string]any{"msg": vm.Hex(m), "buffer": vm.Hex(full)}, func() {
			per := 8 / c.inBits
			var in []frontend.Variable
			for _, b := range full {
				for k := per - 1; k >= 0; k-- {
					in = append(in, int(b>>(k*c.inBits))&(1<<c.inBits-1))
				}
			}
			out, err := vm.Run(vm.BN254, append([]frontend.Variable{c.n * per}, in...), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return keccak.Pad101Bits(api, c.inBits, c.min*per, c.max*per, in[1:], in[0])
			})
			r.Eval("pad101bits", key)
			r.Sample("pad101bits", key)
			if err != nil {
				r.Violate(key, vm.Hex(m), "unsatisfied: %v", err)
				return
			}
			got, ok := bytesOfBits(out)
			want := padRef(m)
			if ok && len(got) >= len(want) && len(got)%136 == 0 {
				want = append(want, make([]byte, len(got)-len(want))...)
			}
			r.Expect(ok && bytes.Equal(got, want), key, vm.Hex(m), "padded %x want %x", got, want)
		})
	})
	// lengths outside [min,max] are unsatisfiable
	for _, n := range []int{-1, 3, 11, 12} {
		key := fmt.Sprintf("pad101bits/outofrange=%d", n)
		r.Case(key, n, func() {
			in := make([]frontend.Variable, 11)
			for i := range in {
				in[i] = 5
			}
			in[0] = n
			_, err := vm.Run(vm.BN254, in, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				return keccak.Pad101Bits(api, 8, 4, 10, in[1:], in[0])
			})
			r.Eval("pad101bits/outofrange", key)
			r.Expect(err != nil, key, n, "length outside the configured range is accepted")
		})
	}
}
