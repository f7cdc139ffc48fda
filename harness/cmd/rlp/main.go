// Monitors of the RLP gadgets: C05 completeness, C06 length accounting, C07 block headers, C13 selection.
package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"
)

func main() {
	vm.Main(map[string]vm.Spec{
		"C05": {Run: c05, Rule: "one evaluation = one canonical list run through one list gadget; non-trivial = distinct (gadget, configuration, list, trailing bytes); the oracle is an independent RLP encoder: accepted, exact field lengths, payload nibbles and total length"},
		"C06": {Run: c06, Rule: "one evaluation = one list with mutated prefixes/lengths/fields run through one list gadget; non-trivial = distinct mutated buffers; the oracle is an independent length-accounting decoder: acceptance implies the declared lengths add up and the outputs are what they delimit"},
		"C07": {Run: c07, Rule: "one evaluation = one header (or tampered header) run through the header gadget; non-trivial = distinct encodings; the oracle is go-ethereum's header encoding, hash and fields"},
		"C13": {Run: c13, Rule: "one evaluation = one selection/shift/compare gadget run on one (width, data, selector); non-trivial = distinct (gadget, parameters, data); the oracle is plain slice indexing"},
	})
}

func runList(c cfg, buf []byte, f func(in []frontend.Variable, g vm.Fn) ([]*big.Int, error)) ([]*big.Int, error) {
	in := append([]frontend.Variable{c.Num}, vm.V(buf)...)
	return f(in, listGadget(c))
}

func engine(in []frontend.Variable, g vm.Fn) ([]*big.Int, error) { return vm.Run(vm.BN254, in, g) }

// listGadget outputs: accepted, total length, field lengths, then MaxHex nibbles per field.
func listGadget(c cfg) vm.Fn {
	return func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		a := rlp.ArrayCheck{MaxHexLen: c.MaxHex, MaxFields: c.N, ArrayPrefixMaxHexLen: c.Prefix,
			FieldMinHexLen: c.Min, FieldMaxHexLen: c.Max}
		num, data := in[0], in[1:]
		var out, total frontend.Variable
		var lens []frontend.Variable
		var fields [][]frontend.Variable
		switch c.Kind {
		case kArray:
			out, total, lens, fields = a.RlpArrayCheck(api, data)
		case kNums:
			out, total, lens, fields = a.RlpArrayCheck(api, data, num)
		case kNest:
			out, total, lens, fields = a.RlpNestArrayCheck(api, data)
		case kHeader:
			out, total, lens, fields = a.BlkHeaderRlpCheck(api, data, num)
		}
		res := append([]frontend.Variable{out, total}, lens...)
		for _, f := range fields {
			res = append(res, f[:c.MaxHex]...)
		}
		return res
	}
}

// compare the gadget's outputs with the expected field lengths and contents.
func compare(c cfg, out []*big.Int, total int, lens []int, data [][]byte) string {
	if out[1].Cmp(big.NewInt(int64(total))) != 0 {
		return fmt.Sprintf("total length %v want %d", out[1], total)
	}
	for i := 0; i < c.N; i++ {
		if out[2+i].Cmp(big.NewInt(int64(lens[i]))) != 0 {
			return fmt.Sprintf("field %d length %v want %d", i, out[2+i], lens[i])
		}
		for j, x := range data[i] {
			if v := out[2+c.N+i*c.MaxHex+j]; v.Cmp(big.NewInt(int64(x))) != 0 {
				return fmt.Sprintf("field %d nibble %d is %v want %d", i, j, v, x)
			}
		}
	}
	return ""
}

// genList makes a canonical list and a configuration it fits.
func genList(rng *rand.Rand, kind int, big bool) (c cfg, items []item, enc []byte) {
	c.Kind = kind
	n := 1 + rng.Intn(6)
	switch rng.Intn(6) {
	case 0:
		n = 2
	case 1:
		n = 17
	}
	c.N, c.Num = n, n
	if kind == kNums || kind == kHeader {
		c.Num = 1 + rng.Intn(n)
	}
	c.Prefix = []int{4, 4, 6, 8}[rng.Intn(4)]
	sizes := []int{0, 1, 2, 8, 20, 31, 32, 33, 54, 55}
	if big {
		sizes = append(sizes, 56, 57, 58, 60, 63, 64, 100, 127, 128, 255, 256, 300)
	}
	if n == 17 {
		sizes = []int{0, 1, 32, 32, 32}
	}
	for i := 0; i < c.Num; i++ {
		var it item
		switch {
		case rng.Intn(4) == 0: // single byte, all classes
			it = str([]byte{[]byte{0, 1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0xb8, 0xc0, 0xf8, 0xff}[rng.Intn(11)]})
		case kind != kHeader && (i == c.Num-1 && rng.Intn(3) == 0 || rng.Intn(12) == 0): // nested list
			var sub []item
			for k := rng.Intn(4); k > 0; k-- {
				sub = append(sub, str(bytesOf(rng, sizes[rng.Intn(len(sizes))])))
			}
			it = list(sub...)
		default:
			it = str(bytesOf(rng, sizes[rng.Intn(len(sizes))]))
		}
		items = append(items, it)
	}
	for i := 0; i < n; i++ {
		min, max := 0, []int{2, 16, 40, 64, 66, 100, 128, 512, 1000}[rng.Intn(9)]
		if i < c.Num {
			need := fieldLen(c, items[i])
			if max < need {
				max = need
			}
			if rng.Intn(4) == 0 && need > 0 && c.Num == c.N {
				min, max = need, need // fixed-length field
			} else if rng.Intn(4) == 0 && need > 1 && c.Num == c.N {
				min = need - 1 - rng.Intn(need-1)
				if min == max {
					min--
				}
			}
		}
		c.Min, c.Max = append(c.Min, min), append(c.Max, max)
	}
	enc = list(items...).enc
	if len(enc) < 256 && rng.Intn(3) == 0 {
		c.Prefix = 2
	}
	c.MaxHex = 2 * len(enc)
	switch rng.Intn(3) {
	case 0:
		c.MaxHex += 2 * rng.Intn(40)
	case 1:
		c.MaxHex += rng.Intn(9)
	}
	if c.MaxHex < 16 {
		c.MaxHex = 16
	}
	return
}

func fieldLen(c cfg, it item) int {
	if it.list && c.Kind == kNest {
		return 2 * len(it.enc)
	}
	return 2 * len(it.payload)
}

func fill(rng *rand.Rand, c cfg, enc []byte) []byte {
	buf := make([]byte, c.MaxHex)
	copy(buf, nibs(enc))
	tail := buf[2*len(enc):]
	switch rng.Intn(4) {
	case 0:
	case 1: // Keccak padding
		copy(tail, []byte{0, 1})
		if rng.Intn(2) == 0 {
			copy(tail, []byte{8, 1})
		}
	case 2:
		copy(tail, nibs(bytesOf(rng, len(tail)/2)))
	default:
		for i := range tail {
			tail[i] = 15
		}
	}
	return buf
}

func expected(c cfg, items []item) (lens []int, data [][]byte) {
	for i := 0; i < c.N; i++ {
		var d []byte
		if i < len(items) {
			d = nibs(items[i].payload)
			if items[i].list && c.Kind == kNest {
				d = nibs(items[i].enc)
			}
		}
		lens, data = append(lens, len(d)), append(data, d)
	}
	return
}

func c05(r *vm.R) {
	n := r.N(2000, 20000)
	vm.Par(n, 0, func(i int) {
		key := fmt.Sprintf("list/%d", i)
		rng := r.Rand(key)
		kind := rng.Intn(4)
		key = fmt.Sprintf("list/%s/%d", kindName[kind], i)
		c, items, enc := genList(rng, kind, rng.Intn(4) == 0)
		buf := fill(rng, c, enc)
		input := map[string]any{"config": c, "list": vm.Hex(enc), "buffer_nibbles": fmt.Sprintf("%x", buf)}
		r.Case(key, input, func() {
			out, err := runList(c, buf, engine)
			r.Eval("complete/"+kindName[kind], fmt.Sprint(c, buf))
			r.Sample(kindName[kind], map[string]any{"fields": c.Num, "list": vm.Hex(enc), "max_nibbles": c.MaxHex})
			if err != nil {
				r.Violate(key, input, "a canonical list is unsatisfiable: %v", err)
				return
			}
			if out[0].Cmp(big.NewInt(1)) != 0 {
				r.Violate(key, input, "a canonical list is not accepted (%v)", out[0])
				return
			}
			lens, data := expected(c, items)
			if m := compare(c, out, 2*len(enc), lens, data); m != "" {
				r.Violate(key, input, "%s", m)
			}
		})
	})
	// the same configuration compiled once and solved for many lists
	vm.Par(r.N(6, 40), 0, func(i int) {
		key := fmt.Sprintf("compiled/%d", i)
		rng := r.Rand(key)
		kind := i % 3
		c := cfg{Kind: kind, MaxHex: 150 + rng.Intn(60), N: 4, Num: 4, Prefix: 4, Min: make([]int, 4), Max: []int{16, 64, 66, 128}}
		r.Case(key, c, func() {
			cc, err := vm.Compile(vm.BN254, 1+c.MaxHex, i%2 == 1, listGadget(c))
			if err != nil {
				r.Violate(key, c, "does not compile: %v", err)
				return
			}
			r.Count("compiled_constraints", int64(cc.CS.GetNbConstraints()))
			for k := 0; k < r.N(12, 60); k++ {
				c := c
				if kind == kNums {
					c.Num = 1 + rng.Intn(4)
				}
				var items []item
				for j := 0; j < c.Num; j++ {
					m := c.Max[j] / 2
					it := str(bytesOf(rng, rng.Intn(min(m, 12)+1)))
					if j == 3 && rng.Intn(2) == 0 {
						it = list(str(bytesOf(rng, rng.Intn(4))), str(nil))
					}
					items = append(items, it)
				}
				enc := list(items...).enc
				if 2*len(enc) > c.MaxHex {
					continue
				}
				buf := fill(rng, c, enc)
				out, err := runList(c, buf, func(in []frontend.Variable, g vm.Fn) ([]*big.Int, error) { return cc.Solve(in) })
				r.Eval("compiled/"+kindName[kind], fmt.Sprint(c, buf))
				in := map[string]any{"config": c, "list": vm.Hex(enc)}
				if err != nil || out[0].Cmp(big.NewInt(1)) != 0 {
					r.Violate(key, in, "a canonical list is not accepted: %v", err)
					continue
				}
				lens, data := expected(c, items)
				if m := compare(c, out, 2*len(enc), lens, data); m != "" {
					r.Violate(key, in, "%s", m)
				}
			}
		})
	})
	txLeaves(r)
	stripPrefix(r)
}

// stripPrefix checks the gadget that removes a list's own prefix.
func stripPrefix(r *vm.R) {
	vm.Par(r.N(60, 1000), 0, func(i int) {
		key := fmt.Sprintf("strip/%d", i)
		rng := r.Rand(key)
		var payload []byte
		switch i % 4 {
		case 0:
			payload = bytesOf(rng, rng.Intn(57))
		case 1:
			payload = bytesOf(rng, 54+rng.Intn(5))
		default:
			payload = bytesOf(rng, rng.Intn(400))
		}
		enc := append(lenPrefix(0xc0, len(payload)), payload...)
		c := cfg{MaxHex: 2*len(enc) + 2*rng.Intn(20), Prefix: []int{4, 6, 8}[rng.Intn(3)]}
		if c.MaxHex < 16 {
			c.MaxHex = 16
		}
		buf := fill(rng, c, enc)
		r.Case(key, vm.Hex(enc), func() {
			out, err := vm.Run(vm.BN254, vm.V(buf), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				a := rlp.ArrayCheck{MaxHexLen: c.MaxHex, ArrayPrefixMaxHexLen: c.Prefix}
				o, l := a.LeftShiftRlpArrayPrefix(api, in)
				return append([]frontend.Variable{l}, o...)
			})
			r.Eval("strip", fmt.Sprint(c, buf))
			if err != nil {
				r.Violate(key, vm.Hex(enc), "unsatisfied: %v", err)
				return
			}
			want := nibs(payload)
			r.Expect(out[0].Cmp(big.NewInt(int64(len(want)))) == 0, key, vm.Hex(enc), "payload length %v want %d", out[0], len(want))
			for j, x := range want {
				if out[1+j].Cmp(big.NewInt(int64(x))) != 0 {
					r.Violate(key, vm.Hex(enc), "payload nibble %d is %v want %d", j, out[1+j], x)
					return
				}
			}
		})
	})
	// a string is not a list
	for _, b := range []byte{0x00, 0x7f, 0x80, 0x83, 0xb8, 0xbf} {
		b := b
		key := fmt.Sprintf("strip/string=%x", b)
		r.Case(key, int(b), func() {
			buf := make([]byte, 40)
			buf[0], buf[1] = b>>4, b&15
			_, err := vm.Run(vm.BN254, vm.V(buf), func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				a := rlp.ArrayCheck{MaxHexLen: 40, ArrayPrefixMaxHexLen: 4}
				o, l := a.LeftShiftRlpArrayPrefix(api, in)
				return append([]frontend.Variable{l}, o...)
			})
			r.Eval("strip/string", key)
			r.Expect(err != nil, key, int(b), "the prefix of a string was taken for a list prefix")
		})
	}
}

func c06(r *vm.R) {
	n := r.N(600, 6000)
	vm.Par(n, 0, func(i int) {
		base := fmt.Sprintf("mutate/%d", i)
		rng := r.Rand(base)
		kind := rng.Intn(4)
		c, items, enc := genList(rng, kind, rng.Intn(5) == 0)
		if rng.Intn(3) == 0 && len(items) > 0 { // an empty list or string somewhere
			k := rng.Intn(len(items))
			items[k] = list()
			if rng.Intn(3) == 0 {
				items[k] = str(nil)
			}
			c.Min[k] = 0
			enc = list(items...).enc
			if c.MaxHex < 2*len(enc) {
				c.MaxHex = 2 * len(enc)
			}
		}
		buf := fill(rng, c, enc)
		for m := 0; m < r.N(8, 20); m++ {
			mut, what := mutate(rng, c, items, buf, enc)
			key := fmt.Sprintf("%s/%s/%s", base, kindName[kind], what)
			input := map[string]any{"config": c, "original": vm.Hex(enc), "buffer_nibbles": fmt.Sprintf("%x", mut)}
			r.Case(key, input, func() {
				out, err := runList(c, mut, engine)
				r.Eval("mutated/"+what, fmt.Sprint(c, mut))
				if err != nil {
					r.Count("unsatisfiable", 1)
					return
				}
				if out[0].Sign() == 0 {
					r.Count("rejected", 1)
					return
				}
				if out[0].Cmp(big.NewInt(1)) != 0 {
					r.Violate(key, input, "the acceptance output is %v", out[0])
					return
				}
				r.Count("accepted", 1)
				d := decode(c, mut)
				if !d.list || !d.sumOK || d.stuck {
					r.Violate(key, input, "accepted although the lengths do not add up (list %v, sum %v, lengths %v, total %d)", d.list, d.sumOK, d.lens, d.total)
					return
				}
				if s := compare(c, out, d.total, d.lens, d.data); s != "" {
					r.Violate(key, input, "accepted with wrong outputs: %s", s)
				}
			})
		}
	})
}

// mutate breaks one or two things of the encoded list.
func mutate(rng *rand.Rand, c cfg, items []item, buf, enc []byte) ([]byte, string) {
	b := append([]byte{}, buf...)
	setByte := func(pos int, v byte) {
		if 2*pos+1 < len(b) {
			b[2*pos], b[2*pos+1] = v>>4, v&15
		}
	}
	put := func(e []byte) {
		nb := make([]byte, len(b))
		copy(nb, nibs(e))
		if 2*len(e) < len(b) && rng.Intn(2) == 0 {
			copy(nb[2*len(e):], b[2*len(e):])
		}
		b = nb
	}
	// positions of the field prefixes
	hdr := len(enc) - len(list(items...).payload)
	pos := []int{}
	p := hdr
	for _, it := range items {
		pos = append(pos, p)
		p += len(it.enc)
	}
	switch k := rng.Intn(9); k {
	case 0: // list length
		d := []int{1, -1, 2, -2, 3, 10}[rng.Intn(6)]
		setByte(hdr-1, byte(int(enc[hdr-1])+d))
		return b, "list-length"
	case 1: // prefix of a field
		i := rng.Intn(len(items))
		d := []int{1, -1, 2, -2, 0x37, -0x37, 0x40}[rng.Intn(7)]
		setByte(pos[i], byte(int(enc[pos[i]])+d))
		return b, "field-prefix"
	case 2: // remove a field, keep the list prefix
		i := rng.Intn(len(items))
		e := append(append([]byte{}, enc[:pos[i]]...), enc[pos[i]+len(items[i].enc):]...)
		put(e)
		return b, "drop-field"
	case 3: // insert a field, keep the list prefix
		i := rng.Intn(len(items))
		it := []item{list(), str(nil), str([]byte{0}), str([]byte{5}), str(bytesOf(rng, 3))}[rng.Intn(5)]
		e := append(append(append([]byte{}, enc[:pos[i]]...), it.enc...), enc[pos[i]:]...)
		put(e)
		return b, "insert-field"
	case 4: // another number of fields, correctly encoded
		its := append([]item{}, items...)
		if rng.Intn(2) == 0 && len(its) > 1 {
			its = its[:len(its)-1]
		} else {
			its = append(its, []item{list(), str(nil), str([]byte{0}), str([]byte{0x7f})}[rng.Intn(4)])
		}
		put(list(its...).enc)
		return b, "field-count"
	case 5: // a string instead of a list
		setByte(0, enc[0]-0x40)
		return b, "string-prefix"
	case 6: // empty list prefix somewhere with a wrong total
		i := rng.Intn(len(items))
		setByte(pos[i], []byte{0xc0, 0x80, 0x00, 0xc1}[rng.Intn(4)])
		return b, "field-becomes-empty"
	case 7: // an absurd length
		i := rng.Intn(len(items))
		setByte(pos[i], []byte{0xb7, 0xb8, 0xb9, 0xbf, 0xf7, 0xf8, 0xf9, 0xff}[rng.Intn(8)])
		return b, "huge-length"
	default:
		for n := 1 + rng.Intn(3); n > 0; n-- {
			b[rng.Intn(min(len(b), 2*len(enc)))] = byte(rng.Intn(16))
		}
		return b, "nibbles"
	}
}
