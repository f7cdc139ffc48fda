package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifharness/vm"

	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/common"
)

const digits = "0123456789abcdef"

// hexOf is the reference encoder.
func hexOf(b []byte, rng *rand.Rand) string {
	var s strings.Builder
	for _, x := range b {
		for _, d := range []byte{x >> 4, x & 15} {
			c := digits[d]
			if rng != nil && c >= 'a' && rng.Intn(2) == 0 {
				c -= 32
			}
			s.WriteByte(c)
		}
	}
	return s.String()
}

// fit keeps the last n bytes of b, zero-extended on the left.
func fit(b []byte, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n && i < len(b); i++ {
		out[n-1-i] = b[len(b)-1-i]
	}
	return out
}

// guard gives a slice with canaries on both sides and a check that nothing around or in it changed.
func guard(b []byte) ([]byte, func() bool) {
	all := append(append([]byte{1, 2, 3}, b...), 4, 5, 6, 7)
	keep := append([]byte{}, all...)
	return all[3 : 3+len(b) : len(all)], func() bool { return bytes.Equal(all, keep) }
}

func c37(r *vm.R) {
	vm.Par(81, 0, func(n int) {
		rng := r.Rand(fmt.Sprintf("len/%d", n))
		for k := 0; k < r.N(60, 600); k++ {
			b := make([]byte, n)
			switch k % 5 {
			case 0:
			case 1:
				b = bytes.Repeat([]byte{0xff}, n)
			case 2:
				rng.Read(b)
				if n > 0 {
					b[0] = 0
				}
			default:
				rng.Read(b)
			}
			hexes(r, rng, b)
			pads(r, b)
			orders(r, rng, b)
		}
	})
	strs(r)
	times(r)
	lists(r)
}

func hexes(r *vm.R, rng *rand.Rand, b []byte) {
	plain := hexOf(b, nil)
	in := map[string]any{"bytes": plain}
	arg, clean := guard(b)
	ck := func(name string, got, want any) {
		r.Expect(reflect.DeepEqual(got, want), name, in, "got %v, want %v", got, want)
		r.Eval(name, plain)
	}
	r.Case("hex", in, func() {
		ck("Bytes2Hex", utils.Bytes2Hex(arg), plain)
		ck("Bytes2Hex0x", utils.Bytes2Hex0x(arg), "0x"+plain)
		ck("Bytes2AddrHex", utils.Bytes2AddrHex(arg), hexOf(fit(b, 20), nil))
		ck("Bytes2AddrHex0x", utils.Bytes2AddrHex0x(arg), "0x"+hexOf(fit(b, 20), nil))
		ck("Bytes2Addr", utils.Bytes2Addr(arg), common.Address(fit(b, 20)))
		ck("Bytes2Hash", utils.Bytes2Hash(arg), common.Hash(fit(b, 32)))
		ck("Addr2Hex", utils.Addr2Hex(common.Address(fit(b, 20))), hexOf(fit(b, 20), nil))
		ck("Addr2Hex0x", utils.Addr2Hex0x(common.Address(fit(b, 20))), "0x"+hexOf(fit(b, 20), nil))
		r.Expect(clean(), "hex-input", in, "the caller's bytes changed")
		for _, pre := range []string{"", "0x", "0X"} {
			s := pre + hexOf(b, rng)
			in["string"] = s
			ck("Hex2Bytes", append([]byte{}, utils.Hex2Bytes(s)...), append([]byte{}, b...))
			ck("Hex2BigInt", utils.Hex2BigInt(s).String(), new(big.Int).SetBytes(b).String())
			ck("Hex2Addr", utils.Hex2Addr(s), common.Address(fit(b, 20)))
			ck("Hex2Hash", utils.Hex2Hash(s), common.Hash(fit(b, 32)))
			ck("FormatAddrHex", utils.FormatAddrHex(s), hexOf(fit(b, 20), nil))
			ck("IsValidTxHash", utils.IsValidTxHash(s), len(b) == 32)
			if len(b) > 0 { // a missing leading digit is a zero
				odd := pre + hexOf(b, rng)[1:]
				half := append([]byte{b[0] & 15}, b[1:]...)
				in["string"] = odd
				ck("Hex2Bytes-odd", utils.Hex2Bytes(odd), half)
				ck("Hex2BigInt-odd", utils.Hex2BigInt(odd).String(), new(big.Int).SetBytes(half).String())
				ck("Hex2Addr-odd", utils.Hex2Addr(odd), common.Address(fit(half, 20)))
				ck("Hex2Hash-odd", utils.Hex2Hash(odd), common.Hash(fit(half, 32)))
				ck("IsValidTxHash-odd", utils.IsValidTxHash(odd), false)
				bad := []byte(s)
				bad[len(pre)+rng.Intn(2*len(b))] = "gGxX /:@`.\x00\xff"[rng.Intn(12)]
				in["string"] = string(bad)
				if !strings.HasPrefix(string(bad), "0x") && !strings.HasPrefix(string(bad), "0X") || pre != "" {
					ck("IsValidTxHash-bad", utils.IsValidTxHash(string(bad)), false)
				}
			}
			delete(in, "string")
		}
		many := [][]byte{b, fit(b, 20), {}, fit(b, 32)}
		var strsIn, want []string
		var hashes [][32]byte
		for _, x := range many {
			strsIn = append(strsIn, "0x"+hexOf(x, rng))
			want = append(want, "0x"+hexOf(x, nil))
			hashes = append(hashes, [32]byte(fit(x, 32)))
		}
		keep := append([]string{}, strsIn...)
		ck("ArrayBytes2Hex0x", utils.ArrayBytes2Hex0x(many), want)
		ck("ArrayHex2Hash", utils.ArrayHex2Hash(strsIn), hashes)
		back := utils.Strings2bytes(strsIn)
		same := len(back) == len(many)
		for i := range many {
			same = same && bytes.Equal(back[i], many[i])
		}
		ck("Strings2bytes", same, true)
		ck("Convert2DimensionalByteArrayToString", utils.Convert2DimensionalByteArrayToString(many), strings.Join(want, ","))
		ck("Convert2Dimensional-none", utils.Convert2DimensionalByteArrayToString(nil), "")
		ck("strings-input", strsIn, keep)
		r.Sample("hex", in)
	})
	if utils.ZeroAddr != (common.Address{}) || utils.ZeroHash != (common.Hash{}) || utils.ZeroBigInt.Sign() != 0 || utils.ZeroAddrHex != strings.Repeat("0", 40) {
		r.Violate("zero-values", in, "a package constant changed")
	}
}

func pads(r *vm.R, b []byte) {
	in := map[string]any{"bytes": vm.Hex(b)}
	for _, c := range []struct {
		n int
		f func([]byte) []byte
	}{{20, utils.Pad20Bytes}, {32, utils.Pad32Bytes}} {
		key := fmt.Sprintf("Pad%dBytes", c.n)
		arg, clean := guard(b)
		var got []byte
		msg := vm.Try(func() { got = c.f(arg) })
		if len(b) > c.n {
			r.Expect(msg != "", key, in, "%d bytes became %x", len(b), got)
		} else {
			r.Expect(msg == "" && bytes.Equal(got, fit(b, c.n)), key, in, "got %x (%s)", got, msg)
			if len(b) < c.n { // a new slice: writing to it leaves the caller's bytes alone
				for i := range got {
					got[i] ^= 0x55
				}
			}
		}
		r.Expect(clean(), key+"-input", in, "the caller's bytes changed")
		r.Eval(key, vm.Hex(b))
	}
}

func rev[T any](s []T) []T {
	out := make([]T, 0, len(s))
	for i := len(s) - 1; i >= 0; i-- {
		out = append(out, s[i])
	}
	return out
}

func orders(r *vm.R, rng *rand.Rand, b []byte) {
	in := map[string]any{"bytes": vm.Hex(b)}
	r.Case("order", in, func() {
		for name, f := range map[string]func([]byte) []byte{"utils.Flip": utils.Flip[byte], "gadgets.Flip": gutils.Flip[byte]} {
			arg, clean := guard(b)
			got := f(arg)
			r.Expect(bytes.Equal(got, rev(b)), name, in, "got %x", got)
			for i := range got {
				got[i] ^= 0xff
			}
			r.Expect(clean(), name+"-input", in, "the caller's bytes changed")
			r.Eval(name, vm.Hex(b))
		}
		for _, g := range []int{1, 2, 3, 4, 5, 8, 16, 20, 32} {
			if len(b)%g != 0 {
				continue
			}
			var want []byte
			for i := len(b) - g; i >= 0; i -= g {
				want = append(want, b[i:i+g]...)
			}
			in["group"] = g
			for name, f := range map[string]func([]byte, int) []byte{"FlipByGroups": utils.FlipByGroups[byte]} {
				arg, clean := guard(b)
				got := f(arg, g)
				r.Expect(bytes.Equal(got, want), name, in, "got %x want %x", got, want)
				for i := range got {
					got[i] ^= 0xff
				}
				r.Expect(clean(), name+"-input", in, "the caller's bytes changed")
				r.Eval(name, fmt.Sprint(g, vm.Hex(b)))
			}
			var wantSub []byte // each chunk flipped in place, chunks in order
			for i := 0; i < len(b); i += g {
				wantSub = append(wantSub, rev(b[i:i+g])...)
			}
			arg, _ := guard(b)
			got := gutils.FlipSubSlice(arg, g)
			if g > 1 && len(arg)%g == 0 { // a last chunk of another size is refused
				r.Expect(vm.Try(func() { gutils.FlipSubSlice(arg[:len(arg):len(arg)][:max(0, len(arg)-1)], g) }) != "" || len(arg) == 0, "FlipSubSlice-partial", in, "no refusal of %d entries in chunks of %d", len(arg)-1, g)
			}
			r.Expect(bytes.Equal(got, wantSub), "FlipSubSlice", in, "got %x want %x", got, wantSub)
			r.Eval("FlipSubSlice", fmt.Sprint(g, vm.Hex(b)))
		}
		delete(in, "group")
		arg, _ := guard(b)
		got := utils.Reverse(arg)
		r.Expect(bytes.Equal(got, rev(b)) && bytes.Equal(arg, rev(b)), "Reverse", in, "got %x, in place %x", got, arg)
		got = utils.Reverse(got)
		r.Expect(bytes.Equal(got, b), "Reverse-twice", in, "got %x", got)
		r.Eval("Reverse", vm.Hex(b))
		fv := gutils.Slice2FVs(arg)
		same := len(fv) == len(arg)
		for i := range fv {
			same = same && fv[i] == any(arg[i])
		}
		r.Expect(same, "Slice2FVs", in, "got %v", fv)
		r.Eval("Slice2FVs", vm.Hex(b))
	})
}

func strs(r *vm.R) {
	rng := r.Rand("str")
	for k := 0; k < r.N(3000, 60000); k++ {
		x := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(300))))
		if k < 8 {
			x = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(62+k/4)), big.NewInt(int64(k%4-2)))
		}
		if rng.Intn(3) == 0 {
			x.Neg(x)
		}
		s := x.String()
		in := map[string]any{"string": s}
		r.Case("decimal", in, func() {
			r.Expect(utils.Str2BigInt(s).Cmp(x) == 0, "Str2BigInt", in, "got %v", utils.Str2BigInt(s))
			if x.IsUint64() {
				r.Expect(utils.Str2Uint64(s) == x.Uint64(), "Str2Uint64", in, "got %d", utils.Str2Uint64(s))
			}
			if x.IsInt64() {
				r.Expect(int64(utils.Str2Int(s)) == x.Int64(), "Str2Int", in, "got %d", utils.Str2Int(s))
			}
			u := rng.Uint64() >> uint(rng.Intn(64))
			us := strconv.FormatUint(u, 10)
			r.Expect(utils.Str2Uint64(us) == u, "Str2Uint64", us, "got %d", utils.Str2Uint64(us))
			for _, bad := range []string{"", "x" + us, us + " ", "1.5", "0x10"} {
				r.Expect(utils.Str2Uint64(bad) == 0, "Str2Uint64-bad", bad, "got %d", utils.Str2Uint64(bad))
				r.Expect(utils.Str2Int(bad) == 0, "Str2Int-bad", bad, "got %d", utils.Str2Int(bad))
			}
			r.Eval("decimal", s+us)
		})
	}
}

func times(r *vm.R) {
	rng := r.Rand("time")
	const maxMs = int64(1<<63-1) / 1e6
	for k := 0; k < r.N(3000, 60000); k++ {
		ms := rng.Int63n(maxMs)
		if k < 4 {
			ms = []int64{0, 1, 999, maxMs - 1}[k]
		}
		ns := ms*1e6 + rng.Int63n(1e6)
		in := map[string]any{"nanoseconds": ns}
		r.Case("time", in, func() {
			loc := time.FixedZone("x", (rng.Intn(47)-23)*1800)
			t := time.Unix(0, ns).In(loc)
			r.Expect(utils.TsMilli(t) == uint64(ms), "TsMilli", in, "got %d", utils.TsMilli(t))
			r.Expect(utils.TsMilliToTime(uint64(ms)).UnixNano() == ms*1e6, "TsMilliToTime", in, "got %v", utils.TsMilliToTime(uint64(ms)))
			r.Expect(utils.TsSecToTime(uint64(ms/1000)).Unix() == ms/1000 && utils.TsSecToTime(uint64(ms/1000)).Nanosecond() == 0, "TsSecToTime", in, "got %v", utils.TsSecToTime(uint64(ms/1000)))
			r.Eval("time", fmt.Sprint(ns))
		})
	}
}

func lists(r *vm.R) {
	for k := 0; k < r.N(500, 10000); k++ {
		rng := r.Rand(fmt.Sprintf("list/%d", k))
		n := rng.Intn(12)
		var vs []int
		var ss []string
		for i := 0; i < n; i++ {
			vs = append(vs, rng.Intn(40))
			ss = append(ss, fmt.Sprint(vs[i]))
		}
		keys := rng.Perm(7)[:rng.Intn(7)]
		in := map[string]any{"values": vs, "keys": keys}
		r.Case("lists", in, func() {
			keep := append([]int{}, vs...)
			member := func(k, v int) bool { return v%(k+1) == 0 }
			got := utils.Partition(vs, keys, member)
			want := map[int][]int{}
			for _, key := range keys {
				for _, v := range vs {
					if member(key, v) {
						want[key] = append(want[key], v)
					}
				}
			}
			r.Expect(reflect.DeepEqual(got, want) && fmt.Sprint(keep) == fmt.Sprint(vs), "Partition", in, "got %v want %v", got, want)
			r.Eval("Partition", fmt.Sprint(vs, keys))
			for t := 0; t < 40; t++ {
				s := fmt.Sprint(t)
				has := strings.Contains(","+strings.Join(ss, ",")+",", ","+s+",")
				r.Expect(utils.Contains(ss, s) == has, "Contains", in, "%s: got %v", s, !has)
			}
			r.Eval("Contains", fmt.Sprint(ss))
		})
	}
	// the starting point of each chain's block tree: its number is a multiple of nothing, its index is the
	// number of 128-block ranges before it
	for chain, blk := range map[uint64]uint64{42161: 185536768, 10: 119300224, 97: 41759160, 56: 40077400, 1: 0, 0: 0, 11155111: 0, ^uint64(0): 0} {
		in := map[string]any{"chain": chain}
		r.Case("start-block", in, func() {
			g := utils.GetStartBlockInfo(chain)
			r.Expect(g.BlockNumber == blk && g.InitialIndex == blk>>7 && g.ChainId == chain, "start-block", in, "got %+v", g)
			r.Eval("start-block", fmt.Sprint(chain))
		})
	}
}
