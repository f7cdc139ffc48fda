package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"

	"verifharness/vm"

	p12 "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bls "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/field/hash"
	"github.com/consensys/gnark/frontend"
)

var dst = []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")

func rmsg(rng *rand.Rand, i int) []byte {
	m := make([]byte, 32)
	switch i {
	case 0:
	case 1:
		m = bytes.Repeat([]byte{0xff}, 32)
	default:
		rng.Read(m)
		if i%5 == 2 {
			for j := range m[:rng.Intn(32)] {
				m[j] = 0
			}
		}
	}
	return m
}

func msgIn(v []frontend.Variable) (m [32]frontend.Variable) {
	copy(m[:], v)
	return
}

func must[T any](x T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return x
}

// evalMsg is eval for gadgets over message bytes.
func evalMsg(field *big.Int, msg []byte, f func(api frontend.API, m [32]frontend.Variable) ([]fel, []frontend.Variable)) (els, []*big.Int, error) {
	in := vm.V(msg)
	return evalIn(field, in, func(api frontend.API, v []frontend.Variable) ([]fel, []frontend.Variable) { return f(api, msgIn(v)) })
}

// uclass is a field element of a class that takes different branches of the map.
func uclass(rng *rand.Rand, i int) (els, string) {
	z := new(big.Int)
	switch i % 9 {
	case 0:
		return els{z, z}, "zero"
	case 1:
		return els{z, new(big.Int).Rand(rng, P)}, "real part zero"
	case 2:
		v := new(big.Int).Rand(rng, P)
		return els{z, v.SetBit(v, 0, v.Bit(0)^1).Mod(v, P)}, "real part zero"
	case 3:
		return els{new(big.Int).Rand(rng, P), z}, "imaginary part zero"
	case 4:
		return els{big.NewInt(int64(rng.Intn(4))), big.NewInt(int64(rng.Intn(4)))}, "small"
	case 5:
		return els{new(big.Int).Sub(P, big.NewInt(int64(1+rng.Intn(3)))), new(big.Int).Sub(P, big.NewInt(int64(1+rng.Intn(3))))}, "large"
	}
	return dense(rng, 2), "random"
}

func c23(r *vm.R) {
	var slow, jobs []func()
	job := func(heavy bool, kind, key string, input any, f func()) {
		j := func() {
			r.Case(kind, input, func() {
				r.Eval(kind, key)
				f()
			})
		}
		if heavy {
			slow = append(slow, j)
		} else {
			jobs = append(jobs, j)
		}
	}
	// message expansion
	rng := r.Rand("expand")
	for i := 0; i < r.N(6, 60); i++ {
		msg, count := rmsg(rng, i), 2+2*(i%2)
		if i == 3 {
			count = 1
		}
		if i == 4 {
			count = 3
		}
		key := fmt.Sprintf("%d/%x", count, msg)
		job(false, "expand", key, key, func() {
			_, got, err := evalMsg(vm.BN254, msg, func(api frontend.API, m [32]frontend.Variable) ([]fel, []frontend.Variable) {
				return nil, p12.ExpandMsgXmd(api, m, count)
			})
			want := must(hash.ExpandMsgXmd(msg, dst, count*64))
			if err != nil {
				r.Violate("expand", key, "unsatisfiable: %v", err)
				return
			}
			ok := len(got) == len(want)
			for j := range want {
				ok = ok && got[j].Cmp(big.NewInt(int64(want[j]))) == 0
			}
			r.Expect(ok, "expand", key, "got %v want %v", got, want)
		})
		if count%2 != 0 {
			continue
		}
		fi := i % len(fields)
		job(false, "field", key, key, func() {
			got, _, err := evalMsg(fields[fi].m, msg, func(api frontend.API, m [32]frontend.Variable) (o []fel, _ []frontend.Variable) {
				for _, e := range p12.HashToField(api, m, count) {
					e := e
					o = append(o, o2(&e)...)
				}
				return
			})
			var want els
			for _, e := range must(fp.Hash(msg, dst, count)) {
				want = append(want, coef(e))
			}
			if err != nil {
				r.Violate("field", key, "unsatisfiable: %v", err)
				return
			}
			r.Expect(eqEls(got, want), "field", key, "got %s want %s", hx(got), hx(want))
		})
	}
	// eight bytes to an integer and to bits
	for i := 0; i < r.N(12, 300); i++ {
		b := make([]byte, 8)
		rng.Read(b)
		if i == 0 {
			b = bytes.Repeat([]byte{0xff}, 8)
		}
		key := fmt.Sprintf("%x", b)
		job(false, "uint64", key, key, func() {
			_, got, err := evalIn(vm.BN254, vm.V(b), func(api frontend.API, v []frontend.Variable) ([]fel, []frontend.Variable) {
				var a [8]frontend.Variable
				copy(a[:], v)
				return nil, append([]frontend.Variable{p12.GetUint64From8Bytes(api, a)}, p12.Get64BitsFrom8Bytes(api, a)...)
			})
			if err != nil {
				r.Violate("uint64", key, "unsatisfiable: %v", err)
				return
			}
			want := new(big.Int).SetBytes(b)
			ok := got[0].Cmp(want) == 0 && len(got) == 65
			for j := 0; ok && j < 64; j++ {
				ok = got[1+j].Cmp(big.NewInt(int64(want.Bit(j)))) == 0
			}
			r.Expect(ok, "uint64", key, "got %v", got)
		})
	}
	for i := 0; i < r.N(8, 100); i++ {
		v := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), 512))
		if i == 0 {
			v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 512), big.NewInt(1))
		} else if i == 1 {
			v = new(big.Int).Set(P)
		}
		key := v.Text(16)
		job(false, "limbs", key, key, func() {
			var in []frontend.Variable
			for j := 0; j < 8; j++ {
				in = append(in, new(big.Int).And(new(big.Int).Rsh(v, uint(64*j)), new(big.Int).SetUint64(^uint64(0))))
			}
			got, _, err := evalIn(vm.BN254, in, func(api frontend.API, v []frontend.Variable) ([]fel, []frontend.Variable) {
				var a [8]frontend.Variable
				copy(a[:], v)
				return []fel{*p12.GetRawLimbsBy8Uint64(api, a)}, nil
			})
			if err != nil {
				r.Violate("limbs", key, "unsatisfiable: %v", err)
				return
			}
			want := els{new(big.Int).Mod(v, P)}
			r.Expect(eqEls(got, want), "limbs", key, "got %s want %s", hx(got), hx(want))
		})
	}
	// exponentiation
	for i := 0; i < r.N(6, 100); i++ {
		x := rels(rng, 2)
		k := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(1+rng.Intn(40))))
		neg := i%3 == 2 && !isZero(x)
		if i < 3 {
			k = big.NewInt(int64(i))
		}
		b := to2(x)
		var w bls.E2
		w.SetOne()
		for j := k.BitLen() - 1; j >= 0; j-- {
			w.Square(&w)
			if k.Bit(j) == 1 {
				w.Mul(&w, &b)
			}
		}
		if neg {
			w.Inverse(&w)
			k.Neg(k)
		}
		want := from2(&w)
		key := fmt.Sprintf("%s/%v", hx(x), k)
		job(false, "exp", key, key, func() {
			e := new(big.Int).Set(k)
			got, _, err := eval(vm.BN254, reduced, []els{x}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
				return o2(p12.E2Exp(api, *i2(a[0]), e)), nil
			})
			if err != nil {
				r.Violate("exp", key, "unsatisfiable: %v", err)
				return
			}
			r.Expect(eqEls(got, want), "exp", key, "got %s want %s", hx(got), hx(want))
			r.Expect(e.Cmp(k) == 0, "exp", key, "the exponent was changed from %v to %v", k, e)
		})
	}
	// map to curve and isogeny
	for i := 0; i < r.N(18, 180); i++ {
		u, class := uclass(rng, i)
		rep := []int{reduced, lazy}[rng.Intn(2)]
		fi := 0
		if i%4 == 3 {
			fi = rng.Intn(len(fields))
		}
		key := fmt.Sprintf("%s/%s/%s", hx(u), repName[rep], fields[fi].name)
		job(true, "map", key, key, func() {
			got, _, err := eval(fields[fi].m, rep, []els{u}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
				x, y := p12.MapElementToCurve2(api, *i2(a[0]))
				return oA(*p12.G2Isogeny(api, &p12.G2Affine{X: *x, Y: *y})), nil
			})
			r.Count("map of element with "+class, 1)
			e := to2(u)
			if err != nil {
				r.Violate("map/"+class, key, "unsatisfiable: %v", err)
				return
			}
			// the image is on the curve, and the native map clears its cofactor to the same point
			p := toA(got)
			if !r.Expect(p.IsOnCurve(), "map/"+class, key, "isogeny output %v is not on the curve", p) {
				return
			}
			p.ClearCofactor(&p)
			want := bls.MapToG2(e)
			r.Expect(p.Equal(&want), "map/"+class, key, "maps to %v want %v", p, want)
		})
		job(true, "sswu", key, key, func() {
			got, _, err := eval(fields[fi].m, rep, []els{u}, func(api frontend.API, ba *ffield, a [][]fel) ([]fel, []frontend.Variable) {
				x, y := p12.MapElementToCurve2(api, *i2(a[0]))
				return cat(o2(x), o2(y)), nil
			})
			e := to2(u)
			want := fromA(bls.MapToCurve2(&e))
			if err != nil {
				r.Violate("sswu/"+class, key, "unsatisfiable: %v", err)
				return
			}
			r.Expect(eqEls(got, want), "sswu/"+class, key, "got %s want %s", hx(got), hx(want))
		})
	}
	// whole hashes
	stages := []struct {
		name string
		f    func(api frontend.API, m [32]frontend.Variable) *p12.G2Affine
		ref  func(m, d []byte) (bls.G2Affine, error)
	}{
		{"HashToG2", p12.HashToG2, bls.HashToG2},
		{"HashToG2OnJac", p12.HashToG2OnJac, bls.HashToG2},
		{"EncodeToG2", p12.EncodeToG2, bls.EncodeToG2},
		{"EncodeToG2OnJac", p12.EncodeToG2OnJac, bls.EncodeToG2},
	}
	rng = r.Rand("hash")
	for i := 0; i < r.N(4, 48); i++ {
		s := stages[i%4]
		msg := rmsg(rng, i/2)
		fi := 0
		if i%8 == 3 || i%8 == 6 {
			fi = rng.Intn(len(fields))
		}
		key := fmt.Sprintf("%s/%s/%x", s.name, fields[fi].name, msg)
		job(true, s.name, key, key, func() {
			got, _, err := evalMsg(fields[fi].m, msg, func(api frontend.API, m [32]frontend.Variable) ([]fel, []frontend.Variable) {
				return oA(*s.f(api, m)), nil
			})
			want := fromA(must(s.ref(msg, dst)))
			if err != nil {
				r.Violate(s.name, key, "unsatisfiable: %v", err)
				return
			}
			r.Expect(eqEls(got, want), s.name, key, "got %s want %s", hx(got), hx(want))
			r.Sample("hash", map[string]string{"message": fmt.Sprintf("%x", msg), "stage": s.name, "point": hx(got)})
		})
	}
	// heaviest first
	for i, j := 0, len(slow)-1; i < j; i, j = i+1, j-1 {
		slow[i], slow[j] = slow[j], slow[i]
	}
	jobs = append(slow, jobs...)
	vm.Par(len(jobs), 0, func(i int) { jobs[i]() })
}
