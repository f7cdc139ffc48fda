package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/backend/groth16"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
)

// hexForm writes x in one of the forms records use: full width, minimal, odd-length, without prefix, empty for zero.
func hexForm(rng *rand.Rand, x *big.Int) string {
	s := x.Text(16)
	switch rng.Intn(5) {
	case 0:
		if x.Sign() == 0 {
			return []string{"", "0x", "0x0", "0x00"}[rng.Intn(4)]
		}
		return "0x" + s
	case 1:
		return hexN(x, 32)[2:]
	case 2:
		return "0X" + strings.ToUpper(hexN(x, 32)[2:])
	}
	return hexN(x, 32)
}

func edge256(rng *rand.Rand) *big.Int {
	switch rng.Intn(5) {
	case 0:
		return new(big.Int).Sub(ecc.BN254.BaseField(), big.NewInt(1))
	case 1:
		return new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(8*rng.Intn(33))))
	}
	return edge(rng, 256)
}

type gp struct {
	v [12]*big.Int // a0 a1 b00 b01 b10 b11 c0 c1 cm0 cm1 pok0 pok1
	p proof.Groth16Proof
}

func genProof(rng *rand.Rand) (g gp) {
	var s [12]string
	for i := range s {
		g.v[i] = edge256(rng)
		s[i] = hexForm(rng, g.v[i])
	}
	g.p = proof.Groth16Proof{A: [2]string{s[0], s[1]}, B: [2][2]string{{s[2], s[3]}, {s[4], s[5]}}, C: [2]string{s[6], s[7]},
		Commitment: [2]string{s[8], s[9]}, CommitmentPok: [2]string{s[10], s[11]}}
	return
}

func eqInts(got []*big.Int, want []*big.Int) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d values, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] == nil || got[i].Cmp(want[i]) != 0 {
			return fmt.Errorf("value %d is %v, want %v", i, got[i], want[i])
		}
	}
	return nil
}

func flatBeacon(p eth.IBeaconVerifierProof) []*big.Int {
	return []*big.Int{p.A[0], p.A[1], p.B[0][0], p.B[0][1], p.B[1][0], p.B[1][1], p.C[0], p.C[1], p.Commitment[0], p.Commitment[1]}
}

// chunkABI is the contract-side view: uint256[18].
var chunkABI = func() abi.Arguments {
	t, err := abi.NewType("uint256[18]", "", nil)
	if err != nil {
		panic(err)
	}
	return abi.Arguments{{Type: t}}
}()

func c29(r *vm.R) {
	n := r.N(4000, 100000)
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprint(i))
		g := genProof(rng)
		r.Case("big-ints", g.p, func() {
			a, b, c, cm, pok := g.p.AsBigInts()
			err := eqInts([]*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], cm[0], cm[1], pok[0], pok[1]}, g.v[:])
			r.Expect(err == nil, "big-ints", g.p, "AsBigInts: %v", err)
			err = eqInts(flatBeacon(g.p.OnChainProof()), g.v[:10])
			r.Expect(err == nil, "on-chain", g.p, "OnChainProof: %v", err)
			err = eqInts(flatBeacon(g.p.BeaconProof()), g.v[:10])
			r.Expect(err == nil, "beacon", g.p, "BeaconProof: %v", err)
			cp := &proof.CommitteeSszMappingProof{Proof: g.p}
			err = eqInts(flatBeacon(cp.GetProof()), g.v[:10])
			r.Expect(err == nil, "committee", g.p, "GetProof: %v", err)
			r.Eval("record", fmt.Sprint(g.v))
		})
		h := func() (common.Hash, string) {
			x := edge256(rng)
			return common.BigToHash(x), hexForm(rng, x)
		}
		root, rs := h()
		prev, ps := h()
		end, es := h()
		cp := &proof.ChunkProof{ChunkRoot: rs, PrevHash: ps, EndHash: es, StartBlockNum: edge(rng, 64).Uint64(), EndBlockNum: edge(rng, 64).Uint64(), Proof: g.p}
		r.Case("chunk-abi", cp, func() {
			got := cp.EncodeABI()
			out, err := chunkABI.Unpack(got)
			if !r.Expect(err == nil && len(got) == 18*32, "chunk-abi", cp, "%d bytes, decoding: %v", len(got), err) {
				return
			}
			vals := out[0].([18]*big.Int)
			half := func(h common.Hash) (*big.Int, *big.Int) {
				return new(big.Int).SetBytes(h[:16]), new(big.Int).SetBytes(h[16:])
			}
			want := append([]*big.Int{}, g.v[:8]...)
			want = append(want, new(big.Int), new(big.Int))
			for _, x := range []common.Hash{root, prev, end} {
				a, b := half(x)
				want = append(want, a, b)
			}
			want = append(want, new(big.Int).SetUint64(cp.StartBlockNum), new(big.Int).SetUint64(cp.EndBlockNum))
			err = eqInts(vals[:], want)
			r.Expect(err == nil, "chunk-abi", cp, "EncodeABI: %v", err)
			r.Eval("chunk-abi", vm.Hex(got))
			if i < 1 {
				r.Sample("chunk", cp)
			}
		})
		h1, s1 := h()
		h2, s2 := h()
		sp := &proof.SigProof{CommitmentPub: s1, PoseidonRoot: s2}
		r.Case("sig-views", sp, func() {
			r.Expect(sp.GetCommitment().Cmp(h1.Big()) == 0, "sig-views", sp, "GetCommitment %v", sp.GetCommitment())
			r.Expect(sp.GetPoseidonRoot() == h2, "sig-views", sp, "GetPoseidonRoot %x", sp.GetPoseidonRoot())
			r.Eval("sig-views", s1+s2)
		})
		var hs [5]common.Hash
		var ss [5]string
		for j := range hs {
			hs[j], ss[j] = h()
		}
		sm := &proof.SMTUpdateProof{OldSmtRoot: ss[0], NewSmtRoot: ss[1], EndBlockHash: ss[2], NextChunkMerkleRoot: ss[3], CommitmentPub: ss[4]}
		r.Case("smt-views", sm, func() {
			got := [5]common.Hash{sm.GetOldSmtRoot(), sm.GetNewSmtRoot(), sm.GetEndBlockHash(), sm.GetNextChunkMerkleRoot(), sm.GetCommitmentPub()}
			r.Expect(got == hs, "smt-views", sm, "views %x, record %x", got, hs)
			r.Eval("smt-views", strings.Join(ss[:], ","))
		})
		q := &proof.SDKQueryProvingInfo{}
		var want []string
		id := func() string {
			x := rhash(rng).Hex()
			if len(want) > 0 && rng.Intn(4) == 0 { // two queries of the same transaction or slot
				x = want[rng.Intn(len(want))]
			}
			want = append(want, x)
			return x
		}
		for j := rng.Intn(4); j > 0; j-- {
			q.ReceiptInfos = append(q.ReceiptInfos, &proof.SDKQueryProvingInfoForReceipt{TransactionHash: id()})
		}
		for j := rng.Intn(4); j > 0; j-- {
			q.StorageSlotInfos = append(q.StorageSlotInfos, &proof.SDKQueryProvingInfoForStorageSlot{StorageHash: id()})
		}
		for j := rng.Intn(4); j > 0; j-- {
			q.TransactionInfos = append(q.TransactionInfos, &proof.SDKQueryProvingInfoForTransaction{TransactionHash: id()})
		}
		r.Case("sub-proof-ids", want, func() {
			got := q.GetSubProofS3Path()
			r.Expect(strings.Join(got, ",") == strings.Join(want, ","), "sub-proof-ids", want, "got %v", got)
			r.Eval("sub-proof-ids", strings.Join(want, ","))
		})
	})
	r.Case("nil-proof", nil, func() {
		var p *proof.CommitteeSszMappingProof
		z := new(big.Int)
		err := eqInts(flatBeacon(p.GetProof()), []*big.Int{z, z, z, z, z, z, z, z, z, z})
		r.Expect(err == nil, "nil-proof", nil, "%v", err)
	})
	synthetic(r)
	for _, commit := range []bool{false, true} {
		realProofs(r, commit)
	}
}

type sq struct {
	X, Y   frontend.Variable `gnark:",public"`
	W      frontend.Variable
	commit bool
}

func (c *sq) Define(api frontend.API) error {
	api.AssertIsEqual(c.Y, api.Mul(c.X, c.W))
	api.ToBinary(c.W, 32)
	if c.commit {
		cm, err := api.(frontend.Committer).Commit(c.X, c.W)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(cm, 0)
	}
	return nil
}

func g1(x, y *big.Int) (p bn254.G1Affine) {
	p.X.SetBigInt(x)
	p.Y.SetBigInt(y)
	return
}

// rebuild reads exported coordinates back in the on-chain order (EIP-197: imaginary part first).
func rebuild(a [2]*big.Int, b [2][2]*big.Int, c, cm, pok [2]*big.Int, commit bool) *groth16_bn254.Proof {
	p := &groth16_bn254.Proof{Ar: g1(a[0], a[1]), Krs: g1(c[0], c[1]), CommitmentPok: g1(pok[0], pok[1])}
	p.Bs.X.A1.SetBigInt(b[0][0])
	p.Bs.X.A0.SetBigInt(b[0][1])
	p.Bs.Y.A1.SetBigInt(b[1][0])
	p.Bs.Y.A0.SetBigInt(b[1][1])
	if commit {
		p.Commitments = []bn254.G1Affine{g1(cm[0], cm[1])}
	}
	return p
}

// equation is the verification equation, evaluated with the pairing library only.
func equation(vk *groth16_bn254.VerifyingKey, p *groth16_bn254.Proof, pub []*big.Int) bool {
	acc := vk.G1.K[0]
	for i, x := range pub {
		var t bn254.G1Affine
		t.ScalarMultiplication(&vk.G1.K[i+1], x)
		acc.Add(&acc, &t)
	}
	var nAr, nBeta bn254.G1Affine
	nAr.Neg(&p.Ar)
	_ = nBeta
	ok, err := bn254.PairingCheck([]bn254.G1Affine{nAr, vk.G1.Alpha, acc, p.Krs}, []bn254.G2Affine{p.Bs, vk.G2.Beta, vk.G2.Gamma, vk.G2.Delta})
	return err == nil && ok
}

func realProofs(r *vm.R, commit bool) {
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &sq{commit: commit})
	if err != nil {
		panic(err)
	}
	pk, vk, err := groth16.Setup(cs)
	if err != nil {
		panic(err)
	}
	n := r.N(12, 200)
	name := fmt.Sprintf("groth16-commit=%v", commit)
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprintf("%s/%d", name, i))
		x := new(big.Int).Rand(rng, ecc.BN254.ScalarField())
		w := big.NewInt(rng.Int63n(1 << 32))
		y := new(big.Int).Mod(new(big.Int).Mul(x, w), ecc.BN254.ScalarField())
		in := map[string]any{"x": x.String(), "w": w.String(), "commit": commit}
		full, err := frontend.NewWitness(&sq{X: x, Y: y, W: w, commit: commit}, ecc.BN254.ScalarField())
		if err != nil {
			panic(err)
		}
		p, err := groth16.Prove(cs, pk, full)
		if err != nil {
			panic(err)
		}
		pub, _ := full.Public()
		if err := groth16.Verify(p, vk, pub); err != nil {
			panic(err)
		}
		r.Case(name, in, func() {
			a, b, c, cm, pok := utils.ExportProof(p)
			q := rebuild(a, b, c, cm, pok, commit)
			r.Expect(groth16.Verify(q, vk, pub) == nil, name, in, "the exported proof does not verify")
			if !commit {
				r.Expect(equation(vk.(*groth16_bn254.VerifyingKey), q, []*big.Int{x, y}), name, in, "the verification equation does not hold for the exported proof")
			}
			batch(r, name, in, p, rng)
			// a record of the exported values carries the same proof
			pr := p.(*groth16_bn254.Proof)
			rec := proof.Groth16Proof{A: [2]string{hexN(a[0], 32), hexN(a[1], 32)}, B: [2][2]string{{hexN(b[0][0], 32), hexN(b[0][1], 32)}, {hexN(b[1][0], 32), hexN(b[1][1], 32)}},
				C: [2]string{hexN(c[0], 32), hexN(c[1], 32)}, Commitment: [2]string{hexN(cm[0], 32), hexN(cm[1], 32)}, CommitmentPok: [2]string{hexN(pok[0], 32), hexN(pok[1], 32)}}
			a2, b2, c2, cm2, pok2 := rec.AsBigInts()
			q2 := rebuild(a2, b2, c2, cm2, pok2, commit)
			r.Expect(q2.Ar.Equal(&pr.Ar) && q2.Bs.Equal(&pr.Bs) && q2.Krs.Equal(&pr.Krs) && groth16.Verify(q2, vk, pub) == nil, name, in, "the record's proof does not verify")
			r.Eval(name, fmt.Sprint(a))
		})
	})
}

// batch checks the comma separated export.
func batch(r *vm.R, key string, in any, p groth16.Proof, rng *rand.Rand) {
	bp := p.(*groth16_bn254.Proof)
	ps := &proof.ZKSDKAggPubInputs{AggVkHash: rhash(rng).Hex(), SMTRoot: [2]string{"0x" + vm.Hex(rbytes(rng, 16)), "0x" + vm.Hex(rbytes(rng, 16))}, AppVkHash: rhash(rng).Hex(),
		OutputCommit: [2]string{"0x" + vm.Hex(rbytes(rng, 16)), "0x" + vm.Hex(rbytes(rng, 16))}, QueryId: rhash(rng).Hex()}
	s := ps.GenerateBatchProofAndPublicInputs(p)
	f := strings.Split(s, ",")
	if !r.Expect(len(f) == 20 && f[19] == "", key, in, "batch export has %d parts", len(f)) {
		return
	}
	bi := func(e interface{ BigInt(*big.Int) *big.Int }) *big.Int { return e.BigInt(new(big.Int)) }
	cm0, cm1 := new(big.Int), new(big.Int)
	if len(bp.Commitments) > 0 {
		cm0, cm1 = bi(&bp.Commitments[0].X), bi(&bp.Commitments[0].Y)
	}
	want := []*big.Int{bi(&bp.Ar.X), bi(&bp.Ar.Y), bi(&bp.Bs.X.A1), bi(&bp.Bs.X.A0), bi(&bp.Bs.Y.A1), bi(&bp.Bs.Y.A0), bi(&bp.Krs.X), bi(&bp.Krs.Y), cm0, cm1, bi(&bp.CommitmentPok.X), bi(&bp.CommitmentPok.Y)}
	for i, w := range want {
		got, ok := new(big.Int).SetString("0"+strings.TrimPrefix(f[i], "0x"), 16)
		r.Expect(strings.HasPrefix(f[i], "0x") && ok && got.Cmp(w) == 0, key, in, "batch export value %d is %s, want %x", i, f[i], w)
	}
	tail := []string{ps.QueryId, ps.SMTRoot[0], ps.SMTRoot[1], ps.AggVkHash, ps.OutputCommit[0], ps.OutputCommit[1], ps.AppVkHash}
	r.Expect(strings.Join(f[12:19], ",") == strings.Join(tail, ","), key, in, "batch export public inputs %v, want %v", f[12:19], tail)
}

// synthetic exports proofs whose coordinates have leading zero bytes or are extreme (no curve check needed).
func synthetic(r *vm.R) {
	n := r.N(500, 20000)
	vm.Par(n, 0, func(i int) {
		rng := r.Rand(fmt.Sprintf("syn/%d", i))
		v := func() *big.Int { return new(big.Int).Mod(edge256(rng), ecc.BN254.BaseField()) }
		vs := make([]*big.Int, 12)
		for j := range vs {
			vs[j] = v()
		}
		p := rebuild([2]*big.Int{vs[0], vs[1]}, [2][2]*big.Int{{vs[2], vs[3]}, {vs[4], vs[5]}}, [2]*big.Int{vs[6], vs[7]}, [2]*big.Int{vs[8], vs[9]}, [2]*big.Int{vs[10], vs[11]}, true)
		in := map[string]any{"coordinates": fmt.Sprint(vs)}
		r.Case("export-synthetic", in, func() {
			var before bytes.Buffer
			_, _ = p.WriteRawTo(&before)
			a, b, c, cm, pok := utils.ExportProof(p)
			err := eqInts([]*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], c[0], c[1], cm[0], cm[1], pok[0], pok[1]}, vs)
			r.Expect(err == nil, "export-synthetic", in, "ExportProof: %v", err)
			batch(r, "export-synthetic", in, p, rng)
			r.Eval("export-synthetic", fmt.Sprint(vs))
		})
	})
}
