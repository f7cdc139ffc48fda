package main

import (
	"crypto/sha512"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"verifharness/cat"
	"verifharness/vm"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	gkeccak "github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	grlp "github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/trie"
)

var c34 = vm.Spec{
	Run: runC34,
	Rule: "A case is one call (a gadget compiled or solved, or a host function) made by a goroutine while the others make calls of their own; it is " +
		"distinct by call and by the number of other calls of the library in flight when it started. Its result must be the one that the same call gave " +
		"alone beforehand, and the race detector must stay silent. Inputs are shared between the goroutines.",
	Assumptions: []string{"the race detector sees accesses that happen in the run, ordered or not by chance; it does not see memory accessed by assembly"},
}

// job is one call whose result is rendered as a string.
type job struct {
	name string
	run  func() string
}

// text renders any result; pointers are followed by the callers.
func text(xs ...any) string {
	s := fmt.Sprintf("%x", xs)
	if len(s) > 400 {
		h := sha512.Sum512([]byte(s))
		return fmt.Sprintf("%s.. %x", s[:100], h[:16])
	}
	return s
}

func rb(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}
func big0(rng *rand.Rand, bits int) *big.Int {
	return new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
}

// hostJobs calls every host-side function of the library; the inputs of a job are made once and shared by all its runs.
func hostJobs(rng *rand.Rand, n int) (js []job) {
	id := 0
	add := func(name string, f func() string) {
		js = append(js, job{fmt.Sprintf("host/%s#%d", name, id), f})
	}
	for id = 0; id < n; id++ {
		data := rb(rng, 700)[:rng.Intn(400)] // with room behind it
		b32 := rb(rng, 32)
		add("keccak padding", func() string {
			p := gkeccak.Pad101Bytes(data)
			q := circuits.Pad101Bytes(data)
			return text(p, q, gkeccak.Pad101(data), circuits.Pad101(data), gkeccak.Bytes2BlockBits(p), circuits.Bytes2BlockBits(q),
				gkeccak.Bytes2Bits(p), gkeccak.Bytes2Uint64s(p), gkeccak.GetKeccakRoundForPaddedBytes(p), gkeccak.GetRoundIndex(8*len(p)))
		})
		x, m := big0(rng, 256), big0(rng, 250)
		m.SetBit(m, 249, 1)
		bits := utils.DecomposeBits(x, 256)
		add("bits", func() string {
			d := utils.DecomposeBits(x, 256)
			h := utils.ParseBytes32(b32, 16)
			return text(d, utils.PackBitsToInt(bits), utils.Flip(bits), utils.FlipByGroups(bits, 8), gutils.Flip(bits), gutils.FlipSubSlice(bits, 8), utils.BitsToFrBigInt(bits, m),
				h, utils.Byte32ToFrBits(h, 16), utils.DecodeByteToBinary(b32[0]), utils.Var2BigInt(x), x, m, data)
		})
		hs := []string{utils.Bytes2Hex(b32), utils.Bytes2Hex0x(b32)}
		bs := [][]byte{b32, b32}
		add("hex", func() string {
			return text(utils.Hex2Bytes(hs[1]), utils.Bytes2Hex(b32), utils.ArrayHex2Hash(hs), utils.ArrayBytes2Hex0x(bs), utils.Hex2Addr(hs[0][:40]), utils.Hex2Hash(hs[0]),
				utils.Hex2BigInt(hs[1]), utils.Pad20Bytes(b32[:7]), utils.Pad32Bytes(b32[:9]), utils.Strings2bytes(hs), utils.Convert2DimensionalByteArrayToString(bs),
				utils.IsValidTxHash(hs[1]), utils.FormatAddrHex(hs[0][:40]), b32)
		})
		words := []string{"a", "b", "c", "d"}
		add("collections", func() string {
			p := utils.Partition(words, []string{"a", "c"}, func(k, v string) bool { return k == v })
			return text(p["a"], p["c"], utils.Contains(words, "c"), utils.GetStartBlockInfo(1), words)
		})
		add("GenerateBls12377Hash", func() string { return text(utils.GenerateBls12377Hash(data), data) })
		add("MiMCBlockPad0", func() string { return text(utils.MiMCBlockPad0(data, 32), data) })
		pre := []*big.Int{big0(rng, 250), big0(rng, 250), big0(rng, 250)}
		add("Poseidon", func() string {
			h := utils.NewPoseidonBn254()
			for _, v := range pre {
				h.Write(v)
			}
			d, err := h.Sum()
			return text(d, err, pre)
		})
		vk := sharedVK(rng)
		add("CalculateAppVkHash", func() string {
			d := utils.CalculateAppVkHashFor761(*vk)
			return text(d, utils.CalculateAppVkHashFrom761To254(d))
		})
		rq := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: uint64(rng.Uint32()), BlockBaseFee: "12345", MPTKey: "129", BlockTime: rng.Uint64()}
		for i := 0; i < 3; i++ {
			rq.LogExtractInfos = append(rq.LogExtractInfos, &proof.SDKQueryLogExtractInfo{ContractAddress: utils.Bytes2Hex0x(rb(rng, 20)), LogIndex: uint64(i),
				LogTopic0: utils.Bytes2Hex0x(rb(rng, 32)), ValueFromTopic: i == 1, ValueIndex: uint64(i), Value: utils.Bytes2Hex0x(rb(rng, 32))})
		}
		sq := &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: uint64(rng.Uint32()), BlockBaseFee: "7", AccountAddress: utils.Bytes2Hex0x(rb(rng, 20)), Slot: utils.Bytes2Hex0x(b32),
			SlotValue: x.String(), BlockTime: rng.Uint64()}
		tq := &proof.SDKQueryProvingInfoForTransaction{BlockNumber: uint64(rng.Uint32()), BlockBaseFee: "7", MPTKey: "128", LeafHash: utils.Bytes2Hex0x(b32), BlockTime: rng.Uint64()}
		add("query commitments", func() string {
			a, e := proof.MiMCHashReceiptCustomInputs(rq)
			b, e2 := proof.MiMCHashStorageCustomInputs(sq)
			c, e3 := proof.MiMCHashTxCustomInputs(tq)
			return text(a, b, c, fmt.Sprint(e, e2, e3), fmt.Sprintf("%+v", *rq.LogExtractInfos[1]))
		})
		block, receipts := sharedBlock(rng, 3+rng.Intn(140))
		add("transaction proof", func() string {
			i := len(receipts) / 2
			a, k, p, err := proof.GetTransactionProof(block, i)
			b, k2, p2, err2 := proof.GetReceiptProof(block, receipts, i)
			c, err3 := proof.GetReceiptRaw(receipts[i])
			return text(a, k, p, b, k2, p2, c, fmt.Sprint(err, err2, err3))
		})
		priv, err := crypto.ToECDSA(append([]byte{1}, rb(rng, 31)...))
		if err != nil {
			panic(err)
		}
		to := utils.Bytes2Addr(rb(rng, 20))
		chain := big.NewInt(int64(1 + rng.Intn(200000)))
		txs := []*types.Transaction{
			types.MustSignNewTx(priv, types.LatestSignerForChainID(chain), &types.LegacyTx{Nonce: rng.Uint64(), GasPrice: big0(rng, 60), Gas: 21000, To: &to, Value: big0(rng, 90), Data: data}),
			types.MustSignNewTx(priv, types.LatestSignerForChainID(chain), &types.DynamicFeeTx{ChainID: chain, Nonce: rng.Uint64(), GasFeeCap: big0(rng, 60), GasTipCap: big0(rng, 50), Gas: 21000, To: &to, Value: big0(rng, 90), Data: data}),
		}
		add("sender", func() string {
			s := ""
			for _, tx := range txs {
				a, err := proof.RecoverTransactionSignerAddress(tx)
				b, err2 := proof.PrepareUnsignedTransactionRlp(tx)
				s += text(a, b, fmt.Sprint(err, err2), tx.Hash())
			}
			return s
		})
		var prev [32]byte
		copy(prev[:], b32)
		headers := fsmt.GenHeaders(4, 100+id, prev)
		leaves := [][]byte{}
		for i := 0; i < 8; i++ {
			leaves = append(leaves, append([]byte{0}, rb(rng, 31)...))
		}
		add("headers", func() string {
			e, idx, err := fsmt.EncodeHeaders(headers)
			hs := fsmt.GenHeaders(3, 5, prev)
			return text(fmt.Sprint(e), fmt.Sprint(idx), err, hs[2].Hash(), fsmt.MimcRoot(leaves), fsmt.MimcHashBytes32(b32), fmt.Sprint(fsmt.NewHash(b32), fsmt.EmptyHash()),
				circuits.ChunkIndexFound(3, []uint64{1, 2, 3}), leaves)
		})
		add("renderings", func() string {
			p := eth.IBeaconVerifierProof{A: [2]*big.Int{x, m}, B: [2][2]*big.Int{{x, m}, {m, x}}, C: [2]*big.Int{x, x}, Commitment: [2]*big.Int{m, m}}
			u := eth.LightClientUpdate{FinalityBranch: [][32]byte{prev, prev}, NextSyncCommitteeRootMappingProof: p, SignatureSlot: 9,
				SyncAggregate: eth.SyncAggregate{PoseidonRoot: prev, Proof: p}}
			r := eth.BrevisRequestRequestSent{ProofId: prev, Nonce: 7}
			o := eth.BrevisRequestOpRequestsFulfilled{ProofIds: [][32]byte{prev}, Nonces: []uint64{3}}
			return u.String() + r.PrettyLog(1) + o.PrettyLog(2)
		})
		add("gadget parameters", func() string {
			l, e, b := mpt.NewMPTLeafCheck(64+id, 100), mpt.NewMPTExtensionCheck(64, 64+id), mpt.NewMPTBranchCheck(64+id)
			return fmt.Sprintf("%v %v %v %v %v", l, e, b, grlp.LogCeil(100+id), *grlp.NewSubArray(40+id, 20, 7))
		})
	}
	return
}

type vk761 = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

func sharedVK(rng *rand.Rand) *vk761 {
	var vk vk761
	vk.NbPublicVariables = rng.Uint64()
	fe := func() frontend.Variable {
		var e fr761.Element
		e.SetBigInt(new(big.Int).Rand(rng, fr761.Modulus()))
		return e
	}
	for i := 0; i < 4; i++ {
		vk.CosetShift.Limbs = append(vk.CosetShift.Limbs, new(big.Int).SetUint64(rng.Uint64()))
	}
	g1 := func() sw_bls12377.G1Affine { return sw_bls12377.G1Affine{X: fe(), Y: fe()} }
	vk.Kzg.G1 = g1()
	for i := range vk.Kzg.G2 {
		p := &vk.Kzg.G2[i].P
		p.X.A0, p.X.A1, p.Y.A0, p.Y.A1 = fe(), fe(), fe(), fe()
	}
	for i := range vk.S {
		vk.S[i].G1El = g1()
	}
	vk.Ql.G1El, vk.Qr.G1El, vk.Qm.G1El, vk.Qo.G1El, vk.Qk.G1El = g1(), g1(), g1(), g1(), g1()
	return &vk
}

func sharedBlock(rng *rand.Rand, n int) (*types.Block, types.Receipts) {
	var txs types.Transactions
	var rs types.Receipts
	for i := 0; i < n; i++ {
		to := utils.Bytes2Addr(rb(rng, 20))
		txs = append(txs, types.NewTx(&types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: uint64(i), GasFeeCap: big0(rng, 60), GasTipCap: big0(rng, 50), Gas: 21000, To: &to,
			Value: big0(rng, 90), Data: rb(rng, rng.Intn(80)), V: big.NewInt(1), R: big0(rng, 250), S: big0(rng, 250)}))
		rc := &types.Receipt{Type: 2, Status: 1, CumulativeGasUsed: uint64(21000 * (i + 1)), Logs: []*types.Log{{Address: to, Topics: []common.Hash{}, Data: rb(rng, 40)}}}
		rc.Bloom = types.CreateBloom(types.Receipts{rc})
		rs = append(rs, rc)
	}
	h := &types.Header{Number: big.NewInt(100), Difficulty: big.NewInt(0)}
	return types.NewBlock(h, &types.Body{Transactions: txs}, rs, trie.NewStackTrie(nil)), rs
}

// gadgetJobs compiles and solves gadgets (gnark's test engine is not meant for concurrent use). One catalogue is shared by all
// of them, as are the compiled constraints.
func gadgetJobs(r *vm.R, max, limit int) (js []job) {
	gs := cat.All()
	for i, g := range gs {
		i, g := i, g
		if g.Weight > max {
			continue
		}
		rng := r.Rand(fmt.Sprint("inputs/", key(g)))
		nIn := g.NIn()
		c, err := vm.Compile(g.Field, nIn, i%2 == 0, g.Fn)
		if err != nil {
			r.Violate(key(g)+"/compile", nil, "%v", err)
			continue
		}
		for _, plonk := range []bool{false, true} {
			b := build{i, plonk}
			if c.CS.GetNbConstraints() > limit {
				continue
			}
			js = append(js, job{fmt.Sprintf("compile/%s#%d/%s", key(g), i, b.form()), func() string {
				_, d := compileOne(gs, b)
				return d
			}})
		}
		for k := 0; k < 2; k++ {
			in := g.Gen(rng)
			if k == 1 && g.Bad != nil {
				in = g.Bad(rng)
			}
			in1 := vm.V(in)
			js = append(js, job{fmt.Sprintf("solve/%s#%d.%d", key(g), i, k), func() string {
				o, err := c.Solve(in1, withHints())
				return verdict(g, o, err)
			}})
		}
	}
	return
}

func verdict(g *cat.Gadget, o []*big.Int, err error) string {
	if err != nil {
		return "refused" // the text of a refusal holds addresses
	}
	return text(g.Meaning(o))
}

// event is one call of the log that each goroutine keeps for itself: the goroutines share nothing but the library, so that
// the monitor does not order what the race detector is to find unordered.
type event struct {
	job        int
	start, end int64
	got        string
}

// coldCompiles compiles the catalogue before anything else ran, every gadget by two goroutines that start together and
// share nothing: whatever the library keeps after a first call, these are the calls that meet it empty.
func coldCompiles(r *vm.R, max int) func() {
	var bs []build
	gs := cat.All()
	for i, g := range gs {
		if g.Weight <= max {
			bs = append(bs, build{i, i%2 == 0})
		}
	}
	res := make([]string, 2*len(bs))
	start := make(chan bool)
	var wg sync.WaitGroup
	for w := 0; w < 2; w++ {
		for q := 0; q < 4; q++ {
			w, q := w, q
			wg.Add(1)
			own := cat.All()
			go func() {
				defer wg.Done()
				<-start
				for n := q; n < len(bs); n += 4 {
					n := n
					if m := vm.Try(func() { _, res[w*len(bs)+n] = compileOne(own, bs[n]) }); m != "" {
						res[w*len(bs)+n] = m
					}
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	return func() {
		for n, b := range bs {
			k := key(gs[b.gadget])
			_, alone := compileOne(gs, b)
			for w := 0; w < 2; w++ {
				r.Eval("cold compilation", fmt.Sprint(k, n, w))
				r.Expect(res[w*len(bs)+n] == alone, k+"/compile", nil, "compiled first and among others: %s, later and alone: %s", res[w*len(bs)+n], alone)
			}
		}
	}
}

func runC34(r *vm.R) {
	check := coldCompiles(r, r.N(0, 1))
	defer check()
	js := append(hostJobs(r.Rand("host"), r.N(3, 8)), gadgetJobs(r, r.N(0, 1), r.N(2000, 100000))...)
	want := make([]string, len(js))
	nHost := 0
	for nHost < len(js) && strings.HasPrefix(js[nHost].name, "host/") {
		nHost++
	}
	cold := make([][2]string, nHost)
	call := func(i int) (got string) {
		if m := vm.Try(func() { got = js[i].run() }); m != "" {
			got = m
		}
		return
	}
	// The host functions for the first time, each by two goroutines.
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < 2; w++ {
		for q := 0; q < 4; q++ {
			w, q := w, q
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := q; i < nHost; i += 4 {
					cold[i][w] = call(i)
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	// Alone, and twice: a call that does not repeat itself is a violation of its own.
	for i, j := range js {
		i, j := i, j
		r.Case(j.name, nil, func() {
			want[i] = call(i)
			again := call(i)
			r.Eval("alone", j.name)
			for w := 0; i < nHost && w < 2; w++ {
				r.Eval("cold", fmt.Sprint(j.name, w))
				r.Expect(want[i] == cold[i][w], j.name, map[string]any{"phase": "first calls"}, "for the first time and among others: %s, alone: %s", cold[i][w], want[i])
			}
			r.Expect(want[i] == again, j.name, nil, "called twice with the same input: %s, then %s", want[i], again)
			r.Expect(!strings.HasPrefix(j.name, "host/") || !strings.HasPrefix(want[i], "panic"), j.name, nil, "%s", want[i])
		})
	}
	kinds := map[string]int{}
	for i, j := range js {
		k := strings.SplitN(j.name, "/", 2)[0]
		if kinds[k] < 2 {
			kinds[k]++
			r.Sample(k, map[string]any{"call": j.name, "result": want[i]})
		}
	}
	r.Count("calls in the mix", int64(len(js)))
	t0 := time.Now()
	pairs := map[string]bool{}
	phase := func(name string, plan [][]int, gate bool) {
		logs := make([][]event, len(plan))
		start := make(chan bool)
		var wg sync.WaitGroup
		for w := range plan {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				if gate {
					<-start
				}
				for _, i := range plan[w] {
					e := event{job: i, start: int64(time.Since(t0))}
					e.got = call(i)
					e.end = int64(time.Since(t0))
					logs[w] = append(logs[w], e)
				}
			}()
		}
		close(start)
		wg.Wait()
		for w, l := range logs {
			for n, e := range l {
				among := 0
				for v, m := range logs {
					if v == w {
						continue
					}
					for _, o := range m {
						if o.start < e.end && e.start < o.end {
							among++
							pairs[short(js[e.job].name)+"|"+short(js[o.job].name)] = true
						}
					}
				}
				r.Eval(name, fmt.Sprint(js[e.job].name, among))
				r.Expect(e.got == want[e.job], js[e.job].name, map[string]any{"phase": name, "goroutine": w, "step": n, "overlapping calls": among},
					"among other calls the result is %s, alone it is %s", e.got, want[e.job])
			}
		}
	}
	// The same call from several goroutines at once, on the same inputs.
	for i := range js {
		phase("together", [][]int{{i}, {i}, {i}, {i}}, true)
	}
	// Everything at once, in an order of its own for each goroutine.
	plan := make([][]int, 2*runtime.NumCPU())
	for w := range plan {
		rng := r.Rand(fmt.Sprint("worker/", w))
		for n := r.N(100, 1000); n > 0; n-- {
			i := rng.Intn(len(js))
			if rng.Intn(2) == 0 { // few calls, met by many
				i = rng.Intn(1+w%4*8+8) % len(js)
			}
			plan[w] = append(plan[w], i)
		}
	}
	phase("mixed", plan, true)
	// The big ones, each compiled by two goroutines on one catalogue while the other ones are.
	gs := cat.All()
	var hs []build
	for i, g := range gs {
		if strings.Contains(" sha256.Sum sha512.Sum keccak.Keccak256Bits emulated.MiMC bls.G2Ops bls.E2Exp mpt.CheckLeaf mpt.CheckExtension ", " "+key(g)+" ") {
			hs = append(hs, build{i, true}, build{i, true})
		}
	}
	ds := make([]string, len(hs))
	vm.Par(len(hs), len(hs), func(i int) {
		if m := vm.Try(func() { _, ds[i] = compileOne(gs, hs[i]) }); m != "" {
			ds[i] = m
		}
	})
	for i := 0; i < len(hs); i += 2 {
		k := key(gs[hs[i].gadget])
		r.Eval("large compilation", k)
		r.Expect(ds[i] == ds[i+1] && len(ds[i]) == 24, k+"/compile", nil, "two goroutines compiled %s and %s", ds[i], ds[i+1])
	}
	r.Count("distinct pairs of calls that overlapped", int64(len(pairs)))
}

func short(s string) string { return strings.SplitN(s, "#", 2)[0] }
