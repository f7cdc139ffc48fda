package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strings"

	"verifharness/vm"

	"github.com/brevis-network/zk-utils/common/eth"
)

// fill sets every field of v to random values; nils leaves some big integers unset.
func fill(rng *rand.Rand, v reflect.Value, nils bool) {
	if x, ok := v.Addr().Interface().(**big.Int); ok {
		if !nils || rng.Intn(4) > 0 {
			*x = new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint([]int{1, 64, 254, 256}[rng.Intn(4)])))
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type().PkgPath() != reflect.TypeOf(eth.LightClientUpdate{}).PkgPath() {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			fill(rng, v.Field(i), nils)
		}
	case reflect.Slice:
		n := rng.Intn(5)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(rng, v.Index(i), nils)
		}
	case reflect.Uint8:
		v.SetUint(uint64(rng.Intn(256)))
	case reflect.Uint64:
		v.SetUint([]uint64{0, 1, 1<<64 - 1, rng.Uint64()}[rng.Intn(4)])
	}
}

// leaves lists the texts that a rendering must show for v, in the order of the fields.
func leaves(v reflect.Value) (o []string) {
	if x, ok := v.Interface().(*big.Int); ok {
		if x == nil {
			return nil
		}
		return []string{x.String()}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			o = append(o, leaves(v.Field(i))...)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return []string{hex.EncodeToString(b)}
		}
		for i := 0; i < v.Len(); i++ {
			o = append(o, leaves(v.Index(i))...)
		}
	case reflect.Uint64:
		o = append(o, fmt.Sprint(v.Uint()))
	}
	return
}

var tokens = regexp.MustCompile(`\b[0-9a-f]{64}\b|\b[0-9]+\b`)

func contains(all, want []string) string {
	n := map[string]int{}
	for _, s := range all {
		n[s]++
	}
	for _, s := range want {
		if n[s]--; n[s] < 0 {
			return s
		}
	}
	return ""
}

func c41(r *vm.R) {
	vm.Par(r.N(1500, 20000), 0, func(i int) {
		rng := r.Rand(fmt.Sprint(i))
		nils := i%3 == 0
		one := func(name string, p any, render func() string) {
			v := reflect.ValueOf(p).Elem()
			fill(rng, v, nils)
			in := fmt.Sprintf("%+v", plain(v))
			r.Case(name, in, func() {
				s := render()
				r.Eval(name, in)
				if i < 2 {
					r.Sample(name, s)
				}
				again := render()
				r.Expect(s == again, name, in, "rendered as %q, then as %q", s, again)
				r.Expect(!strings.Contains(s, "%!"), name, in, "formatting went wrong: %s", s)
				miss := contains(tokens.FindAllString(s, -1), leaves(v))
				r.Expect(miss == "", name, in, "the value %s is not shown in %q", miss, s)
				// the parts in their places: the text after each label is the rendering of that part
				for _, l := range labels[name] {
					f := v.FieldByName(l.field)
					k := strings.Index(s, l.label)
					if !r.Expect(k >= 0, name, in, "no %q in %q", l.label, s) {
						continue
					}
					want := leaves(f)
					got := tokens.FindAllString(s[k+len(l.label):], -1)
					if len(got) < len(want) {
						got = append(got, make([]string, len(want))...)
					}
					r.Expect(fmt.Sprint(got[:len(want)]) == fmt.Sprint(want), name, in, "after %q there is %v, want %v", l.label, got[:len(want)], want)
				}
			})
		}
		lu, bh, hw := new(eth.LightClientUpdate), new(eth.BeaconBlockHeader), new(eth.HeaderWithExecution)
		ep, lb, sa := new(eth.ExecutionPayload), new(eth.LeafWithBranch), new(eth.SyncAggregate)
		su, pf := new(eth.ISMTSmtUpdate), new(eth.IBeaconVerifierProof)
		one("LightClientUpdate", lu, func() string { return lu.String() })
		one("BeaconBlockHeader", bh, func() string { return bh.String() })
		one("HeaderWithExecution", hw, func() string { return hw.String() })
		one("ExecutionPayload", ep, func() string { return ep.String() })
		one("LeafWithBranch", lb, func() string { return lb.String() })
		one("SyncAggregate", sa, func() string { return sa.String() })
		one("SmtUpdate", su, func() string { return su.String() })
		one("Proof", pf, func() string { return pf.String() })
		// events
		ev := new(eth.BrevisRequestRequestSent)
		fill(rng, reflect.ValueOf(ev).Elem(), nils)
		chain := rng.Uint64()
		in := fmt.Sprintf("%+v", ev)
		r.Case("RequestSent", in, func() {
			s, p := ev.String(), ev.PrettyLog(chain)
			r.Eval("RequestSent", in)
			r.Expect(fmt.Sprint(tokens.FindAllString(s, -1)) == fmt.Sprint([]string{hex.EncodeToString(ev.ProofId[:]), fmt.Sprint(ev.Nonce)}), "RequestSent", in, "rendered as %q", s)
			r.Expect(strings.Contains(p, s) && strings.Contains(p, fmt.Sprint(chain)), "RequestSent", in, "log line %q", p)
		})
		op := new(eth.BrevisRequestOpRequestsFulfilled)
		fill(rng, reflect.ValueOf(op).Elem(), nils)
		in = fmt.Sprintf("%+v", op)
		r.Case("OpRequestsFulfilled", in, func() {
			s, p := op.String(), op.PrettyLog(chain)
			var want []string
			for k, id := range op.ProofIds {
				want = append(want, hex.EncodeToString(id[:]))
				if k < len(op.Nonces) {
					want = append(want, fmt.Sprint(op.Nonces[k]))
				}
			}
			r.Eval("OpRequestsFulfilled", in)
			r.Expect(fmt.Sprint(tokens.FindAllString(s, -1)) == fmt.Sprint(want), "OpRequestsFulfilled", in, "rendered as %q, want %v", s, want)
			r.Expect(strings.Contains(p, s) && strings.Contains(p, fmt.Sprint(chain)), "OpRequestsFulfilled", in, "log line %q", p)
		})
	})
}

// plain renders without the methods under test.
func plain(v reflect.Value) any { return leaves(v) }

type label struct{ label, field string }

var labels = map[string][]label{
	"LightClientUpdate": {{"attestedHeader", "AttestedHeader"}, {"finalizedHeader", "FinalizedHeader"}, {"finalityBranch", "FinalityBranch"}, {"nextSyncCommitteeRoot ", "NextSyncCommitteeRoot"},
		{"nextSyncCommitteeBranch", "NextSyncCommitteeBranch"}, {"nextSyncCommitteePoseidonRoot", "NextSyncCommitteePoseidonRoot"},
		{"nextSyncCommitteeRootMappingProof", "NextSyncCommitteeRootMappingProof"}, {"syncAggregate", "SyncAggregate"}, {"signatureSlot", "SignatureSlot"}},
	"BeaconBlockHeader":   {{"slot ", "Slot"}, {"proposerIndex ", "ProposerIndex"}, {"parentRoot ", "ParentRoot"}, {"stateRoot ", "StateRoot"}, {"bodyRoot ", "BodyRoot"}},
	"HeaderWithExecution": {{"beacon ", "Beacon"}, {"execution ", "Execution"}, {"executionRoot ", "ExecutionRoot"}},
	"ExecutionPayload":    {{"stateRoot ", "StateRoot"}, {"blockHash ", "BlockHash"}, {"blockNumber ", "BlockNumber"}},
	"LeafWithBranch":      {{"leaf ", "Leaf"}, {"branch ", "Branch"}},
	"SyncAggregate":       {{"participation ", "Participation"}, {"poseidonRoot ", "PoseidonRoot"}, {"commitment ", "Commitment"}, {"proof ", "Proof"}},
	"SmtUpdate":           {{"newSmtRoot ", "NewSmtRoot"}, {"endBlockHash ", "EndBlockHash"}, {"endBlockNum ", "EndBlockNum"}, {"nextChunkMerkleRoot ", "NextChunkMerkleRoot"}, {"proof ", "Proof"}, {"commit: ", "Commit"}, {"Pok: ", "KnowledgeProof"}},
	"Proof":               {{"a ", "A"}, {"b ", "B"}, {"c ", "C"}, {"commitment ", "Commitment"}},
}
