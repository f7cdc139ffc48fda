package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	ethtypes "github.com/ethereum/go-ethereum/core/types"

	. "github.com/brevis-network/zk-utils/common/proof"
	"verifharness/vm"
)

// The names under which the records are stored (pinned when the monitor was written): stored objects and the
// other services that write them outlive one release. A trailing '?' marks a name left out when the field is zero.
const storedNames = `
ChunkUpdate StartBlockNum:start_block_num Count:count ChainId:chain_id TargetChainId:target_chain_id
StorageProvingInfo BlockNum:start_block_num Address:address Key:key SlotValue:slot_value
TransactionProvingInfo TransactionHash:transaction_hash ChainId:chain_id
ReceiptProvingInfo TransactionHash:transaction_hash ChainId:chain_id
UniswapSumProvingInfo TxHashes:tx_hashes ChainId:chain_id
AggregateProvingInfo RequestId:request_id Proofs:proofs PublicInputs:public_inputs
ExportUniswapVolPublicInputs Recipient:Recipient Volume:Volume SmtRoot0:SmtRoot0 SmtRoot1:SmtRoot1 Length:Length VkHash:VkHash
ReceiptDecoderAggPubInputs CommitHash:CommitHash Length:Length VkHash:VkHash
UpdateProof SszProof:committee_map_proof SigProof:bls_sig_proof ChunkProof:chunk_proof StorageProof:storage_proof TransactionProof:transaction_proof ReceiptProof:receipt_proof SMTUpdateProof:smt_update_proof DurationSeconds:duration_seconds
CommitteeSszMappingProof Sha256SszRoot:sha256_ssz_root PoseidonSszRoot:poseidon_ssz_root Proof:proof
SigProof Participation:participation PoseidonRoot:poseidon_root CommitmentPub:commitment_pub Proof:proof
ChunkProof ChunkRoot:chunk_root? PrevHash:prev_hash? EndHash:end_hash? StartBlockNum:start_block_num? EndBlockNum:end_block_num? Proof:proof?
Groth16Proof A:a B:b C:c Commitment:commitment CommitmentPok:commitment_pok
StorageProof BlockHash:block_hash? AddressProofKey:address_proof_key? Slot:slot? SlotValue:slot_value? BlockNumber:block_num? Proof:proof?
TransactionProof TransactionHash:address_proof_key? BlockHash:block_hash? BlockNumber:block_num? BlockTime:block_time? LeafHash:leaf_hash? LeafRlpPrefix:leaf_rlp_prefix? Proof:proof?
ReceiptProof TransactionHash:transaction_hash? BlockHash:block_hash? BlockNumber:block_num? BlockTime:block_time? LeafHash:leaf_hash? LeafRlpPrefix:leaf_rlp_prefix? Proof:proof?
SMTUpdateProof OldSmtRoot:transaction_hash? NewSmtRoot:block_hash? EndBlockHash:block_num? EndBlockNum:block_time? NextChunkMerkleRoot:leaf_hash? Proof:proof? CommitmentPub:commitment_pub?
SMTUpdateAssignmentData OldSmtRoot:old_smt_root? NewSmtRoot:new_smt_root? EndBlockHash:end_block_hash? EndBlockNum:end_block_number? NextChunkMerkleRoot:next_chunk_merkle_root? InsertionMerklePath:insertion_merkle_path? NextChunkMerklePath:next_chunk_merkle_path? Headers:headers? UpdatedChunkIndexes:updated_chunk_indexes? NewChunkIndex:new_chunk_index? NewChunkMerkleRoot:new_chunk_merkle_root? NewChunkRoot:new_chunk_root? InitialStartBlockNum:initial_start_block_num?
SDKQueryProvingInfo Hash:hash ChainId:chain_id ReceiptInfos:receipt_infos StorageSlotInfos:storage_slot_infos TransactionInfos:transaction_infos SMTRoot:smt_root BatchSize:batch_size AppCircuitInfo:app_circuit_info UseVM:use_vm VMAppInfo:vm_app_info
SDKQueryProvingInfoForReceipt TransactionHash:transaction_hash ChainId:chain_id LogExtractInfos:log_extract_infos BlockNumber:blk_num BlockBaseFee:blk_base_fee ReceiptIndex:receipt_index ReceiptRlp:receipt_rlp BlockHash:block_hash BlockTime:block_time MPTKey:mpt_key MPTProofs:mpt_proofs BlockRlp:block_rlp BlockFieldsNum:block_fields_num SMTRoot:smt_root ChunkProofs:chunk_proofs SMTStartBlockNumber:smt_start_block_number SMTStartBlockParentHash:smt_start_block_parent_hash SMTInitialBlockNum:smt_initial_block_number SMTProofs:smt_proofs CommitHash:commit_hash TransactionType:transaction_type QueryRaw:query_raw UseLarge:use_large Status:status
SDKQueryLogExtractInfo ContractAddress:contract_address? LogIndex:log_index? LogTopic0:log_topic0? ValueFromTopic:value_from_topic? ValueIndex:value_index? Value:value? FieldNumInTopic:field_num_in_topics?
SDKQueryProvingInfoForStorageSlot AccountAddress:account_address ChainId:chain_id Slot:slot SlotValue:slot_value AccountProofs:account_proofs AccountRlp:account_rlp StorageProofs:storage_proofs StorageHash:storage_hash BlockHash:block_hash BlockNumber:block_number BlockBaseFee:blk_base_fee BlockRlp:block_rlp BlockFieldsNum:block_fields_num SMTRoot:smt_root ChunkProofs:chunk_proofs SMTStartBlockNumber:smt_start_block_number SMTStartBlockParentHash:smt_start_block_parent_hash SMTInitialBlockNum:smt_initial_block_number SMTProofs:smt_proofs CommitHash:commit_hash QueryRaw:query_raw BlockTime:block_time
SDKQueryProvingInfoForTransaction TransactionHash:transaction_hash ChainId:chain_id SMTRoot:smt_root LeafHash:leaf_hash BlockHash:block_hash BlockNumber:blk_num BlockBaseFee:blk_base_fee BlockTime:block_time MPTKey:mpt_key MPTProofs:mpt_proofs MPTLeafRlpPrefix:mpt_leaf_rlp_prefix BlockRlp:block_rlp BlockFieldsNum:block_fields_num ChunkProofs:chunk_proofs SMTStartBlockNumber:smt_start_block_number SMTStartBlockParentHash:smt_start_block_parent_hash SMTInitialBlockNum:smt_initial_block_number SMTProofs:smt_proofs UnsignedTxRlp:unsigned_tx_rlp ExtraInfo:extra_info CommitHash:commit_hash TransactionType:transaction_type QueryRaw:query_raw ReceiptRlp:receipt_rlp ReceiptMPTProofs:receipt_mpt_proofs
TransactionExtraInfo ChainId:chain_id Nonce:nonce MaxPriorityFeePerGas:max_priority_fee_per_gas MaxFeePerGas:max_fee_per_gas GasLimit:gas_limit From:from To:to Value:value
SDKQueryProvingInfoForAppCircuit Proof:proof VerifyingKey:verifying_key InputCommitments:input_commitments OutputCommitment:output_commitment TogglesCommitment:toggles_commitment Toggles:toggles Output:output InputCommitmentsRoot:input_commitments_root Witness:witness PublicValues:public_values VKHash:vk_hash
SubProveRequest RequestId:request_id ReceiptInfo:receipt_info StorageSlotInfo:storage_slot_info TransactionInfo:transaction_info
`

var recordTypes = []reflect.Type{
	reflect.TypeOf(ChunkUpdate{}),
	reflect.TypeOf(StorageProvingInfo{}),
	reflect.TypeOf(TransactionProvingInfo{}),
	reflect.TypeOf(ReceiptProvingInfo{}),
	reflect.TypeOf(UniswapSumProvingInfo{}),
	reflect.TypeOf(AggregateProvingInfo{}),
	reflect.TypeOf(ExportUniswapVolPublicInputs{}),
	reflect.TypeOf(ReceiptDecoderAggPubInputs{}),
	reflect.TypeOf(UpdateProof{}),
	reflect.TypeOf(CommitteeSszMappingProof{}),
	reflect.TypeOf(SigProof{}),
	reflect.TypeOf(ChunkProof{}),
	reflect.TypeOf(Groth16Proof{}),
	reflect.TypeOf(StorageProof{}),
	reflect.TypeOf(TransactionProof{}),
	reflect.TypeOf(ReceiptProof{}),
	reflect.TypeOf(SMTUpdateProof{}),
	reflect.TypeOf(SMTUpdateAssignmentData{}),
	reflect.TypeOf(SDKQueryProvingInfo{}),
	reflect.TypeOf(SDKQueryProvingInfoForReceipt{}),
	reflect.TypeOf(SDKQueryLogExtractInfo{}),
	reflect.TypeOf(SDKQueryProvingInfoForStorageSlot{}),
	reflect.TypeOf(SDKQueryProvingInfoForTransaction{}),
	reflect.TypeOf(TransactionExtraInfo{}),
	reflect.TypeOf(SDKQueryProvingInfoForAppCircuit{}),
	reflect.TypeOf(SubProveRequest{}),
}

type storedName struct {
	name string
	omit bool
}

// stored maps a record type to its fields' stored names.
var stored = func() map[string]map[string]storedName {
	m := map[string]map[string]storedName{}
	for _, l := range strings.Split(strings.TrimSpace(storedNames), "\n") {
		f := strings.Fields(l)
		m[f[0]] = map[string]storedName{}
		for _, x := range f[1:] {
			k, n, _ := strings.Cut(x, ":")
			m[f[0]][k] = storedName{strings.TrimSuffix(n, "?"), strings.HasSuffix(n, "?")}
		}
	}
	return m
}()

var (
	bigType    = reflect.TypeOf(big.Int{})
	headerType = reflect.TypeOf(ethtypes.Header{})
)

func recString(rng *rand.Rand) string {
	switch rng.Intn(6) {
	case 0:
		return ""
	case 1:
		return "0x" + vm.Hex(recBytes(rng, 32))
	case 2:
		return []string{"\"quoted\"", "a\\b/c", "<&>\u2028\u2029", "\t\n\x00\x7f", "zk证明😀", "null", "0", "true", " lead and trail "}[rng.Intn(9)]
	case 3:
		return new(big.Int).SetBytes(recBytes(rng, 32)).String()
	default:
		return vm.Hex(recBytes(rng, rng.Intn(600)))
	}
}

func recBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func recUint(rng *rand.Rand, bits int) uint64 {
	m := ^uint64(0) >> (64 - bits)
	switch rng.Intn(5) {
	case 0:
		return 0
	case 1:
		return m - uint64(rng.Intn(3))
	case 2: // where a float64 would lose the low digits
		return (1<<53 + uint64(rng.Intn(5))) & m
	case 3:
		return rng.Uint64() & m
	default:
		return uint64(rng.Intn(1<<20)) & m
	}
}

func recHeader(rng *rand.Rand) ethtypes.Header {
	h := ethtypes.Header{Difficulty: new(big.Int).SetBytes(recBytes(rng, 1+rng.Intn(32))), Number: new(big.Int).SetUint64(recUint(rng, 64)),
		GasLimit: recUint(rng, 64), GasUsed: recUint(rng, 64), Time: recUint(rng, 64), Extra: recBytes(rng, rng.Intn(33))}
	for _, d := range [][]byte{h.ParentHash[:], h.UncleHash[:], h.Coinbase[:], h.Root[:], h.TxHash[:], h.ReceiptHash[:], h.Bloom[:], h.MixDigest[:], h.Nonce[:]} {
		rng.Read(d)
	}
	if rng.Intn(2) == 0 {
		h.BaseFee = new(big.Int).SetUint64(recUint(rng, 64))
		if rng.Intn(2) == 0 {
			w := common.BytesToHash(recBytes(rng, 32))
			h.WithdrawalsHash = &w
		}
	}
	return h
}

// fillRec sets every field of the record to a random value.
func fillRec(rng *rand.Rand, v reflect.Value, depth int) {
	switch {
	case v.Type() == headerType:
		v.Set(reflect.ValueOf(recHeader(rng)))
		return
	case v.Type() == bigType:
		n := new(big.Int).SetBytes(recBytes(rng, rng.Intn(40)))
		v.Set(reflect.ValueOf(*n))
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillRec(rng, v.Field(i), depth+1)
			}
		}
	case reflect.Ptr:
		if v.Type().Elem() == bigType || rng.Intn(5) != 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fillRec(rng, v.Elem(), depth+1)
		}
	case reflect.Slice:
		switch n := rng.Intn(5); {
		case n == 0:
		case v.Type().Elem().Kind() == reflect.Uint8:
			v.SetBytes(recBytes(rng, rng.Intn(80)))
		default:
			n = rng.Intn(4)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				fillRec(rng, v.Index(i), depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillRec(rng, v.Index(i), depth+1)
		}
	case reflect.String:
		v.SetString(recString(rng))
	case reflect.Bool:
		v.SetBool(rng.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(recUint(rng, 31)) - int64(recUint(rng, 20)))
	case reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(recUint(rng, v.Type().Bits()))
	default:
		panic("record field of kind " + v.Kind().String())
	}
}

// recDiff names the first place where the records differ; nil and empty slices count as the same.
func recDiff(a, b reflect.Value, path string) string {
	switch {
	case a.Type() == bigType:
		x, y := a.Interface().(big.Int), b.Interface().(big.Int)
		if x.Cmp(&y) != 0 {
			return fmt.Sprintf("%s: %s became %s", path, x.String(), y.String())
		}
		return ""
	case a.Type() == headerType:
		x, y := a.Interface().(ethtypes.Header), b.Interface().(ethtypes.Header)
		if x.Hash() != y.Hash() {
			return path + ": header hash differs"
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := recDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v became nil %v", path, a.IsNil(), b.IsNil())
		}
		if !a.IsNil() {
			return recDiff(a.Elem(), b.Elem(), path)
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := recDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %#v became %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func mustJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// storedForm is the monitor's own encoder: the record under its pinned names.
func storedForm(v reflect.Value) string {
	if v.Type() == headerType {
		return mustJSON(v.Interface())
	}
	if v.Type() == bigType {
		n := v.Interface().(big.Int)
		return n.String()
	}
	switch v.Kind() {
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			n, ok := stored[v.Type().Name()][v.Type().Field(i).Name]
			if !ok || n.omit && v.Field(i).IsZero() {
				continue
			}
			p = append(p, strconv.Quote(n.name)+":"+storedForm(v.Field(i)))
		}
		return "{" + strings.Join(p, ",") + "}"
	case reflect.Ptr:
		if v.IsNil() {
			return "null"
		}
		return storedForm(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(base64.StdEncoding.EncodeToString(v.Bytes()))
		}
		var p []string
		for i := 0; i < v.Len(); i++ {
			p = append(p, storedForm(v.Index(i)))
		}
		return "[" + strings.Join(p, ",") + "]"
	case reflect.String:
		return mustJSON(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		return strconv.FormatInt(v.Int(), 10)
	default:
		return strconv.FormatUint(v.Uint(), 10)
	}
}

// clearNew zeroes fields the pinned table does not know: they are outside the property.
func clearNew(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == bigType || v.Type() == headerType {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if _, ok := stored[v.Type().Name()][v.Type().Field(i).Name]; !ok {
				if v.Field(i).CanSet() {
					v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
				}
				continue
			}
			clearNew(v.Field(i))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			clearNew(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			clearNew(v.Index(i))
		}
	}
}

func parseAny(b []byte) (x any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&x)
	return
}

func isEmpty(x any) bool {
	switch y := x.(type) {
	case nil:
		return true
	case string:
		return y == ""
	case json.Number:
		return y == "0"
	case bool:
		return !y
	case []any:
		return len(y) == 0
	case map[string]any:
		for _, z := range y {
			if !isEmpty(z) {
				return false
			}
		}
		return true
	}
	return false
}

// holds checks that got has every name and value of want; a name that is missing reads as the zero value.
func holds(want, got any, path string) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			if isEmpty(w) && isEmpty(got) {
				return ""
			}
			return fmt.Sprintf("%s: want an object, stored %v", path, got)
		}
		for k, x := range w {
			if d := holds(x, g[k], path+"."+k); d != "" {
				return d
			}
		}
	case []any:
		g, _ := got.([]any)
		if len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, stored %v", path, len(w), got)
		}
		for i := range w {
			if d := holds(w[i], g[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	default:
		if want != got && !(isEmpty(want) && isEmpty(got)) {
			return fmt.Sprintf("%s: want %v, stored %v", path, want, got)
		}
	}
	return ""
}

func oneRecord(r *vm.R, rng *rand.Rand, v reflect.Value, key string) {
	t := v.Type()
	clearNew(v.Elem())
	own := storedForm(v.Elem())
	r.Case(key, own, func() {
		r.Eval(t.Elem().Name(), own)
		b, err := json.Marshal(v.Interface())
		if !r.Expect(err == nil, key, own, "marshalling failed: %v", err) {
			return
		}
		back := reflect.New(t.Elem())
		if err = json.Unmarshal(b, back.Interface()); !r.Expect(err == nil, key, own, "reading the record back failed: %v", err) {
			return
		}
		r.Expect(recDiff(v.Elem(), back.Elem(), t.Elem().Name()) == "", key, own, "not what was written: %s", recDiff(v.Elem(), back.Elem(), t.Elem().Name()))
		r.Count("round-trips", 1)
		old := reflect.New(t.Elem())
		if err = json.Unmarshal([]byte(own), old.Interface()); !r.Expect(err == nil, key, own, "reading a record stored earlier failed: %v", err) {
			return
		}
		r.Expect(recDiff(v.Elem(), old.Elem(), t.Elem().Name()) == "", key, own, "a record stored earlier is read wrong: %s", recDiff(v.Elem(), old.Elem(), t.Elem().Name()))
		r.Count("stored-records-read", 1)
		w, e1 := parseAny([]byte(own))
		g, e2 := parseAny(b)
		if !r.Expect(e1 == nil && e2 == nil, key, own, "not JSON: %v %v", e1, e2) {
			return
		}
		d := holds(w, g, t.Elem().Name())
		r.Expect(d == "", key, own, "an earlier reader sees another record: %s", d)
		r.Count("records-seen-by-earlier-reader", 1)
	})
}

func c42(r *vm.R) {
	for _, t := range recordTypes {
		// the zero record and one record per field with only that field set
		rng := r.Rand("single " + t.Name())
		oneRecord(r, rng, reflect.New(t), t.Name()+"-zero")
		for i := 0; i < t.NumField(); i++ {
			for k := 0; k < 4; k++ {
				v := reflect.New(t)
				if !v.Elem().Field(i).CanSet() {
					continue
				}
				fillRec(rng, v.Elem().Field(i), 1)
				r.Count("single-field", 1)
				oneRecord(r, rng, v, t.Name()+"-"+t.Field(i).Name)
			}
		}
	}
	r.Count("record-types", int64(len(recordTypes)))
	n := r.N(1200, 6000)
	vm.Par(len(recordTypes), 8, func(ti int) {
		t := recordTypes[ti]
		rng := r.Rand("full " + t.Name())
		for i := 0; i < n; i++ {
			v := reflect.New(t)
			fillRec(rng, v.Elem(), 0)
			oneRecord(r, rng, v, t.Name()+"-random")
		}
	})

	rng := r.Rand("subproofs")
	for i, n := 0, r.N(1500, 6000); i < n; i++ {
		q := reflect.New(reflect.TypeOf(SDKQueryProvingInfo{}))
		fillRec(rng, q.Elem(), 0)
		info := q.Interface().(*SDKQueryProvingInfo)
		info.ReceiptInfos, info.StorageSlotInfos, info.TransactionInfos = noNil(info.ReceiptInfos), noNil(info.StorageSlotInfos), noNil(info.TransactionInfos)
		var want []string
		for j, x := range info.ReceiptInfos { // sometimes two queries of the same object
			if j > 0 && rng.Intn(4) == 0 {
				x.TransactionHash = info.ReceiptInfos[rng.Intn(j)].TransactionHash
			}
		}
		for j, x := range info.StorageSlotInfos {
			if j > 0 && rng.Intn(4) == 0 {
				x.StorageHash = info.StorageSlotInfos[rng.Intn(j)].StorageHash
			}
		}
		for j, x := range info.TransactionInfos {
			if j > 0 && rng.Intn(4) == 0 {
				x.TransactionHash = info.TransactionInfos[rng.Intn(j)].TransactionHash
			} else if len(info.ReceiptInfos) > 0 && rng.Intn(6) == 0 {
				x.TransactionHash = info.ReceiptInfos[len(info.ReceiptInfos)-1].TransactionHash
			}
		}
		for _, x := range info.ReceiptInfos {
			want = append(want, x.TransactionHash)
		}
		for _, x := range info.StorageSlotInfos {
			want = append(want, x.StorageHash)
		}
		for _, x := range info.TransactionInfos {
			want = append(want, x.TransactionHash)
		}
		in := storedForm(q.Elem())
		r.Case("sub-proofs", in, func() {
			r.Eval("sub-proofs", in)
			got := info.GetSubProofS3Path()
			r.Expect(strings.Join(got, "|") == strings.Join(want, "|") && len(got) == len(want), "sub-proofs", in, "sub-proof ids %q, want %q", got, want)
			r.Count("sub-proof-lists", 1)
		})
	}

	// the prefixes of distinct kinds of object are distinct, and none holds another's objects
	c42Prefixes(r)
}

func noNil[T any](l []*T) (o []*T) {
	for _, x := range l {
		if x != nil {
			o = append(o, x)
		}
	}
	return
}

func c42Prefixes(r *vm.R) {
	leaf := map[string]string{
		"update committee": S3_UPDATE_COMMITTEE_PREFIX, "update header": S3_UPDATE_HEADER_PREFIX, "update chunk": S3_UPDATE_CHUNK_PREFIX,
		"update smt": S3_UPDATE_SMT_PREFIX, "update storage": S3_UPDATE_STORAGE_PREFIX, "update transaction": S3_UPDATE_TRANSACTION_PREFIX,
		"update receipt": S3_UPDATE_RECEIPT_PREFIX, "update uniswap sum": S3_UPDATE_UNI_SUM_PREFIX, "update query": S3_UPDATE_ZKSDK_PREFIX, "update app agg": S3_UPDATE_APP_AGG_PREFIX,
		"proof header": S3_PROOF_HEADER_PREFIX, "proof committee": S3_PROOF_COMMITTEE_PREFIX, "proof chunk": S3_PROOF_CHUNK_PREFIX, "proof smt": S3_PROOF_SMT_PREFIX,
		"proof storage": S3_PROOF_STORAGE_PREFIX, "proof transaction": S3_PROOF_TRANSACTION_PREFIX, "proof receipt": S3_PROOF_RECEIPT_PREFIX,
		"proof uniswap sum": S3_PROOF_UNI_VOL_SUM_PREFIX, "proof uniswap receipt": S3_PROOF_UNI_RECEIPT_PREFIX, "proof query": S3_PROOF_ZKSDK_PREFIX,
		"proof app agg": S3_PROOF_APP_AGG_PREFIX, "smt assignment": S3_ASSIGNMENT_SMT_PREFIX,
	}
	for a, x := range leaf {
		for b, y := range leaf {
			if a != b {
				r.Eval("prefix-pair", a+b)
				r.Expect(x+"/" != y+"/" && !strings.HasPrefix(x+"/", y+"/"), "prefix", a+" and "+b, "objects of kind %q (%s) appear in a listing of kind %q (%s)", a, x, b, y)
				r.Count("prefix-pairs", 1)
			}
		}
	}
}
