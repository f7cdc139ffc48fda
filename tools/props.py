#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "circuits/gadgets/"
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", race=False, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, state=state, observe=observe))

ENG = "outputs captured in-circuit and compared online with an independent reference"

p("C01", "Keccak-256 gadgets equal Keccak-256 for every padded message and round",
  "For every byte string that fits the gadget's block capacity, padded with the library's own padding and fed with the matching round index, every Keccak-256 gadget (fixed-width word input, bit input, the optimised bit input, and the nibble-to-hash variants for ordinary and large transaction leaves) outputs exactly the Keccak-256 digest of the string. Data lying after the block selected by the round index never influences the digest.",
  ["inputs", "configurations"], "every message length 0..capacity, every content, every gadget variant, every round index, arbitrary trailing blocks",
  "Tests hash a handful of fixed strings; the round selection, last-block boundary and the ignored tail are only reachable by varying the length across every block boundary and by filling the tail with junk.",
  [G+"keccak/keccak256.go", G+"keccak/keccak256_bits.go", G+"keccak/keccak256_bits_optimized.go", G+"keccak/periphery.go", G+"keccak/keccakf/keccakf.go", G+"rlp/util.go"],
  [("round selection over a fixed number of permutations", G+"keccak/keccak256.go"), ("sponge permutation", G+"keccak/keccakf/keccakf.go")],
  "runtime monitor: circuit outputs vs x/crypto Keccak-256 over length sweep", "every length class up to capacity, junk tails")

p("C02", "Keccak padding is pad10*1 for every length and never touches the caller's data",
  "For every message length, the native and in-circuit Keccak padding helpers output the message followed by the legacy Keccak pad10*1 padding to the next multiple of 136 bytes (a single 0x81 byte when exactly one byte is missing), and the round-index helpers name the block holding the last padding bit. Native helpers never modify the caller's buffer, including its spare capacity.",
  ["inputs"], "every length, content, slice capacity",
  "Unit tests pad one or two literals; the one-byte-missing length and slices with spare capacity are never exercised.",
  [G+"keccak/periphery.go", G+"keccak/pad.go", "common/circuits/keccak.go"],
  [("native padding", G+"keccak/periphery.go"), ("in-circuit padding", G+"keccak/pad.go")],
  "runtime monitor: padding oracle + canary bytes in caller buffers", "exhaustive over lengths 0..3*136+ for native helpers")

p("C03", "SHA-256 gadget equals SHA-256 for every message and write history",
  "For every sequence of writes, the SHA-256 circuit digest equals SHA-256 of the concatenation of everything written since creation or the last reset. Asking for the digest does not change the state: more data may be written afterwards and a repeated request gives the same answer.",
  ["inputs", "histories"], "every message, every chunking, every interleaving of write/sum/reset",
  "There is no test of the gadget; block buffering depends on the chunking history, and padding on the length modulo 64.",
  [G+"sha256/sha256.go", G+"sha256/sha256block.go", G+"sha256/uint32api.go", G+"sha256/uint64api.go", G+"sha256/uint8api.go"],
  [("incremental block buffer", G+"sha256/sha256.go"), ("compression", G+"sha256/sha256block.go")],
  "runtime monitor: history checker against crypto/sha256", "every length mod 64, random histories")

p("C04", "SHA-512 gadget equals SHA-512 for every message and write history",
  "For every sequence of writes, the SHA-512 circuit digest equals SHA-512 of the concatenation of everything written since creation or the last reset. Asking for the digest does not change the state: more data may be written afterwards and a repeated request gives the same answer.",
  ["inputs", "histories"], "every message, every chunking, every interleaving of write/sum/reset",
  "There is no test of the gadget; block buffering depends on the chunking history, and padding on the length modulo 128.",
  [G+"sha512/sha512.go", G+"sha512/sha512block.go", G+"sha512/uint64api.go", G+"sha512/uint8api.go"],
  [("incremental block buffer", G+"sha512/sha512.go"), ("compression", G+"sha512/sha512block.go")],
  "runtime monitor: history checker against crypto/sha512", "every length mod 128, random histories")

p("C05", "RLP list gadgets accept every canonical list and return its exact fields",
  "For every canonical RLP list within the gadget's configured sizes, the list-checking gadgets accept it and return for each field its exact payload length and payload nibbles, and the total encoded length. This holds whatever follows the list in the input buffer, and for every mix of empty, single-byte, short and long fields and, for the nested-list gadget, a nested list, empty or not, in its last position.",
  ["inputs", "configurations"], "every canonical list within the configured widths, any trailing bytes",
  "Tests decode one mainnet account, header and transaction; the prefix arithmetic depends on every field's length class.",
  [G+"rlp/rlp.go", G+"rlp/util.go"],
  [("prefix decoding and shifting", G+"rlp/rlp.go")],
  "runtime monitor: gadget outputs vs go-ethereum rlp", "random structured lists over all length classes")

p("C06", "RLP list gadgets reject inputs whose lengths do not add up",
  "A list-checking gadget reports acceptance only if the input starts with a list header whose declared payload length equals the sum of the encoded lengths of the expected number of fields. Taking a list that is accepted and changing its declared length, or dropping or adding a field while keeping the declared length, is always reported as not accepted or makes the circuit unsatisfiable.",
  ["inputs"], "every mutation of prefixes and lengths of a list",
  "Acceptance tests contain no malformed lists at all.",
  [G+"rlp/rlp.go"],
  [("length accounting", G+"rlp/rlp.go")],
  "runtime monitor: mutated lists vs strict RLP reference decoder", "prefix and length mutations of every field class")

p("C07", "Block-header gadget binds hash, state root, receipt/tx roots and number",
  "For every block header of a supported shape (15 to 17 fields), the header gadget accepts its padded RLP encoding with the matching round index and outputs the Keccak hash of the blocks that index selects, and exactly the transactions root, state root, receipts root, number and timestamp-class fields the header contains. It never accepts a header encoding together with a hash, root or number that differs from the one encoded.",
  ["inputs"], "every header shape (15..17 fields), field length class and tampering",
  "Only a few captured mainnet headers are checked, and only for acceptance.",
  [G+"mpt/eth_proof.go", G+"rlp/rlp.go", G+"keccak/keccak256.go"],
  [("header decoding", G+"rlp/rlp.go"), ("hash binding", G+"mpt/eth_proof.go")],
  "runtime monitor: synthetic headers vs go-ethereum types.Header", "field-length class sweep with tampering")

p("C08", "Account and storage proof gadgets accept every valid Merkle-Patricia proof",
  "For every state and storage trie, every key present in it and every valid proof within the configured depth, the account gadget and the storage gadgets accept and return exactly the account's storage root (and related fields) and the slot's value.",
  ["inputs"], "every trie shape: depth, extension position, nibble parity, value length",
  "Tests replay a few captured mainnet proofs, several of which do not even pass; extensions, odd paths and short values are not covered.",
  [G+"mpt/eth_proof.go", G+"mpt/mpt.go", G+"mpt/mpt_util.go"],
  [("trie walk", G+"mpt/mpt.go"), ("node checks", G+"mpt/mpt_util.go")],
  "runtime monitor: proofs from go-ethereum tries run through the circuit", "generated tries over shape classes")

p("C09", "Trie-inclusion gadgets never accept a forged proof",
  "A trie-inclusion gadget never reports inclusion for a (root, key, value) triple that is not in the trie, where the value of the variable-key gadget is the hash of the node reached by the key: any proof with a changed key, value, root, node byte, node type, fragment length, depth or claimed node length is reported as not included or is unsatisfiable.",
  ["inputs"], "every single- and multi-component corruption of a valid proof, every trie",
  "Tests contain almost no negative proofs; soundness quantifies over all adversarial witnesses.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go", G+"mpt/eth_proof.go"],
  [("hash chain root to leaf", G+"mpt/mpt.go"), ("key-path coverage", G+"mpt/mpt_util.go")],
  "runtime monitor: mutated proofs with a ground-truth trie as oracle", "fault enumeration over every proof component")

p("C10", "Storage non-existence is reported exactly for absent keys, with value zero",
  "For a key absent from a storage trie, the storage gadget accepts a valid exclusion proof and yields the zero value; it never accepts an exclusion proof for a key that is present, and never yields a non-zero value for an absent key.",
  ["inputs"], "every trie, present and absent keys, exclusion proofs ending at each node kind, forged exclusions",
  "Only one captured exclusion proof is tested.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go", G+"mpt/eth_proof.go"],
  [("non-existence checks per node kind", G+"mpt/mpt_util.go")],
  "runtime monitor: exclusion proofs and forgeries with a ground-truth trie", "every terminating node kind; forged exclusions of present keys")

p("C11", "Transaction and receipt trie gadget accepts valid proofs for every index",
  "For every block and every transaction or receipt index in it, the variable-key inclusion gadget accepts the proof produced for that index, including blocks with more than 128 and more than 255 entries, and binds it to the hash of the real leaf node.",
  ["inputs"], "every block size and index (key lengths 2, 4 and 6 nibbles), every extension shape",
  "Tests check two captured transactions.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go"],
  [("variable-length key walk", G+"mpt/mpt.go")],
  "runtime monitor: proofs from go-ethereum DeriveSha tries run through the circuit", "block sizes across the RLP-key boundaries")

p("C12", "Index gadget encodes every transaction index as canonical RLP",
  "For every index from 0 to 65535 the index gadget outputs the nibbles of the index's canonical RLP encoding, zero-padded on the right. No other output is possible for that index and larger indices are unsatisfiable.",
  ["inputs"], "all 65536 indices and out-of-range indices",
  "Two tests check a handful of indices.",
  [G+"index-proof/core/circuit_index_mpt.go"],
  [("nibble decomposition with range selection", G+"index-proof/core/circuit_index_mpt.go")],
  "runtime monitor: exhaustive sweep against go-ethereum rlp", "exhaustive over the domain")

p("C13", "Selection and shift gadgets pick exactly the addressed elements",
  "For every width, data and index within range, the multiplexer, decoder, array-equality, less-than, sub-array and left/right shift gadgets return exactly what plain array indexing, comparison and shifting return. An out-of-range selector never silently selects data.",
  ["inputs", "configurations"], "every width, index, length and content",
  "Tests cover a few literal arrays per gadget.",
  [G+"rlp/util.go", G+"rlp/rlp.go", G+"mux/multiplexer.go"],
  [("one-hot decoding", G+"mux/multiplexer.go"), ("bitwise barrel shift", G+"rlp/rlp.go")],
  "runtime monitor: exhaustive/random sweep against Go slices", "all indices for a family of widths")

p("C14", "Bit, nibble, byte and 128-bit conversions are value-preserving",
  "Every conversion gadget between bits, nibbles, bytes, hex digits, 32-byte words and field elements preserves the value it represents in the documented order, for every input of the documented width.",
  ["inputs"], "every value and width",
  "These helpers have no tests.",
  [G+"conv/bits.go", "common/utils/compose.go", "common/utils/utils.go", G+"rlp/rlp.go", G+"utils/slice.go"],
  [("recomposition", "common/utils/utils.go")],
  "runtime monitor: conversions vs big.Int arithmetic", "random and boundary values per width")

p("C15", "Limb split, merge, re-split and rotation equal integer arithmetic",
  "For every limb list and every limb size below the field's bit length, splitting, merging, re-splitting and rotating (by 0 up to the total number of bits) yields limbs of the stated sizes, the last one possibly smaller, whose combined value equals the corresponding integer operation on the bit string they represent.",
  ["inputs", "configurations"], "every value, limb size and amount, including sizes that do not divide the total",
  "One test exercises one value per operation.",
  [G+"limbs/limbapi.go", G+"limbs/utils.go"],
  [("hint plus recomposition", G+"limbs/limbapi.go")],
  "runtime monitor: limb operations vs big.Int", "size grid with remainder sizes")

p("C16", "Hinted gadget outputs cannot be chosen by a malicious prover",
  "For every gadget built on prover-supplied hints, no assignment of the hinted values that differs from the honest one in a way that changes the gadget's outputs satisfies the constraints.",
  ["inputs", "fault_sequences"], "every hint call, every alternative hint output",
  "Tests always run the honest hint; a missing range constraint is invisible to them.",
  [G+"limbs/limbapi.go", G+"ed25519/point.go", G+"sha256/uint32api.go", G+"sha512/uint64api.go", G+"pairing_bls12381/tower.go"],
  [("range and recomposition constraints", G+"limbs/limbapi.go")],
  "adversarial-prover monitor: fault injection at every hint call, constraint re-evaluation", "value-preserving and random hint mutations at each call", "fault_enumeration")

p("C17", "Packing limbs into emulated elements and back preserves the integer",
  "For every limb or bit-chunk list and every chunk size, packing into emulated field elements and unpacking an element into chunks preserve the represented integer, in the documented chunk order, for every supported emulated field and for elements of reduced limb width. Sizes that do not fill the limbs or elements exactly are refused, never silently truncated.",
  ["inputs", "configurations"], "every value, chunk size and emulated field",
  "One value per direction is tested.",
  [G+"emulated/element.go", G+"limbs/limbapi.go"],
  [("re-chunking to the field's limb size", G+"emulated/element.go")],
  "runtime monitor: conversions vs big.Int", "chunk sizes x fields x values")

p("C18", "Emulated MiMC equals the native MiMC hash of the emulated field",
  "For every supported field and every input sequence, the emulated MiMC gadget outputs the same digest as the native MiMC hash over that field. Its incremental interface gives, on each request, the digest of everything written since the last reset: requesting a digest does not reset it.",
  ["inputs", "histories"], "every field, input count, value (including 0 and p-1) and write history",
  "Tests hash one or two small inputs.",
  [G+"emulated/mimc/mimc.go"],
  [("round constants and exponent per field", G+"emulated/mimc/mimc.go")],
  "runtime monitor: vs gnark-crypto MiMC", "all supported fields, write histories")

p("C19", "Merkle-root gadgets compute the true root for every leaf count and path",
  "For every power-of-two leaf set the root gadgets (Keccak and emulated MiMC) output the root of the binary hash tree over the leaves, and for every leaf position the path-based gadgets recompute the same root from the leaf, its index and its siblings, yielding a different root whenever the leaf, index or a sibling is changed.",
  ["inputs", "configurations"], "every tree size, leaf index and content",
  "Tests use one tree and a few indices.",
  [G+"merkle/keccak_root.go", G+"merkle/emulated_mimc_root.go", G+"merkle/mimc_root.go"],
  [("index-directed hashing", G+"merkle/mimc_root.go")],
  "runtime monitor: vs reference Merkle trees", "all sizes and indices up to 2^5")

p("C20", "Sparse-Merkle-tree inclusion accepts exactly the leaves of the tree",
  "The sparse-Merkle-tree gadgets accept exactly when the given leaf is the one stored at the given position under the given root (the asserting gadget is satisfiable, the flag gadget outputs 1, and otherwise unsatisfiable or 0), and the block-range leaf value it hashes matches the documented encoding of its parts.",
  ["inputs"], "every position, depth, leaf and corruption",
  "Its tests fail at this commit.",
  [G+"smt/smt.go", G+"merkle/mimc_root.go", "circuits/fabric/smt/utils.go"],
  [("root recomputation", G+"smt/smt.go")],
  "runtime monitor: reference SMT with MiMC-BN254, positive and tampered paths", "random trees with tampering at every level")

p("C21", "Emulated BLS12-381 tower arithmetic matches the native field tower",
  "Every arithmetic operation of the emulated quadratic, sextic and dodecic extension fields of BLS12-381 returns the same element as the native implementation for every operand for which it is defined, including zero, one and subfield elements (inverse and division: non-zero divisors). Equality, zero and sign flags are right for canonical representatives.",
  ["inputs"], "every operand of every operation",
  "Only whole pairings are tested, on one point pair, and some of those tests fail.",
  [G+"pairing_bls12381/tower.go"],
  [("tower operations", G+"pairing_bls12381/tower.go")],
  "runtime monitor: vs gnark-crypto bls12-381 tower", "edge-value operand product plus random")

p("C22", "Emulated BLS12-381 group and pairing results match the native curve",
  "For all points of the right subgroups, finite where the formula needs it, the emulated G2 group operations, Miller loop, final exponentiation and pairing produce the native library's result for single and multiple pairs; a pairing check is satisfiable exactly when the native product is one. Empty or mismatched lists of points are errors.",
  ["inputs"], "every point pair and number of pairs, including negatives and small multiples",
  "One fixed pair; three of the tests fail at this commit.",
  [G+"pairing_bls12381/pairing.go", G+"pairing_bls12381/g2.go", G+"pairing_bls12381/gt.go"],
  [("Miller loop", G+"pairing_bls12381/pairing.go"), ("G2 arithmetic", G+"pairing_bls12381/g2.go")],
  "runtime monitor: vs gnark-crypto bls12-381", "random points, bilinearity")

p("C23", "Emulated hash-to-G2 equals the standard hash-to-curve",
  "For every 32-byte message, the message-expansion, hash-to-field, map-to-curve, cofactor-clearing, encode-to-G2 and hash-to-G2 gadgets return the same values as the standard BLS12-381 G2 suite with the Ethereum signature domain tag, in both coordinate-system variants, including messages and field elements for which sign or exceptional branches are taken.",
  ["inputs"], "every message; field elements with a zero component or other exceptional values",
  "One message is tested and the exceptional branches (zero component, square or not) depend on the value; two tests fail at this commit.",
  [G+"pairing_bls12381/hash2curve.go", G+"pairing_bls12381/g2.go"],
  [("simplified SWU map, isogeny, cofactor clearing", G+"pairing_bls12381/hash2curve.go")],
  "runtime monitor: vs gnark-crypto hash-to-curve", "random messages plus crafted field elements")

p("C24", "Ed25519 gadget is satisfied exactly by valid signatures",
  "The Ed25519 verification gadget, whose message is 122 bytes long, is satisfied by every valid signature over every message, given with the canonical coordinates of the public key and of the signature's point. It is unsatisfiable whenever the message, either signature half or the public key is altered, the point is not on the curve, the scalar is not below the group order, or the public-key bytes are not the encoding of the public-key point.",
  ["inputs"], "every key, message and tampering, including equivalent scalars, unreduced coordinates and points off the curve",
  "The only test checks one signature and no refusal.",
  [G+"ed25519/ed25519.go", G+"ed25519/point.go", G+"ed25519/twistededwards.go", G+"ed25519/curve.go", G+"sha512/sha512.go"],
  [("double-base scalar multiplication", G+"ed25519/point.go"), ("verification equation", G+"ed25519/ed25519.go")],
  "runtime monitor: vs crypto/ed25519, positive and tampered", "random keys/messages, every tampered component")

p("C25", "Generated transaction and receipt proofs verify, for every index in a block",
  "For every block and every in-range index, the generated transaction or receipt proof verifies against the block's root with the standard verifier, yields the entry's consensus encoding, and comes with the right key and leaf prefix. An index outside the block, or receipts that do not match the block, yield an error and never a proof of something else.",
  ["inputs"], "every block size, tx type, index in and out of range, receipt list",
  "The functions are only tested through network calls.",
  ["common/proof/tx_merkel_proof.go"],
  [("trie construction and proof", "common/proof/tx_merkel_proof.go")],
  "runtime monitor: vs trie.VerifyProof and types.DeriveSha", "block sizes 1..300 and boundary indices")

p("C26", "Recovered transaction signer is the real sender, or an error",
  "For every signed replay-protected legacy or dynamic-fee transaction, the recovery helper returns the sender the network would attribute to it, and its unsigned encoding hashes to the digest that was signed. For any other type, an unprotected or unsigned transaction, or a signature from which no sender can be recovered, it returns an error, never a wrong address and never a panic.",
  ["inputs"], "every tx type, chain id (incl. large, none), signature corruption",
  "Two captured transactions are tested.",
  ["common/proof/util.go"],
  [("signing preimage and recovery id", "common/proof/util.go")],
  "runtime monitor: vs go-ethereum signer", "all tx types x chain ids x corruption")

p("C27", "Query commitments follow the circuit encoding and depend on every field",
  "For every query, the receipt, storage and transaction custom-input hashes equal the Poseidon commitment over the little-endian bit encoding of the documented fields (of a log's first topic, its first 6 bytes); two queries that differ in any committed field get different commitments and equal queries get equal ones. Malformed values, and more logs than the circuit holds, yield an error.",
  ["inputs"], "every query, every single-field change, malformed strings",
  "No tests exist.",
  ["common/proof/query_id.go", "common/utils/poseidon_bn254.go"],
  [("field encoding", "common/proof/query_id.go")],
  "runtime monitor: independent re-encoding plus sensitivity probes", "single-field perturbations of random queries")

p("C28", "Native and in-circuit bit packing of 32-byte values agree",
  "For every 32-byte value and field size, splitting into field elements and bits natively, and packing, unpacking and recomposing in-circuit, agree with each other and with plain integer arithmetic, and values are reduced below the modulus where a field element is returned.",
  ["inputs", "configurations"], "every value, bit length and modulus, including value == modulus",
  "One trivial flip test.",
  ["common/utils/binary.go", "common/utils/compose.go", "common/utils/utils.go"],
  [("bit packing", "common/utils/compose.go")],
  "runtime monitor: native vs circuit vs big.Int", "boundary values per modulus")

p("C29", "Exported proofs and ABI data decode back to the same proof",
  "For every proof record, the ABI encodings and big-integer views carry exactly the values of the record in the on-chain order, for the whole range of each field, and a real Groth16 proof exported for the chain is accepted by the curve's verification equation when read back.",
  ["inputs"], "every field value over its whole declared range; real proofs with and without commitments",
  "Two fixed vectors are printed or compared.",
  ["common/proof/types.go", "common/proof/agg_exports.go", "common/utils/groth16_util.go", "common/utils/string.go"],
  [("ABI encoding", "common/proof/types.go"), ("coordinate order", "common/utils/groth16_util.go")],
  "runtime monitor: ABI decode with go-ethereum and pairing check", "boundary and random values")

p("C30", "Persisted keys, witnesses and proofs read back identical or report errors",
  "Every key, witness, proof, constraint system and public-input file written by the persistence helpers reads back as an equal, usable object. When a write or read cannot complete (missing directory, full device, truncated or empty file) the helper reports an error, and no helper leaves a file descriptor open.",
  ["inputs", "fault_sequences", "histories"], "every object kind, pre-existing files, every fault point, repeated use",
  "No tests exist for the persistence helpers.",
  ["common/utils/pk-vk-utils.go", "common/utils/plonk_util.go", "common/utils/utils.go"],
  [("file round trip", "common/utils/pk-vk-utils.go")],
  "fault-injecting monitor: round trip, full device, truncation, fd accounting", "every helper x fault kind", level="fault_enumeration")

p("C31", "Contract codec round-trips call data and is safe to share",
  "For every method and argument list, encoded call data is the method's selector followed by the ABI encoding and its argument data decodes to the same values, and return data likewise; unknown methods, wrong argument counts, non-pointer destinations and truncated data give errors. Encoded results and selectors never alias the codec's internal state, so callers may modify them and use one codec from many goroutines.",
  ["inputs", "schedules", "histories"], "every ABI method, argument list, corrupted data; concurrent and mutating callers",
  "No tests exist; aliasing and races depend on what callers do with results.",
  ["common/utils/contract_codec.go"],
  [("encode/decode wrappers", "common/utils/contract_codec.go")],
  "runtime monitor: round trip, alias canaries, race detector", "random ABIs, concurrent callers")

p("C32", "Object-store client reflects the store's state over every history",
  "Over every history of uploads, downloads, deletes, listings and existence checks, by one caller or by several sharing a client, the client returns exactly the bytes last stored under a key, lists exactly the keys with the prefix however many there are, succeeds an existence check exactly for existing keys, and returns an error for every request that failed (a transient fault may be retried) instead of a partial or empty success.",
  ["histories", "fault_sequences"], "every operation history, more than one listing page, HTTP faults at any request",
  "The client is only mocked in tests.",
  ["common/s3api/client.go", "common/s3api/utils.go"],
  [("request wrappers", "common/s3api/client.go")],
  "runtime monitor: model-based history checker over an in-process S3 stub with faults", "random histories, fault injection")

p("C33", "Beacon client returns the right data or an error for every response",
  "For every response of the beacon and execution endpoints, the client returns the values that response carries, or an error; malformed, empty, error-status or unexpected responses never panic and never yield values the response does not carry, and response bodies are always closed.",
  ["inputs", "fault_sequences"], "every status code, body shape and truncation",
  "No test runs without network.",
  ["common/eth/client.go", "common/eth/string.go"],
  [("HTTP/JSON decoding", "common/eth/client.go")],
  "fault-injecting monitor: stub transport with response mutations and body-close tracking", "response mutation catalogue", level="fault_enumeration")

p("C34", "Concurrent use gives race-free results identical to sequential use",
  "Using the library from many goroutines at once, for witness helpers, hashing, proof generation and building or solving independent circuits, gives the same results as sequential use and has no data race.",
  ["schedules"], "every interleaving of independent calls",
  "Tests are sequential; shared package-level state only misbehaves under particular interleavings.",
  ["common/utils/utils.go", "common/proof/tx_merkel_proof.go", "common/proof/query_id.go", G+"sha256/uint32api.go", G+"limbs/limbapi.go", G+"pairing_bls12381/tower.go"],
  [("no shared mutable state between calls", "common/utils/utils.go")],
  "race detector plus sequential-equivalence monitor under stress", "goroutine stress with injected yields")

p("C35", "Compiling a circuit is deterministic and independent of witness values",
  "Compiling the same circuit twice, in any process and after any other circuits were built, yields the same constraint system, and every gadget's constraints do not depend on the witness, so keys made once verify proofs made later.",
  ["histories", "programs"], "every gadget, repeated and interleaved compilations",
  "Tests compile each circuit at most once and never compare.",
  [G+"limbs/limbapi.go", G+"pairing_bls12381/tower.go", G+"emulated/mimc/mimc.go", G+"rlp/rlp.go", G+"sha256/uint32api.go"],
  [("no map-ordered or stateful circuit construction", G+"limbs/limbapi.go")],
  "runtime monitor: constraint-system digests across repeated/interleaved/concurrent builds", "all exported gadgets")

p("C36", "Host-side field hashes are injective encodings and match their circuits",
  "The host hash helpers give the MiMC/Poseidon digest of the documented block encoding of their whole input: no input part is dropped, so inputs of one length that differ in any byte that survives reduction have different digests. Verifying-key digests depend on the public-variable count, coset shift, KZG points and every commitment of the key. The Poseidon hasher copies what is written and refuses more than 16 or out-of-range inputs.",
  ["inputs"], "every input length and content, in particular blocks at or above the field modulus",
  "No tests exist.",
  ["common/utils/utils.go", "common/utils/poseidon_bn254.go", "common/utils/compose.go", "circuits/fabric/smt/utils.go"],
  [("block splitting", "common/utils/utils.go")],
  "runtime monitor: reference hash and byte-sensitivity probes", "lengths x modulus-boundary contents")

p("C37", "Hex, byte and address helpers round-trip without touching their input",
  "For every valid input, the hex, address, hash, padding, flipping, reversing, partitioning and block-range helpers preserve the value they convert, pad or truncate on the documented side, and leave the caller's data unmodified unless documented as in-place.",
  ["inputs"], "every byte string, prefix form and length",
  "One flip test.",
  ["common/utils/hex.go", "common/utils/binary.go", "common/utils/string.go", "common/utils/time.go"],
  [("conversion helpers", "common/utils/hex.go")],
  "runtime monitor: round-trip and canary oracles", "exhaustive small lengths, random content")

p("C38", "Block-header batch encoding feeds the SMT circuit the true header hashes",
  "For every batch of headers the encoder outputs for each header the padded blocks and round index whose Keccak digest is the header's real hash, or an error when a header does not fit; chains generated for tests link by parent hash, and the MiMC root helper equals the root of the pairwise MiMC tree over the leaves.",
  ["inputs", "configurations"], "every header shape and batch size, oversized extra data, missing optional fields",
  "No tests exist.",
  ["circuits/fabric/smt/utils.go", G+"keccak/periphery.go", "common/circuits/smt.go"],
  [("header RLP encoding and padding", "circuits/fabric/smt/utils.go")],
  "runtime monitor: vs go-ethereum header hash and reference tree", "header shape sweep")

p("C39", "Only true results are provable with real Groth16 and PLONK keys",
  "With real Groth16 or PLONK keys for a circuit built from the gadgets, the true result of the gadget is provable and the proof verifies. The proof never verifies for any other public result, a wrong result cannot be proved, and inputs a gadget refuses cannot be proved at all.",
  ["inputs", "configurations"], "every gadget, both proof systems, every changed public value",
  "The tests use gnark's test engine or the constraint solver; none proves and verifies with keys made before the witness was known, which is what a user of the gadgets does.",
  [G+"limbs/limbapi.go", G+"conv/bits.go", G+"mux/multiplexer.go", G+"rlp/util.go", G+"merkle/mimc_root.go"],
  [("bit and limb decomposition", G+"limbs/limbapi.go"), ("selection", G+"mux/multiplexer.go")],
  "runtime monitor: prove/verify with real keys, forged public values and refused inputs", "catalogue gadgets of moderate size; the large gadgets are only solved, not proved")

p("C40", "Contract bindings send and read exactly the call's ABI values",
  "Every method of every contract binding sends exactly its selector and the ABI encoding of its arguments to the bound address with the caller's options (call, transaction, session, raw and deployment), and returns the node's answer or events value by value. Filters ask for the event's id and the given indexed arguments, node failures and undecodable answers are errors, and subscriptions end when told to.",
  ["inputs", "histories"], "every binding, method, event, argument value and node answer",
  "No test calls a binding; a wrong selector, argument order or result slot shows only against a node that decodes what it is sent.",
  ["common/eth/bindings.go", "common/bsc/bindings.go"],
  [("packing and sending", "common/eth/bindings.go"), ("reading logs", "common/bsc/bindings.go")],
  "runtime monitor: recording node with an independent ABI codec behind every binding", "all bindings, methods and events, random values; events of invalid ABI shape excluded")

p("C41", "Renderings of updates, proofs and events never fail and show all values",
  "The string and log renderings of light-client updates, chunk updates, proofs and request events never fail, even with unset integers or lists of different lengths, and show every value they carry under its field's label.",
  ["inputs"], "every record, including zero-valued, partially filled and uneven ones",
  "No test renders a record; the nil and uneven cases come from events of a chain, not from fixtures.",
  ["common/eth/string.go", "common/eth/evstr.go"],
  [("update and proof renderings", "common/eth/string.go"), ("event renderings", "common/eth/evstr.go")],
  "runtime monitor: generated records, every value looked up in the rendering", "random and partially nil records")

p("C42", "Update, proof and query records survive storage unchanged",
  "Every update, proof and query record written as JSON reads back with every field equal, for the whole range of each field (64-bit integers, big integers, bytes, any text, absent and present sub-records and lists). Each field is stored under its own established name, so that records stored earlier, or written by another service, are read into the same fields and earlier readers see every value. A query lists the identifiers of all its receipt, storage and transaction sub-proofs in that order. Objects of one kind never appear under the storage prefix of another kind.",
  ["inputs", "histories"], "every record type, every field alone and every combination of field values",
  "No test serialises a record; a duplicated or swapped field name compiles, and loses data silently.",
  ["common/proof/types.go"],
  [("record types and stored names", "common/proof/types.go")],
  "runtime monitor: round trip, pinned-name encoder and generic reader as two further parties", "every field of 26 record types alone and in random records")

areas = dict(l.split()[:2] for l in open(os.path.join(ROOT, "areas.txt")) if l.strip())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]]))) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in areas:
            checks.append(dict(property=q["id"], quick_cmd=f"VERIF_TIER=quick ./check.sh {q['id']}",
                thorough_cmd=f"VERIF_TIER=thorough ./check.sh {q['id']}",
                technique=q["technique"], level=q["level"], level_note=q["note"]))
        else:
            na.append(dict(property=q["id"], reason="monitor not built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
        notes="Runtime monitoring. check.sh builds the monitor of one property from /verif/harness against /repo's working tree (temporary -modfile, no file of /repo is written) and runs it supervised in a child process. No hooks in /repo.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    print(len(P), "properties,", len(checks), "checks")

main()
