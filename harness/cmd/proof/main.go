// Monitors of common/proof: block proofs (C25), transaction signers (C26), query commitments (C27), proof exports (C29).
package main

import "verifharness/vm"

func main() {
	vm.Main(map[string]vm.Spec{
		"C25": {Run: c25, Rule: "blocks of every listed size (RLP key length boundaries 127/128/255/256 included) with random transactions of all types and receipts; every index of small blocks, boundary and random indices of large ones; indices and receipts outside the block",
			Assumptions: []string{"go-ethereum's trie.VerifyProof and types.DeriveSha are the standard verifier and root"}},
		"C26": {Run: c26, Rule: "random transactions of every type x chain ids (0, 1, large, beyond 64 bit) x signatures: valid, every single corruption class, absent",
			Assumptions: []string{"go-ethereum's types.Sender is what the network attributes"}},
		"C27": {Run: c27, Rule: "random queries against an independent bit-level re-encoding, every single-field perturbation, every malformed-value class"},
		"C42": {Run: c42, Rule: "every record type: the zero record, each field alone, random records over the full value ranges; the pinned stored names of every field; pairs of object prefixes"},
		"C29": {Run: c29, Rule: "random and boundary proof records; real Groth16 proofs with and without commitments rebuilt from their exports and verified"},
	})
}
