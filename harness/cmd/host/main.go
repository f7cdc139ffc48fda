// Monitors of the host-side hashes and conversion helpers (C36, C37).
package main

import "verifharness/vm"

func main() {
	vm.Main(map[string]vm.Spec{
		"C36": {Run: c36, Level: "exploration", Rule: "every input length 0..400 (thorough 2000) with random, all-zero, all-one and boundary contents, single-bit neighbours of each input, synthetic verifying keys with every component perturbed alone, keys of real compiled circuits, and write/sum/reset histories of the Poseidon hasher; digests are compared with a reference that builds the field blocks with big integers, and digests of inputs with different encodings must differ",
			Assumptions: []string{"gnark-crypto's MiMC and iden3's Poseidon permutation are the reference"}},
		"C37": {Run: c37, Level: "exploration", Rule: "each helper over every length 0..80 with random and boundary bytes, prefixes and case variants, with canary bytes around the caller's data; results are compared with independent conversions and round trips, and the caller's data is compared before and after"},
		"C41": {Run: c41, Level: "exploration", Rule: "updates, headers, proofs and events with random and boundary fields, list lengths 0..4 (of parallel lists independently) and some integers unset; every number and hash of the value must stand in the text after the label of its field, and rendering must not panic or change"},
	})
}
