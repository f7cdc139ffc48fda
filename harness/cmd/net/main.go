// Monitors of the network clients: object store (C32) and beacon/execution client (C33).
package main

import "verifharness/vm"

func main() {
	vm.Main(map[string]vm.Spec{
		"C32": {Run: c32, Level: "fault_enumeration", Rule: "random histories of uploads, downloads, deletes, listings and existence checks against an in-process S3 model (single and multipart, ranged reads, paging) checked step by step against the model's own state; every fault kind at every request of an operation, once and persistently",
			Assumptions: []string{"the stub implements the part of the S3 REST protocol the AWS SDK uses", "the SDK sends its requests through http.DefaultTransport"}},
		"C33": {Run: c33, Level: "fault_enumeration", Rule: "every response class (status codes, body shapes, field types, number ranges, every truncation, read and transport errors) for both endpoints and every chain class, with body-close accounting; eth_getProof through an in-process RPC server",
			Assumptions: []string{"the client sends its requests through http.DefaultTransport"}},
	})
}
