// Monitors that quantify over the whole gadget catalogue: C16 (adversarial hints), C34 (concurrency), C35 (compilation)
// and C39 (end-to-end proofs).
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"

	"verifharness/cat"
	"verifharness/vm"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/logger"
)

// splitHint is passed the way the library's users do: it is not registered globally.
func withHints() solver.Option { return solver.WithHints(limbs.SplitHint) }

func key(g *cat.Gadget) string { return g.Area + "." + g.Name }

func digest(c *vm.Compiled) string {
	h := sha256.New()
	if _, err := c.CS.WriteTo(h); err != nil {
		return "write: " + err.Error()
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func same(a, b []*big.Int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func main() {
	logger.Disable()
	if os.Getenv("VERIF_DIGESTS") != "" {
		digestChild()
		return
	}
	vm.Main(map[string]vm.Spec{"C16": c16, "C34": c34, "C35": c35, "C39": c39})
}
