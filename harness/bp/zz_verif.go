package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// Exports of the inner-product entry points that the package's own tests use.

func ZSetupIP(g, h []group.Element, n int64, gp group.Group) (InnerProductParams, error) {
	return setupInnerProduct(g, h, n, gp)
}

func ZProveIP(a, b []*big.Int, p group.Element, c *big.Int, params InnerProductParams) (InnerProductProof, error) {
	return proveInnerProduct(a, b, p, c, params)
}

func ZCommitIP(g, h []group.Element, a, b []*big.Int, gp group.Group) group.Element {
	return commitInnerProduct(g, h, a, b, gp)
}

func ZPowerOf(x *big.Int, n int64, gp group.Group) []*big.Int { return powerOf(x, n, gp) }
