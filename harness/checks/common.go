// Package checks holds the checks that need only the importable packages.
package checks

import (
	"fmt"
	"hash/fnv"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// All maps property ids to checks.
var All = map[string]func(*vk.Ctx){}

// Orders and moduli used by the ideal and small groups.
var (
	Q256, _ = new(big.Int).SetString("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16)
	Q61     = new(big.Int).SetUint64(2305843009213693951)
	Q16     = big.NewInt(65521)
)

// Small safe-prime groups: name, modulus, generator of the order-(p-1)/2 subgroup.
const (
	Safe6   = "3b"
	Safe8   = "e3"
	Safe12  = "c2f"
	Safe20  = "c0173"
	Safe24  = "c0005f"
	Safe64  = "c000000000000683"
	Safe320 = "c000000000000000000000000000000000000000000000000000000000000000000000000001530b"
)

var safeGen = map[string]string{Safe6: "3", Safe8: "3", Safe12: "2", Safe20: "3", Safe24: "2", Safe64: "3", Safe320: "3"}

// SafeGroup is the repository's safe-prime group code on a small modulus.
func SafeGroup(p string) group.Group { return group.NewModPGroup("safe-"+p, p, safeGen[p]) }

// SafePrimes are the smallest safe primes.
var SafePrimes = []int64{7, 11, 23, 47, 59, 83, 107, 167, 179, 227, 263}

// SafeGroupGen is the safe-prime group code for a modulus and one of the generators of
// its subgroup of squares.
func SafeGroupGen(p, g int64) group.Group {
	return group.NewModPGroup(fmt.Sprintf("safe-%d-%d", p, g), fmt.Sprintf("%x", p), fmt.Sprintf("%x", g))
}

// MODP3072 is the ElGamal group of the system.
func MODP3072() group.Group {
	return group.NewModPGroup("RFC3526ModPGroup3072",
		`FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`, "2")
}

// Curves are the real Bulletproofs groups.
func Curves() []group.Group {
	return []group.Group{group.P256(), group.P384(), group.Ristretto255(), group.SecP256k1()}
}

func B(x int64) *big.Int { return big.NewInt(x) }

func Pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// Seed derives a stream seed from a case key.
func Seed(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Ranges are the supported range sizes.
var Ranges = []int{1, 2, 4, 8, 16, 32}

// memo caches parameters per (group, n) inside one worker.
var memo = map[string]bulletproofs.BulletProofSetupParams{}

// Params returns range-proof parameters for n bits over g.
func Params(g group.Group, n int) bulletproofs.BulletProofSetupParams {
	k := fmt.Sprintf("%p/%s/%d", g, g.Name(), n)
	if p, ok := memo[k]; ok {
		return p
	}
	p, err := bulletproofs.Setup(int64(1)<<uint(n), g)
	if err != nil {
		panic(err)
	}
	memo[k] = p
	return p
}

func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

// Commit is an independent Pedersen commitment.
func Commit(g group.Group, h group.Element, v, r *big.Int) group.Element {
	return g.Element().Add(g.Element().BaseScale(v), g.Element().Scale(h, r))
}

// El unwraps an ideal element.
func El(e group.Element) *vk.IElem { return e.(*vk.IElem) }
