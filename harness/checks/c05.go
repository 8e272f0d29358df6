package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C05"] = c05
	vk.Describe("C05", "one case = one (group, n, secret, draw deviation); non-trivial: a complete prove+verify run on the real code",
		"for n=32 secrets are the <=2-bit patterns and complements, not all 2^32")
}

// proveAndCheck proves v and checks verdict and opening.
func proveAndCheck(c *vk.Ctx, g group.Group, n int, v *big.Int, dev map[int]vk.Deviation, seed uint64) (*vk.Stream, error) {
	params := Params(g, n)
	s := vk.With(seed, dev)
	secret := new(big.Int).Set(v)
	proof, gamma, err := bulletproofs.Prove(secret, params)
	if err != nil {
		return s, vk.Errf("prove returned an error: %v", err)
	}
	if secret.Cmp(v) != 0 {
		return s, vk.Errf("prove changed its secret argument")
	}
	ok, err := proof.Verify()
	c.Trans(2)
	if err != nil {
		return s, vk.Errf("verify returned an error: %v", err)
	}
	if !ok {
		return s, vk.Errf("honest proof of %v in [0,2^%d) rejected", v, n)
	}
	if gamma == nil {
		return s, vk.Errf("no blinding value returned")
	}
	if !proof.V.IsEqual(Commit(g, params.H, v, gamma)) {
		return s, vk.Errf("commitment does not open to %v", v)
	}
	if ie, isIdeal := proof.V.(*vk.IElem); isIdeal {
		c.State(fmt.Sprintf("%d|%v|%s", n, v, ie.Text()))
	} else {
		c.Validated(1)
		c.State(fmt.Sprintf("%s|%d|%v|%x", g.Name(), n, v, seed))
	}
	return s, nil
}

// Patterns32 are the n-bit values with at most two bits set, runs of ones and periodic
// patterns, and their complements.
func Patterns(n int) []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	top := sub(Pow2(n), B(1))
	put := func(v *big.Int) {
		for _, x := range []*big.Int{v, sub(top, v)} {
			if x.Sign() >= 0 && x.Cmp(top) <= 0 && !seen[x.String()] {
				seen[x.String()] = true
				out = append(out, x)
			}
		}
	}
	put(B(0))
	for _, m := range []int64{0x5, 0x3, 0x1, 0x11, 0xF, 0x0F0F, 0xFF, 0x1234, 0x9E37} { // periodic
		for p := 1; p <= n; p *= 2 {
			v := B(0)
			for i := 0; i < n; i += p {
				v = new(big.Int).Or(v, new(big.Int).Lsh(B(m), uint(i)))
			}
			put(new(big.Int).And(v, top))
		}
	}
	for i := 0; i < n; i++ {
		put(Pow2(i))
		for j := i + 2; j <= n; j++ { // runs of ones
			put(sub(Pow2(j), Pow2(i)))
		}
		for j := i + 1; j < n; j++ {
			put(add(Pow2(i), Pow2(j)))
		}
	}
	return out
}

func c05(c *vk.Ctx) {
	ig := vk.NewIdeal("ideal256", Q256)
	for _, n := range []int{1, 2, 4, 8, 16} {
		for v := int64(0); v < int64(1)<<uint(n); v++ {
			key := fmt.Sprintf("all/n=%d/v=%d", n, v)
			v := v
			c.Case(key, func() (string, error) {
				_, err := proveAndCheck(c, ig, n, B(v), nil, Seed(key))
				return "accepted", err
			})
		}
	}
	for _, v := range Patterns(32) {
		key := fmt.Sprintf("pat/n=32/v=%v", v)
		v := v
		c.Case(key, func() (string, error) {
			_, err := proveAndCheck(c, ig, 32, v, nil, Seed(key))
			return "accepted", err
		})
	}
	// Draw deviations: one draw at a time (all of them), then pairs, forced to
	// 0, 1 or order-1.
	devVals := []*big.Int{B(0), B(1), sub(Q256, B(1))}
	one := []int{1, 2, 4, 8}
	two := []int{1, 2}
	if c.Thorough() {
		one = append(one, 16, 32)
		two = append(two, 4)
	}
	drawCount := func(n int, v int64) int {
		s := vk.Fresh(77)
		if _, _, err := bulletproofs.Prove(B(v), Params(ig, n)); err != nil {
			return 0
		}
		return s.N
	}
	for _, n := range one {
		for _, v := range []int64{0, int64(1)<<uint(n) - 1} {
			d := drawCount(n, v)
			for i := 0; i < d; i++ {
				for vi, dv := range devVals {
					key := fmt.Sprintf("dev1/n=%d/v=%d/draw=%d/to=%d", n, v, i, vi)
					n, v, i, dv := n, v, i, dv
					c.Case(key, func() (string, error) {
						_, err := proveAndCheck(c, ig, n, B(v), map[int]vk.Deviation{i: {Kind: "value", Val: dv}}, 77)
						return "accepted under deviation", err
					})
				}
			}
		}
	}
	for _, n := range two {
		v := int64(1)
		d := drawCount(n, v)
		for i := 0; i < d; i++ {
			for j := i + 1; j < d; j++ {
				for vi, dv := range devVals {
					for wi, dw := range devVals {
						key := fmt.Sprintf("dev2/n=%d/draws=%d,%d/to=%d,%d", n, i, j, vi, wi)
						n, i, j, dv, dw := n, i, j, dv, dw
						c.Case(key, func() (string, error) {
							_, err := proveAndCheck(c, ig, n, B(v), map[int]vk.Deviation{
								i: {Kind: "value", Val: dv}, j: {Kind: "value", Val: dw}}, 77)
							return "accepted under deviation", err
						})
					}
				}
			}
		}
	}
	// Every assignment of {drawn, 0, 1, order-1} to all draws of one-bit proofs; every set of draws
	// forced to one of these for two bits; all draws at once for longer ranges.
	forced := func(key string, n int, v int64, d int, pick func(m, i int) int, from, to int) {
		c.Case(key, func() (string, error) {
			for m := from; m < to; m++ {
				dev := map[int]vk.Deviation{}
				for i := 0; i < d; i++ {
					if k := pick(m, i); k > 0 {
						dev[i] = vk.Deviation{Kind: "value", Val: devVals[k-1]}
					}
				}
				if _, err := proveAndCheck(c, ig, n, B(v), dev, 77); err != nil {
					return "", vk.Errf("assignment %d: %v", m, err)
				}
			}
			return "accepted under deviation", nil
		})
	}
	for v := int64(0); v < 2; v++ {
		d := drawCount(1, v)
		if d > 8 {
			d = 8
		}
		for m := 0; m < 1<<uint(2*d); m += 128 {
			forced(fmt.Sprintf("draws/n=1/v=%d/%d", v, m), 1, v, d, func(m, i int) int { return m >> uint(2*i) & 3 }, m, m+128)
		}
	}
	for v := int64(0); v < 4; v++ {
		d := drawCount(2, v)
		if d > 10 {
			d = 10
		}
		for k := 1; k <= 3; k++ {
			k := k
			for m := 0; m < 1<<uint(d); m += 64 {
				forced(fmt.Sprintf("draws/n=2/v=%d/to=%d/%d", v, k, m), 2, v, d, func(m, i int) int { return m >> uint(i) & 1 * k }, m, m+64)
			}
		}
	}
	for _, n := range Ranges {
		for _, v := range []int64{0, 1, 1<<uint(n) - 1} {
			for k := 1; k <= 3; k++ {
				k := k
				forced(fmt.Sprintf("draws/n=%d/v=%d/all=%d", n, v, k), n, v, drawCount(n, v), func(m, i int) int { return k }, 0, 1)
			}
		}
	}
	// The same runs on the real groups.
	for _, g := range Curves() {
		g := g
		for _, n := range Ranges {
			var vs []*big.Int
			switch {
			case n <= 2 || (n <= 4 && (g.Name() != "P-384" || c.Thorough())) || (n == 8 && c.Thorough()):
				for v := int64(0); v < int64(1)<<uint(n); v++ {
					vs = append(vs, B(v))
				}
			default:
				top := sub(Pow2(n), B(1))
				vs = []*big.Int{B(0), B(1), B(2), Pow2(n - 1), sub(Pow2(n-1), B(1)), sub(top, B(1)), top}
				if n == 32 && !c.Thorough() {
					vs = []*big.Int{B(0), Pow2(31), top}
				}
			}
			for _, v := range vs {
				key := fmt.Sprintf("real/%s/n=%d/v=%v", g.Name(), n, v)
				n, v := n, v
				c.Case(key, func() (string, error) {
					_, err := proveAndCheck(c, g, n, v, nil, Seed(key))
					return "accepted (real group)", err
				})
			}
		}
		// Deviations on a real group: each draw to 0 and order-1 for n=2.
		for i := 0; i < 9; i++ {
			for vi, dv := range []*big.Int{B(0), sub(g.N(), B(1))} {
				key := fmt.Sprintf("real/%s/dev/draw=%d/to=%d", g.Name(), i, vi)
				i, dv := i, dv
				c.Case(key, func() (string, error) {
					_, err := proveAndCheck(c, g, 2, B(2), map[int]vk.Deviation{i: {Kind: "value", Val: dv}}, 5)
					return "accepted under deviation (real group)", err
				})
			}
		}
	}
}
