package main

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C19"] = zC19
	vk.Describe("C19", "one case = all values of the randomness draw for one (choice, key) of a toy group, or one (choice, key, draw) on a larger group; the ciphertext is decrypted with the private key",
		"decryption is V - sk*U with the group under test (whose arithmetic C13 decides)")
}

func zC19(c *vk.Ctx) {
	bi := func(x int64) *big.Int { return big.NewInt(x) }
	// Complete toys: every choice residue, key and draw byte.
	for _, t := range []struct {
		p         string
		keys, chs int64
		g         group.Group
	}{{checks.Safe6, 29, 64, checks.SafeGroup(checks.Safe6)}, {checks.Safe8, 113, 120, checks.SafeGroup(checks.Safe8)},
		{checks.Safe12, zt(c.Thorough(), 40, 7), zt(c.Thorough(), 12, 6), checks.SafeGroup(checks.Safe12)},
		{"7,2", 3, 12, checks.SafeGroupGen(7, 2)}, {"11,4", 5, 12, checks.SafeGroupGen(11, 4)}, {"23,13", 11, 15, checks.SafeGroupGen(23, 13)},
		{"59,4", 29, 12, checks.SafeGroupGen(59, 4)}, {"83,4", 41, 8, checks.SafeGroupGen(83, 4)}} {
		g := t.g
		q := g.N().Int64()
		nb := int64(1) << uint(8*((g.N().BitLen()+7)/8))
		for sk := int64(1); sk < t.keys && sk < q; sk++ {
			for ch := int64(0); ch < t.chs; ch++ {
				if t.p == checks.Safe8 && (sk+ch)%5 != 0 && !c.Thorough() {
					continue
				}
				sk, ch := sk, ch
				if ch >= t.chs-4 {
					ch = 65535 - (t.chs - 1 - ch)
				}
				c.Case(fmt.Sprintf("toy/%s/sk=%d/choice=%d", t.p, sk, ch), func() (string, error) {
					pk := g.Element().BaseScale(bi(sk))
					m := g.Element().BaseScale(bi(ch))
					hits := map[int64]int{}
					cts := map[string]int64{}
					for v := int64(0); v < nb; v++ {
						s := vk.With(1, map[int]vk.Deviation{0: {Kind: "value", Val: bi(v)}})
						ct, r := encryptVote(uint16(ch), pk, g)
						c.Trans(1)
						if !g.Element().Subtract(ct.V, g.Element().Scale(ct.U, bi(sk))).IsEqual(m) {
							return "", vk.Errf("draw %d: decryption does not give %d", v, ch)
						}
						if !ct.U.IsEqual(g.Element().BaseScale(r)) {
							return "", vk.Errf("draw %d: returned randomness %v is not the one used", v, r)
						}
						if r.Sign() <= 0 || r.Cmp(g.N()) >= 0 {
							return "", vk.Errf("randomness %v outside 1..%d", r, q-1)
						}
						k := ct.U.String() + "/" + ct.V.String()
						if o, ok := cts[k]; ok && o != r.Int64() {
							return "", vk.Errf("randomness %d and %v give the same ciphertext", o, r)
						}
						cts[k] = r.Int64()
						if s.N == 1 {
							hits[r.Int64()]++
						}
					}
					c.State(fmt.Sprintf("toy|%s|%d|%d", t.p, sk, ch))
					n := hits[1]
					for r := int64(1); r < q; r++ {
						if hits[r] == 0 || hits[r] != n {
							return "", vk.Errf("randomness %d hit %d times, 1 hit %d times", r, hits[r], n)
						}
						c.State(fmt.Sprintf("toyr|%s|%d", t.p, r))
					}
					if int64(len(cts)) != q-1 {
						return "", vk.Errf("%d different ciphertexts for %d randomness values", len(cts), q-1)
					}
					return "correct and uniform", nil
				})
			}
		}
	}
	// Ideal group: all choices, key independent of the generator.
	e := zIdeal(0, 65535)
	h := checks.El(e.pp.EGPK).BasisIndex()
	for c0 := int64(0); c0 < 65536; c0 += 256 {
		c0 := c0
		c.Case(fmt.Sprintf("ideal/choice=%d+256", c0), func() (string, error) {
			for ch := c0; ch < c0+256; ch++ {
				vk.Fresh(uint64(ch))
				ct, r := encryptVote(uint16(ch), e.pp.EGPK, e.ff)
				c.Trans(1)
				c.State(fmt.Sprintf("ideal|%d", ch))
				u, v := checks.El(ct.U), checks.El(ct.V)
				if !u.Eq(zFF.Lin(zFF.Generator(), r)) || v.Coef(0).Cmp(bi(ch)) != 0 || v.Coef(h).Cmp(r) != 0 ||
					!v.Eq(zFF.Lin(zFF.Generator(), bi(ch), e.pp.EGPK, r)) {
					return "", vk.Errf("choice %d: ciphertext %s / %s does not hold it", ch, u.Text(), v.Text())
				}
			}
			return "correct", nil
		})
	}
	// Every bit of the draw reaches the randomness.
	for _, name := range []string{"safe320", "MODP3072"} {
		g := checks.SafeGroup(checks.Safe320)
		if name != "safe320" {
			g = checks.MODP3072()
		}
		pk := g.Element().BaseScale(zKey)
		bits := g.N().BitLen()
		for part := 0; part < 8; part++ {
			name, part := name, part
			c.Case(fmt.Sprintf("bits/%s/%d", name, part), func() (string, error) {
				seen := map[string]int{}
				for j := 0; j < bits-1; j++ {
					// every part has the ends of the range, and its share of the rest
					if j >= 8 && j < bits-4 && (j%8 != part || bits > 600 && j/8%4 != 0 && !c.Thorough()) {
						continue
					}
					vk.With(4, map[int]vk.Deviation{0: {Kind: "value", Val: new(big.Int).Lsh(bi(1), uint(j))}})
					ct, r := encryptVote(101, pk, g)
					c.Trans(1)
					c.State(fmt.Sprintf("bits|%s|%d", name, j))
					if o, ok := seen[ct.U.String()]; ok {
						return "", vk.Errf("bits %d and %d of the draw give the same ciphertext", o, j)
					}
					seen[ct.U.String()] = j
					if j == bits-2 && r.BitLen() < bits-2 {
						return "", vk.Errf("randomness has %d bits of %d", r.BitLen(), bits)
					}
				}
				return "every bit counts", nil
			})
		}
	}
	// Larger real groups: edges of choice, key and draw.
	for _, name := range []string{"safe320", "MODP3072"} {
		g := checks.SafeGroup(checks.Safe320)
		if name != "safe320" {
			g = checks.MODP3072()
		}
		n := g.N()
		for _, sk := range []*big.Int{bi(1), bi(2), bi(13), new(big.Int).Sub(n, bi(1)), new(big.Int).Rsh(n, 1)} {
			for _, ch := range []int64{0, 1, 2, 101, 2000, 32768, 65535} {
				for di, d := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(n, bi(2)), new(big.Int).Sub(n, bi(1)), n, new(big.Int).Rsh(n, 1), nil} {
					sk, ch, d := sk, ch, d
					c.Case(fmt.Sprintf("real/%s/sk=%d/choice=%d/d%d", name, sk.BitLen(), ch, di), func() (string, error) {
						dev := map[int]vk.Deviation{}
						if d != nil {
							dev[0] = vk.Deviation{Kind: "value", Val: d}
						}
						vk.With(4, dev)
						pk := g.Element().BaseScale(sk)
						ct, r := encryptVote(uint16(ch), pk, g)
						c.Trans(1)
						c.Validated(1)
						if r.Sign() <= 0 || r.Cmp(n) >= 0 {
							return "", vk.Errf("randomness outside 1..order-1")
						}
						if !ct.U.IsEqual(g.Element().BaseScale(r)) {
							return "", vk.Errf("returned randomness is not the one used")
						}
						if !g.Element().Subtract(ct.V, g.Element().Scale(ct.U, sk)).IsEqual(g.Element().BaseScale(bi(ch))) {
							return "", vk.Errf("decryption does not give the choice")
						}
						return "correct", nil
					})
				}
			}
		}
	}
}
