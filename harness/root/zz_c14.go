package main

import (
	"encoding/json"
	"fmt"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C14"] = func(c *vk.Ctx) {
		checks.C14(c)
		zC14(c)
	}
}

// zSameBallot compares two ballots component by component (scalars as integers).
func zSameBallot(a, b BallotData) error {
	sa, sb := zSlots(a), zSlots(b)
	if len(sa) != len(sb) {
		return vk.Errf("number of components changed")
	}
	for _, s := range sa {
		ea, xa := s.get(&a)
		eb, xb := s.get(&b)
		if ea != nil && !ea.IsEqual(eb) || xa != nil && xa.Cmp(xb) != 0 {
			return vk.Errf("component %s changed", s.name)
		}
	}
	return checks.SameSigma(a.VoteProof, b.VoteProof)
}

func zC14(c *vk.Ctx) {
	envs := map[string]func() zEnv{"ideal": func() zEnv { return zIdeal(101, 2000) }}
	for _, g := range checks.Curves() {
		g := g
		envs[g.Name()] = func() zEnv { return zReal(g, 101, 2000, false) }
		envs[g.Name()+"/3072"] = func() zEnv { return zReal(g, 101, 2000, true) }
	}
	for _, name := range zSorted(envs) {
		name := name
		for _, ch := range []uint16{101, 102, 1999, 2000} {
			ch := ch
			c.Case(fmt.Sprintf("ballot/%s/%d", name, ch), func() (string, error) {
				e := envs[name]()
				b, _ := zCast(e, ch, uint64(ch)+checks.Seed(name), nil)
				d, err := zThroughJSON(b, e)
				if err != nil {
					return "", err
				}
				c.Trans(1)
				if name != "ideal" {
					c.Validated(1)
				}
				if err := zSameBallot(b, d); err != nil {
					return "", err
				}
				d2, err := zThroughJSON(d, e)
				if err != nil {
					return "", err
				}
				if err := zSameBallot(b, d2); err != nil {
					return "", vk.Errf("second generation: %v", err)
				}
				return "ballot restored", nil
			})
		}
	}
	// Ciphertexts: every pair of elements of a small group; corpora elsewhere.
	for _, p := range []string{checks.Safe6, checks.Safe8} {
		g := checks.SafeGroup(p)
		n := g.N().Int64()
		for a := int64(0); a < n; a++ {
			a := a
			c.Case(fmt.Sprintf("ciphertext/%s/%d", g.Name(), a), func() (string, error) {
				for b := int64(0); b < n; b++ {
					if err := zCiphertext(c, g, g.Element().BaseScale(checks.B(a)), g.Element().BaseScale(checks.B(b))); err != nil {
						return "", vk.Errf("(%d,%d): %v", a, b, err)
					}
				}
				return "ciphertext restored", nil
			})
		}
	}
	for _, g := range append(checks.Curves(), checks.MODP3072()) {
		g := g
		c.Case("ciphertext/"+g.Name(), func() (string, error) {
			for _, a := range []int64{0, 1, -1, 2, 43, 122, 176, 379} {
				for _, b := range []int64{0, 1, -1, 5, 2376, 444} {
					if err := zCiphertext(c, g, g.Element().BaseScale(checks.B(a)), g.Element().BaseScale(checks.B(b))); err != nil {
						return "", vk.Errf("(%d,%d): %v", a, b, err)
					}
				}
			}
			return "ciphertext restored", nil
		})
	}
}

func zCiphertext(c *vk.Ctx, g group.Group, u, v group.Element) error {
	j, err := json.Marshal(ElGamalCiphertext{U: u, V: v})
	if err != nil {
		return err
	}
	d, err := BallotUnmarshalJSON(j, g)
	if err != nil {
		return vk.Errf("own encoding refused: %v", err)
	}
	c.Trans(1)
	if !d.U.IsEqual(u) || !d.V.IsEqual(v) {
		return vk.Errf("ciphertext changed")
	}
	return nil
}
