package main

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C01"] = zC01
	vk.Describe("C01", "one case = a set of ballots cast under one configuration with the choice (and at most two other draws) forced, each verified directly and after JSON encoding and decoding; the encrypted number is read from the ciphertext",
		"configurations with lo <= hi")
}

// zThroughJSON encodes and decodes a ballot under e.
func zThroughJSON(b BallotData, e zEnv) (BallotData, error) {
	j, err := json.Marshal(b)
	if err != nil {
		return b, vk.Errf("ballot does not encode: %v", err)
	}
	d, err := BallotDataUnmarshalJSON(j, e.pp)
	if err != nil {
		return b, vk.Errf("honest ballot does not decode: %v", err)
	}
	return d, nil
}

// zPlain reads the encrypted number of an ideal-group ballot.
func zPlain(b BallotData, e zEnv) *big.Int {
	return checks.El(zDecrypt(b.Ballot, e)).Coef(0)
}

// zAccepted checks one honest ballot on both paths.
func zAccepted(c *vk.Ctx, b BallotData, e zEnv, viaJSON bool) error {
	c.Trans(1)
	if !zVerify(b, e) {
		return vk.Errf("honest ballot rejected")
	}
	if !viaJSON {
		return nil
	}
	d, err := zThroughJSON(b, e)
	if err != nil {
		return err
	}
	c.Trans(1)
	if !zVerify(d, e) {
		return vk.Errf("honest ballot rejected after JSON encoding and decoding")
	}
	if !d.Ballot.U.IsEqual(b.Ballot.U) || !d.Ballot.V.IsEqual(b.Ballot.V) {
		return vk.Errf("ciphertext changed by JSON encoding and decoding")
	}
	return nil
}

func zC01(c *vk.Ctx) {
	type cfg struct{ lo, hi uint16 }
	cfgs := []cfg{{101, 2000}, {0, 65535}, {0, 0}, {65535, 65535}, {7, 7}, {0, 1}, {65534, 65535}, {1, 65535},
		{0, 65534}, {255, 256}, {32767, 32769}, {100, 355}, {0, 255}, {0, 256}, {65280, 65535}, {5, 20000}}
	for _, cf := range cfgs {
		e := zIdeal(cf.lo, cf.hi)
		span := int(cf.hi) - int(cf.lo) + 1
		// Forced values of the choice draw.
		var vals []int
		stride := 1
		if !c.Thorough() && span > 2000 {
			stride = span/600 + 1
		}
		for v := 0; v < span; v += stride {
			vals = append(vals, v)
		}
		if stride > 1 {
			for v := 0; v < 8; v++ {
				vals = append(vals, span-1-v, span/2+v, v)
			}
		}
		const chunk = 20
		for i := 0; i < len(vals); i += chunk {
			i := i
			key := fmt.Sprintf("cast/%d-%d/%d+%d", cf.lo, cf.hi, vals[i], chunk)
			c.Case(key, func() (string, error) {
				for j := i; j < i+chunk && j < len(vals); j++ {
					want := uint16(int(cf.lo) + vals[j])
					b, _ := zCast(e, want, checks.Seed(key)+uint64(j), nil)
					m := zPlain(b, e)
					if m.Cmp(big.NewInt(int64(cf.lo))) < 0 || m.Cmp(big.NewInt(int64(cf.hi))) > 0 {
						return "", vk.Errf("voter cast a ballot for %v outside %d..%d", m, cf.lo, cf.hi)
					}
					c.State(fmt.Sprintf("%d|%d|%v", cf.lo, cf.hi, m))
					if err := zAccepted(c, b, e, j%4 == 0 || span < 300); err != nil {
						return "", vk.Errf("candidate %v of %d..%d: %v", m, cf.lo, cf.hi, err)
					}
				}
				return "accepted", nil
			})
		}
		// Casting reaches every candidate: small ranges, complete values of the choice draw.
		if span <= 256 {
			c.Case(fmt.Sprintf("reach/%d-%d", cf.lo, cf.hi), func() (string, error) {
				got := map[string]bool{}
				for d := 0; d < 2 && len(got) < span; d++ {
					for v := 0; v < 256 && v < 4*span; v++ {
						s := vk.With(3, map[int]vk.Deviation{d: {Kind: "value", Val: big.NewInt(int64(v))}})
						s.Limit = 100000
						b := zDoCast(e.pp)
						c.Trans(1)
						got[zPlain(b, e).String()] = true
					}
				}
				for x := int(cf.lo); x <= int(cf.hi); x++ {
					if !got[fmt.Sprint(x)] {
						return "", vk.Errf("candidate %d of %d..%d is never cast", x, cf.lo, cf.hi)
					}
				}
				if len(got) != span {
					return "", vk.Errf("%d different numbers cast for %d candidates", len(got), span)
				}
				return "every candidate reached", nil
			})
		}
	}
	// Larger ranges: first and last candidate reached, and every one for the real range.
	for _, cf := range []cfg{{101, 2000}, {0, 65535}, {1, 65535}, {5, 20000}, {0, 65534}} {
		cf := cf
		e := zIdeal(cf.lo, cf.hi)
		c.Case(fmt.Sprintf("reach-ends/%d-%d", cf.lo, cf.hi), func() (string, error) {
			got := map[string]bool{}
			for _, x := range []uint16{cf.lo, cf.lo + 1, cf.hi - 1, cf.hi} {
				b, _ := zCast(e, x, 5, nil)
				got[zPlain(b, e).String()] = true
				c.Trans(1)
			}
			if len(got) == 4 && got[fmt.Sprint(cf.lo)] && got[fmt.Sprint(cf.hi)] {
				return "ends reached", nil
			}
			if !zSteer[[2]uint16{cf.lo, cf.hi}] {
				return "choice not decided by one draw (small ranges decide)", nil
			}
			return "", vk.Errf("first or last candidate of %d..%d not reached (got %v)", cf.lo, cf.hi, got)
		})
	}
	// Extreme draws, one at a time (thorough: two at a time).
	for _, cf := range []cfg{{101, 2000}, {0, 65535}, {7, 7}} {
		cf := cf
		e := zIdeal(cf.lo, cf.hi)
		_, s := zCast(e, cf.lo, 1, nil)
		ext := map[string]*big.Int{"0": big.NewInt(0), "1": big.NewInt(1), "q-1": new(big.Int).Sub(checks.Q256, big.NewInt(1)), "n-2": new(big.Int).Sub(checks.NFF, big.NewInt(2))}
		for d := 0; d < s.N; d++ {
			if d == zChoiceAt(e) && cf.lo != cf.hi {
				continue
			}
			for _, x := range zSorted(ext) {
				d, x := d, x
				c.Case(fmt.Sprintf("extreme/%d-%d/draw=%d/%s", cf.lo, cf.hi, d, x), func() (string, error) {
					for _, ch := range []uint16{cf.lo, cf.hi} {
						b, _ := zCast(e, ch, 1, map[int]vk.Deviation{d: {Kind: "value", Val: ext[x]}})
						if err := zAccepted(c, b, e, true); err != nil {
							return "", vk.Errf("draw %d forced to %s: %v", d, x, err)
						}
					}
					return "accepted", nil
				})
				if !c.Thorough() || cf.lo != 101 {
					continue
				}
				for d2 := d + 1; d2 < s.N; d2++ {
					d2 := d2
					c.Case(fmt.Sprintf("extreme2/%d-%d/draw=%d,%d/%s", cf.lo, cf.hi, d, d2, x), func() (string, error) {
						b, _ := zCast(e, cf.hi, 1, map[int]vk.Deviation{d: {Kind: "value", Val: ext[x]}, d2: {Kind: "value", Val: ext[x]}})
						return "accepted", zAccepted(c, b, e, false)
					})
				}
			}
		}
	}
	// Coinciding draws: two draws equal, or adding up to the order; all draws equal.
	{
		e := zIdeal(5, 7)
		_, s := zCast(e, 6, 1, nil)
		at := zChoiceAt(e)
		val := big.NewInt(12345)
		for d := 0; d < s.N; d++ {
			for d2 := d + 1; d2 < s.N; d2 += 8 {
				d, d2 := d, d2
				if d == at {
					continue
				}
				for _, rel := range []string{"equal", "opposite"} {
					rel, other := rel, val
					if rel == "opposite" {
						other = new(big.Int).Sub(checks.Q256, val)
					}
					c.Case(fmt.Sprintf("coincide/%s/draw=%d,%d+8", rel, d, d2), func() (string, error) {
						for x := d2; x < d2+8 && x < s.N; x++ {
							if x == at {
								continue
							}
							b, _ := zCast(e, 6, 1, map[int]vk.Deviation{d: {Kind: "value", Val: val}, x: {Kind: "value", Val: other}})
							c.State(fmt.Sprintf("coincide|%s|%d|%d", rel, d, x))
							if err := zAccepted(c, b, e, false); err != nil {
								return "", vk.Errf("draws %d and %d %s: %v", d, x, rel, err)
							}
						}
						return "accepted", nil
					})
				}
			}
		}
		lo, hi := checks.Window(e.pp.RPParams)
		for _, v := range []*big.Int{lo, new(big.Int).Add(lo, big.NewInt(17)), new(big.Int).Rsh(hi, 1)} {
			for _, ch := range []uint16{5, 6, 7} {
				v, ch := v, ch
				c.Case(fmt.Sprintf("coincide/all/%x/%d", v, ch), func() (string, error) {
					dev := map[int]vk.Deviation{}
					for d := 0; d < s.N; d++ {
						if d != at {
							dev[d] = vk.Deviation{Kind: "value", Val: v}
						}
					}
					b, _ := zCast(e, ch, 1, dev)
					return "accepted", zAccepted(c, b, e, true)
				})
			}
		}
	}
	// Unusual ciphertexts: the randomness for which the halves are equal, opposite, the identity,
	// a generator or the key.
	{
		e := zElection(checks.SafeGroup(checks.Safe320), zEC, 5, 7)
		n := e.ff.N()
		m := func(x int64) *big.Int { return new(big.Int).Mod(big.NewInt(x), n) }
		quo := func(x, y int64) *big.Int {
			return new(big.Int).Mod(new(big.Int).Mul(m(x), new(big.Int).ModInverse(m(y), n)), n)
		}
		k := zKey.Int64()
		at, off := -1, int64(0)
		for d := 0; d < 4 && at < 0; d++ {
			for o := int64(0); o <= 1 && at < 0; o++ {
				ok := d != zChoiceAt(e)
				for _, v := range []int64{7, 1000} {
					b, _ := zCast(e, 6, 1, map[int]vk.Deviation{d: {Kind: "value", Val: m(v)}})
					ok = ok && b.Ballot.U.IsEqual(e.ff.Element().BaseScale(m(v+o)))
				}
				if ok {
					at, off = d, o
				}
			}
		}
		c.Case("cipher/draw", func() (string, error) {
			if at < 0 {
				return "encryption randomness is not a single draw", nil
			}
			return "encryption draw identified", nil
		})
		for x := int64(5); x <= 7 && at >= 0; x++ {
			rs := map[string]*big.Int{"V=1": quo(-x, k), "U=V": quo(-x, k-1), "U=-V": quo(-x, k+1), "V=G": quo(1-x, k),
				"V=-G": quo(-1-x, k), "V=H": quo(k-x, k), "V=-H": quo(-k-x, k), "U=G": m(1), "U=-G": m(-1), "U=H": m(k), "U=-H": m(-k),
				"U=M": m(x), "U=-M": m(-x), "V=2M": quo(x, k), "mask=-2M": quo(-2*x, k), "mask=U^2": quo(2, k)}
			for _, name := range zSorted(rs) {
				x, name := x, name
				c.Case(fmt.Sprintf("cipher/%d/%s", x, name), func() (string, error) {
					r := rs[name]
					if r.Sign() == 0 {
						return "no such randomness", nil
					}
					b, _ := zCast(e, uint16(x), 1, map[int]vk.Deviation{at: {Kind: "value", Val: new(big.Int).Sub(r, big.NewInt(off))}})
					c.State("cipher|" + name + fmt.Sprint(x))
					if !b.Ballot.U.IsEqual(e.ff.Element().BaseScale(r)) {
						return "randomness not reached", nil
					}
					return "accepted", zAccepted(c, b, e, true)
				})
			}
		}
	}
	// Real groups.
	for _, g := range checks.Curves() {
		g := g
		for _, cf := range cfgs[:8] {
			cf := cf
			var e zEnv
			have := false
			for _, ch := range []uint16{cf.lo, cf.lo + (cf.hi-cf.lo)/2, cf.hi} {
				ch := ch
				c.Case(fmt.Sprintf("real/%s/%d-%d/%d", g.Name(), cf.lo, cf.hi, ch), func() (string, error) {
					if !have {
						e, have = zReal(g, cf.lo, cf.hi, false), true
					}
					b, _ := zCast(e, ch, uint64(ch), nil)
					c.Validated(1)
					if !zIsChoice(b.Ballot, e, ch) {
						ok := false
						for x := int(cf.lo); x <= int(cf.hi) && !ok; x++ {
							ok = zIsChoice(b.Ballot, e, uint16(x))
						}
						if !ok {
							return "", vk.Errf("voter cast a ballot outside the range")
						}
					}
					return "accepted (real groups)", zAccepted(c, b, e, true)
				})
			}
		}
		c.Case("setup/"+g.Name(), func() (string, error) {
			pp, err := setup(g)
			if err != nil {
				return "", err
			}
			e := zEnv{pp: pp, ff: pp.FFGroupParams.I, ec: g}
			for _, ch := range []uint16{pp.candidateMin, pp.candidateMin + 500, pp.candidateMax} {
				b, _ := zCast(e, ch, uint64(ch), nil)
				c.Validated(1)
				if err := zAccepted(c, b, e, true); err != nil {
					return "", vk.Errf("candidate %d: %v", ch, err)
				}
			}
			return "accepted (parameters of setup)", nil
		})
	}
}

func zSorted[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
