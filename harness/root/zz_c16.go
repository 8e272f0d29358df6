package main

import (
	"math/big"

	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C16"] = func(c *vk.Ctx) {
		checks.C16(c)
		zC16(c)
	}
}

// zC16 checks the election set-up.
func zC16(c *vk.Ctx) {
	for _, g := range checks.Curves() {
		g := g
		c.Case("election/"+g.Name(), func() (string, error) {
			pp, err := setup(g)
			if err != nil {
				return "", vk.Errf("set-up refused: %v", err)
			}
			c.Validated(1)
			p2, err := setup(g)
			if err != nil {
				return "", err
			}
			ff, ec := pp.FFGroupParams, pp.ECGroupParams
			P, N := ff.I.P(), ff.I.N()
			if !P.ProbablyPrime(10) || !N.ProbablyPrime(10) || new(big.Int).Add(new(big.Int).Lsh(N, 1), big.NewInt(1)).Cmp(P) != 0 {
				return "", vk.Errf("ElGamal group is not given by a safe prime")
			}
			if !ff.I.Element().Scale(ff.G, N).IsIdentity() || ff.G.IsIdentity() || !ff.G.IsEqual(ff.I.Generator()) {
				return "", vk.Errf("ElGamal generator does not generate the group")
			}
			if !ff.I.Element().Scale(pp.EGPK, N).IsIdentity() || pp.EGPK.IsIdentity() || !pp.EGPK.IsEqual(ff.H) {
				return "", vk.Errf("election key is not a group element, or not the one of the proof system")
			}
			if ff.N.Cmp(N) != 0 || ec.N.Cmp(g.N()) != 0 || !ec.G.IsEqual(g.Generator()) || !ec.H.IsEqual(pp.BPParams.H) || !pp.BPParams.G.IsEqual(g.Generator()) {
				return "", vk.Errf("the proof systems do not share their commitment bases")
			}
			r := pp.RPParams
			if r.RangeLo != pp.candidateMin || r.RangeHi != pp.candidateMax || pp.candidateMin > pp.candidateMax {
				return "", vk.Errf("bounds %d..%d, candidates %d..%d", r.RangeLo, r.RangeHi, pp.candidateMin, pp.candidateMax)
			}
			if big.NewInt(int64(pp.candidateMax)).BitLen() > int(r.Bx) || int64(pp.candidateMax-pp.candidateMin)>>uint(pp.BPParams.N) != 0 {
				return "", vk.Errf("candidates do not fit the lengths")
			}
			top := int(r.Bx) + int(r.Bc) + r.Bb
			if r.Bb < 1 || top >= g.N().BitLen() || top >= N.BitLen() {
				return "", vk.Errf("responses of %d bits do not fit the group orders", top)
			}
			if !r.GFF.H.IsEqual(ff.H) || !r.GFF.G.IsEqual(ff.G) || !r.GEC.H.IsEqual(ec.H) || !r.GEC.G.IsEqual(ec.G) || r.GFF.I != ff.I || r.GEC.I != g {
				return "", vk.Errf("equality-proof parameters use other bases")
			}
			for _, x := range []bool{pp.EGPK.IsEqual(p2.EGPK), ec.H.IsEqual(p2.ECGroupParams.H), P.Cmp(p2.FFGroupParams.I.P()) == 0, pp.candidateMin == p2.candidateMin,
				pp.candidateMax == p2.candidateMax, r.Bx == p2.RPParams.Bx, r.Bc == p2.RPParams.Bc, r.Bb == p2.RPParams.Bb, pp.BPParams.N == p2.BPParams.N} {
				if !x {
					return "", vk.Errf("second set-up differs")
				}
			}
			for i := range pp.BPParams.Gg {
				if !pp.BPParams.Gg[i].IsEqual(p2.BPParams.Gg[i]) || !pp.BPParams.Hh[i].IsEqual(p2.BPParams.Hh[i]) {
					return "", vk.Errf("second set-up has other generators")
				}
			}
			return "consistent", nil
		})
	}
}
