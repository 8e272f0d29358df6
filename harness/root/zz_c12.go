package main

import (
	"fmt"

	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C12"] = func(c *vk.Ctx) {
		checks.C12(c)
		zC12(c)
	}
}

// zBallotBlinds reads all blinding values of an ideal-group ballot.
func zBallotBlinds(prefix string, b BallotData, out checks.Blinds) {
	out[prefix+"r"] = checks.El(b.Ballot.U).Coef(0)
	checks.RangeBlinds(prefix+"lo.", checks.FromSingle(b.BpLower), out)
	checks.RangeBlinds(prefix+"hi.", checks.FromSingle(b.BpUpper), out)
	checks.SigmaBlinds(prefix+"eq.", b.VoteProof, out)
}

func zC12(c *vk.Ctx) {
	bits := func(name string) int {
		switch name[len(name)-1] {
		case 'k':
			return 255
		case 'p', 'r':
			return checks.NFF.BitLen() - 1
		}
		return 256
	}
	for _, r := range [][2]uint16{{101, 2000}, {0, 65535}, {7, 7}} {
		e := zIdeal(r[0], r[1])
		tag := fmt.Sprintf("ballot/%d-%d", r[0], r[1])
		checks.CheckBlinder(c, checks.Blinder{Name: tag, Bits: bits, SkipRange: !c.Thorough(), Run: func() (checks.Blinds, error) {
			o := checks.Blinds{}
			b := zDoCast(e.pp)
			zBallotBlinds("", b, o)
			return o, nil
		}})
		checks.CheckBlinder(c, checks.Blinder{Name: tag + "/two", Bits: bits, SkipRange: true, Run: func() (checks.Blinds, error) {
			o := checks.Blinds{}
			for i := 0; i < 2; i++ {
				b := zDoCast(e.pp)
				zBallotBlinds(fmt.Sprint(i, "."), b, o)
			}
			return o, nil
		}})
	}
	// Orders of the size of the largest curve and of the ElGamal group.
	w := zElection(vk.NewIdeal("wideff", checks.WideFF), vk.NewIdeal("wide", checks.Wide), 101, 2000)
	_, hi := checks.Window(w.pp.RPParams)
	checks.CheckBlinder(c, checks.Blinder{Name: "ballot/wide", SkipRange: true, Bits: func(name string) int {
		switch name[len(name)-1] {
		case 'k':
			return hi.BitLen() - 1
		case 'p', 'r':
			return checks.WideFF.BitLen() - 1
		}
		return checks.Wide.BitLen() - 1
	}, Run: func() (checks.Blinds, error) {
		o := checks.Blinds{}
		zBallotBlinds("", zDoCast(w.pp), o)
		return o, nil
	}})
	for _, g := range checks.Curves() {
		e := zReal(g, 101, 2000, false)
		s := vk.Fresh(9001)
		zDoCast(e.pp)
		checks.CheckEntropy(c, "real/ballot/"+g.Name(), s.N, func() error {
			c.Validated(1)
			zDoCast(e.pp)
			return nil
		})
	}
}
