package main

import (
	"crypto/rand"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// zEnv is an election: public parameters over chosen groups.
type zEnv struct {
	pp     PublicParameters
	ff, ec group.Group
	ideal  bool // both groups ideal
}

// zKey is the election private key where the ElGamal group is not ideal.
var zKey = big.NewInt(13)

var zBP = map[string]bulletproofs.BulletProofSetupParams{}

// zElection builds public parameters the way setup() does, over the given groups.
func zElection(ff, ec group.Group, lo, hi uint16) zEnv {
	k := fmt.Sprintf("%p/%s", ec, ec.Name())
	bp, ok := zBP[k]
	if !ok {
		var err error
		bp, err = bulletproofs.Setup(65536, ec)
		if err != nil {
			panic(err)
		}
		zBP[k] = bp
	}
	pk := ff.Element().BaseScale(zKey)
	_, fi := ff.(*vk.IGroup)
	_, ei := ec.(*vk.IGroup)
	if fi {
		var err error
		pk, err = ff.Element().MapToGroup("election key")
		if err != nil {
			panic(err)
		}
	}
	var fp, ep voteproof.GroupParameters
	fp.I, fp.F, fp.N, fp.G, fp.H = ff, ff.P(), ff.N(), ff.Generator(), pk
	ep.I, ep.F, ep.N, ep.G, ep.H = ec, ff.P(), ec.N(), ec.Generator(), bp.H
	ap := voteproof.AlgebraicParameters{GFF: fp, GEC: ep}
	bits := ec.N().BitLen()
	if b := ff.N().BitLen() - 1; b < bits {
		bits = b
	}
	rp, err := voteproof.Setup(16, 224, uint16(bits), lo, hi, ap)
	if err != nil {
		panic(err)
	}
	var pp PublicParameters
	pp.FFGroupParams, pp.ECGroupParams, pp.EGPK = fp, ep, pk
	pp.candidateMin, pp.candidateMax = lo, hi
	pp.BPParams, pp.RPParams = bp, rp
	return zEnv{pp, ff, ec, fi && ei}
}

// zIdeal is an election over ideal groups.
func zIdeal(lo, hi uint16) zEnv { return zElection(zFF, zEC, lo, hi) }

var (
	zFF = vk.NewIdeal("idealff", checks.NFF)
	zEC = vk.NewIdeal("ideal256", checks.Q256)
)

// zReal is an election over real groups; the ElGamal group is a 320-bit safe-prime group
// unless big is set.
func zReal(ec group.Group, lo, hi uint16, big bool) zEnv {
	ff := checks.SafeGroup(checks.Safe320)
	if big {
		ff = checks.MODP3072()
	}
	return zElection(ff, ec, lo, hi)
}

// zChoiceAt finds the random draw that decides the choice of castVote (draw 0 when there
// is none that does so alone).
func zChoiceAt(e zEnv) int {
	lo, hi := e.pp.candidateMin, e.pp.candidateMax
	k := [2]uint16{lo, hi}
	if at, ok := zChDraw[k]; ok {
		return at
	}
	old := rand.Reader
	defer func() { rand.Reader = old }()
	x := e
	if !e.ideal {
		x = zIdeal(lo, hi)
	}
	zChDraw[k], zSteer[k] = 0, false
	for at := 0; at < 8; at++ {
		good := true
		for _, v := range []int64{0, 1, int64(hi-lo) / 2} {
			s := vk.With(77, map[int]vk.Deviation{at: {Kind: "value", Val: big.NewInt(v)}})
			s.Limit = 100000
			err := vk.Guard(func() error {
				b := zDoCast(x.pp)
				if m := checks.El(zDecrypt(b.Ballot, x)).Coef(0); m.Cmp(big.NewInt(int64(lo)+v)) != 0 {
					return vk.Errf("no")
				}
				return nil
			})
			good = good && err == nil
		}
		if good {
			zChDraw[k], zSteer[k] = at, true
			break
		}
	}
	return zChDraw[k]
}

// zSteer tells whether that draw alone decides the choice.
var zSteer = map[[2]uint16]bool{}

var zChDraw = map[[2]uint16]int{}

// zCast casts a ballot; the choice is steered through its draw.
func zCast(e zEnv, choice uint16, seed uint64, dev map[int]vk.Deviation) (BallotData, *vk.Stream) {
	d := map[int]vk.Deviation{}
	if e.pp.candidateMax > e.pp.candidateMin { // a single candidate needs no draw
		d[zChoiceAt(e)] = vk.Deviation{Kind: "value", Val: big.NewInt(int64(choice) - int64(e.pp.candidateMin))}
	}
	for k, v := range dev {
		d[k] = v
	}
	s := vk.With(seed, d)
	s.Limit = 100000
	b := zDoCast(e.pp)
	return b, s
}

// zVerify is the collector's verdict.
func zVerify(b BallotData, e zEnv) bool {
	ok := zDoVerify(b, e.pp.RPParams)
	return ok
}

// zDecrypt returns the plaintext element of a ciphertext.
func zDecrypt(ct ElGamalCiphertext, e zEnv) group.Element {
	if g, ok := e.ff.(*vk.IGroup); ok {
		// V - (coefficient of the key in V = randomness) * key
		h := checks.El(e.pp.EGPK).BasisIndex()
		r := checks.El(ct.V).Coef(h)
		return g.Lin(ct.V, big.NewInt(1), e.pp.EGPK, new(big.Int).Neg(r))
	}
	return e.ff.Element().Subtract(ct.V, e.ff.Element().Scale(ct.U, zKey))
}

// zChoice reads the encrypted number of a ballot (16-bit search on real groups).
func zIsChoice(ct ElGamalCiphertext, e zEnv, choice uint16) bool {
	return zDecrypt(ct, e).IsEqual(e.ff.Element().BaseScale(big.NewInt(int64(choice))))
}

func zt(b bool, x, y int64) int64 {
	if b {
		return x
	}
	return y
}
