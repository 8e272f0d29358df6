package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// NFF is the order of the ideal ElGamal group: a prime well above the curve orders.
var NFF *big.Int

func init() {
	// just below a power of two, so that draws over it are practically never refused
	NFF = new(big.Int).SetBit(new(big.Int), 301, 1)
	NFF.Sub(NFF, B(1))
	for !NFF.ProbablyPrime(20) {
		NFF.Sub(NFF, B(2))
	}
}

func gp(g group.Group, h group.Element) voteproof.GroupParameters {
	return voteproof.GroupParameters{G: g.Generator(), H: h, N: g.N(), F: g.P(), I: g}
}

func hashed(g group.Group, s string) group.Element {
	e, err := g.Element().MapToGroup(s)
	if err != nil {
		panic(err)
	}
	return e
}

// VPParams builds equality-proof parameters.
func VPParams(ff, ec group.Group, bx uint8, bc, bg uint16, lo, hi uint16) voteproof.ProofParams {
	var hf group.Element
	if _, ideal := ff.(*vk.IGroup); ideal {
		hf = hashed(ff, "election key")
	} else {
		hf = ff.Element().BaseScale(B(13))
	}
	ap := voteproof.AlgebraicParameters{GFF: gp(ff, hf), GEC: gp(ec, hashed(ec, "BulletproofsDoesNotNeedTrustedSetupH"))}
	p, err := voteproof.Setup(bx, bc, bg, lo, hi, ap)
	if err != nil {
		panic(err)
	}
	return p
}

// LenGrid enumerates equality-proof lengths, over groups large enough for all of them.
func LenGrid(f func(tag string, p voteproof.ProofParams)) {
	ff, ec := vk.NewIdeal("gridff", primeBelow(1201)), vk.NewIdeal("gridec", primeBelow(1100))
	for _, bx := range []uint8{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 200, 254, 255} {
		for _, bc := range []uint16{8, 16, 64, 128, 224, 240, 248, 256} {
			for _, bb := range []int{1, 2, 8, 15, 143, 300, 511} {
				bg := 1 + int(bx) + int(bc) + bb
				f(fmt.Sprintf("%d/%d/%d", bx, bc, bb), VPParams(ff, ec, bx, bc, uint16(bg), 0, 65535))
			}
		}
	}
}

func primeBelow(bits int) *big.Int {
	p := new(big.Int).Sub(Pow2(bits), B(1))
	for !p.ProbablyPrime(20) {
		p.Sub(p, B(2))
	}
	return p
}

// Stmt is the statement of an equality proof with its witness.
type Stmt struct {
	X            *big.Int
	Rp, Rq1, Rq2 *big.Int
}

// Comm builds the commitments of a statement.
func (s Stmt) Comm(p voteproof.ProofParams) voteproof.VerCommitments {
	return voteproof.VerCommitments{
		Y:   p.GFF.I.Element().BaseScale(s.Rp),
		Xp:  Commit(p.GFF.I, p.GFF.H, s.X, s.Rp),
		Xq1: Commit(p.GEC.I, p.GEC.H, s.X, s.Rq1),
		Xq2: Commit(p.GEC.I, p.GEC.H, s.X, s.Rq2),
	}
}

// Prove runs the prover on copies of the witness.
func (s Stmt) Prove(p voteproof.ProofParams) voteproof.SigmaProof {
	cp := func(x *big.Int) *big.Int { return new(big.Int).Set(x) }
	return voteproof.Prove(cp(s.X), cp(s.Rp), cp(s.Rq1), cp(s.Rq2), p)
}

// Window returns the no-leak window of the parameters.
func Window(p voteproof.ProofParams) (lo, hi *big.Int) {
	return Pow2(int(p.Bx) + int(p.Bc)), Pow2(int(p.Bx) + int(p.Bc) + p.Bb)
}

// probeNonce finds which draw of the prover is the nonce k (with secret 0, z=k) and how
// many draws one attempt takes.
func probeNonce(p voteproof.ProofParams) (at, per int, err error) {
	return probeNonceSeed(p, 4242)
}

// probeNonceSeed does so for the draws of a given seed (which draw it is can depend on
// the draws before it being refused).
func probeNonceSeed(p voteproof.ProofParams, seed uint64) (at, per int, err error) {
	lo, _ := Window(p)
	st := Stmt{B(0), B(3), B(5), B(7)}
	for i := 0; i < 12; i++ {
		good := true
		for _, d := range []int64{17, 18} { // two values: one could be the natural nonce
			want := add(lo, B(d))
			s := vk.With(seed, map[int]vk.Deviation{i: {Kind: "value", Val: want}})
			var z *big.Int
			e := vk.Guard(func() error { z = st.Prove(p).Z; return nil })
			good = good && e == nil && z != nil && z.Cmp(want) == 0
			per = s.N
		}
		if good {
			return i, per, nil
		}
	}
	return 0, 0, vk.Errf("no draw of the prover acts as the nonce (z = nonce + challenge*secret)")
}

// VPAll is a transcript together with the statement it is checked against.
type VPAll struct {
	P voteproof.SigmaProof
	C voteproof.VerCommitments
}

func (a VPAll) Verify() bool { return a.P.Verify(a.C) }

// VPComp is one component of the transcript or the statement.
type VPComp struct {
	Name  string
	FF    bool // group / modulus
	Exact bool
	E     func(*VPAll) *group.Element
	S     func(*VPAll) **big.Int
}

func VPComps() []VPComp {
	return []VPComp{
		{Name: "W", FF: true, E: func(a *VPAll) *group.Element { return &a.P.W }},
		{Name: "Kp", FF: true, E: func(a *VPAll) *group.Element { return &a.P.Kp }},
		{Name: "Kq1", E: func(a *VPAll) *group.Element { return &a.P.Kq1 }},
		{Name: "Kq2", E: func(a *VPAll) *group.Element { return &a.P.Kq2 }},
		{Name: "Y", FF: true, E: func(a *VPAll) *group.Element { return &a.C.Y }},
		{Name: "Xp", FF: true, E: func(a *VPAll) *group.Element { return &a.C.Xp }},
		{Name: "Xq1", E: func(a *VPAll) *group.Element { return &a.C.Xq1 }},
		{Name: "Xq2", E: func(a *VPAll) *group.Element { return &a.C.Xq2 }},
		{Name: "Challenge", Exact: true, S: func(a *VPAll) **big.Int { return &a.P.Challenge }},
		{Name: "Z", Exact: true, S: func(a *VPAll) **big.Int { return &a.P.Z }},
		{Name: "Sp", FF: true, S: func(a *VPAll) **big.Int { return &a.P.Sp }},
		{Name: "Sq1", S: func(a *VPAll) **big.Int { return &a.P.Sq1 }},
		{Name: "Sq2", S: func(a *VPAll) **big.Int { return &a.P.Sq2 }},
	}
}

// VPRepls enumerates replacements of one component.
func VPRepls(a VPAll, cm VPComp) []Repl {
	params := a.P.Params
	g, h := params.GEC.I, params.GEC.H
	if cm.FF {
		g, h = params.GFF.I, params.GFF.H
	}
	if cm.E != nil {
		others := map[string]group.Element{}
		for _, o := range VPComps() {
			if o.E != nil && o.Name != cm.Name && o.FF == cm.FF {
				others[o.Name] = *o.E(&a)
			}
		}
		return ElemRepls(g, *cm.E(&a), map[string]group.Element{"H": h}, others)
	}
	cur := *cm.S(&a)
	others := map[string]*big.Int{}
	for _, o := range VPComps() {
		if o.S != nil && o.Name != cm.Name {
			others[o.Name] = *o.S(&a)
		}
	}
	out := ScalarRepls(g.N(), cur, others)
	if cm.Exact {
		for _, d := range []*big.Int{params.GEC.N, params.GFF.N, Pow2(int(params.Bc)), mul(params.GEC.N, params.GFF.N)} {
			out = append(out, Repl{Name: "+" + fmt.Sprint(d.BitLen()), S: add(cur, d)}, Repl{Name: "-" + fmt.Sprint(d.BitLen()), S: sub(cur, d)})
		}
	}
	return out
}

// Consistent decides in the ideal groups whether the statement holds one secret.
func Consistent(p voteproof.ProofParams, c voteproof.VerCommitments) error {
	hf, he := El(p.GFF.H).BasisIndex(), El(p.GEC.H).BasisIndex()
	only := func(e group.Element, h int) bool {
		x := El(e)
		for i := range x.C {
			if i != 0 && i != h && x.Coef(i).Sign() != 0 {
				return false
			}
		}
		return true
	}
	if !only(c.Y, 0) || !only(c.Xp, hf) || !only(c.Xq1, he) || !only(c.Xq2, he) {
		return vk.Errf("statement is not of the committed form")
	}
	if El(c.Y).Coef(0).Cmp(El(c.Xp).Coef(hf)) != 0 {
		return vk.Errf("ciphertext halves use different randomness")
	}
	xp, x1, x2 := El(c.Xp).Coef(0), El(c.Xq1).Coef(0), El(c.Xq2).Coef(0)
	if xp.Cmp(x1) != 0 || x1.Cmp(x2) != 0 {
		return vk.Errf("different secrets: ciphertext %v, lower %v, upper %v", xp, x1, x2)
	}
	return nil
}

// capBits is the group length to use with the 320-bit ElGamal group: responses must stay
// below both orders.
func capBits(ec group.Group) uint16 {
	if b := ec.N().BitLen(); b < 300 {
		return uint16(b)
	}
	return 300
}
