package checks

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// Transcripts whose elements are set freely while the challenge stays the derived one: the
// library's own prover runs in the ideal groups with the group operations that make the
// eight elements replaced, so it hashes (and publishes) whatever the forger likes. No
// knowledge of the hashing convention is needed.

// TSlots are the elements of a statement and first move.
var TSlots = []string{"Y", "Xp", "W", "Kp", "Xq1", "Xq2", "Kq1", "Kq2"}

func tFF(s string) bool { return s == "Y" || s == "Xp" || s == "W" || s == "Kp" }

// Trans is one element assignment.
type Trans map[string]*vk.IElem

// Oracle makes transcripts.
type Oracle struct {
	P    voteproof.ProofParams
	St   Stmt
	Seed uint64
	Base Trans
	at   map[string]int
	OK   bool
}

// NewOracle locates the operations; OK is false when the elements are not made by one
// operation each.
func NewOracle(p voteproof.ProofParams, st Stmt, seed uint64) *Oracle {
	o := &Oracle{P: p, St: st, Seed: seed, Base: Trans{}, at: map[string]int{}}
	ff, ec := p.GFF.I.(*vk.IGroup), p.GEC.I.(*vk.IGroup)
	type rec struct {
		i int
		t string
	}
	var rf, re []rec
	sf, se := ff.Ops(), ec.Ops()
	ff.Mangle = func(i int, _ string, e *vk.IElem) { rf = append(rf, rec{i - sf, e.Text()}) }
	ec.Mangle = func(i int, _ string, e *vk.IElem) { re = append(re, rec{i - se, e.Text()}) }
	vk.Fresh(seed)
	pr := st.Prove(p)
	ff.Mangle, ec.Mangle = nil, nil
	cm := st.Comm(p)
	for s, e := range map[string]group.Element{"Y": cm.Y, "Xp": cm.Xp, "Xq1": cm.Xq1, "Xq2": cm.Xq2, "W": pr.W, "Kp": pr.Kp, "Kq1": pr.Kq1, "Kq2": pr.Kq2} {
		o.Base[s] = El(e)
		rs := re
		if tFF(s) {
			rs = rf
		}
		for _, r := range rs {
			if r.t == El(e).Text() {
				o.at[s] = r.i
			}
		}
	}
	if len(o.at) != len(TSlots) || !pr.Verify(cm) {
		return o
	}
	// The published elements follow the replaced operations.
	t := Trans{}
	for s, e := range o.Base {
		t[s] = e
		if !tFF(s) || s == "W" || s == "Kp" {
			g := El(e).G
			t[s] = g.Lin(e, B(1), g.Generator(), B(3))
		}
	}
	q, _, ok := o.Run(t)
	o.OK = ok && El(q.W).Text() == t["W"].Text() && El(q.Kp).Text() == t["Kp"].Text() && El(q.Kq1).Text() == t["Kq1"].Text() && El(q.Kq2).Text() == t["Kq2"].Text()
	return o
}

// Run gives the transcript for an assignment, with the responses of the library (to be
// replaced).
func (o *Oracle) Run(t Trans) (pr voteproof.SigmaProof, cm voteproof.VerCommitments, ok bool) {
	ff, ec := o.P.GFF.I.(*vk.IGroup), o.P.GEC.I.(*vk.IGroup)
	install := func(g *vk.IGroup, side bool) {
		at := map[int]*vk.IElem{}
		for s, i := range o.at {
			if tFF(s) == side {
				at[i] = t[s]
			}
		}
		start := g.Ops()
		g.Mangle = func(i int, _ string, e *vk.IElem) {
			if w, ok := at[i-start]; ok {
				e.C = g.Lin(w, B(1)).C
			}
		}
	}
	install(ff, true)
	install(ec, false)
	err := vk.Guard(func() error { vk.Fresh(o.Seed); pr = o.St.Prove(o.P); return nil })
	ff.Mangle, ec.Mangle = nil, nil
	cm = voteproof.VerCommitments{Y: t["Y"], Xp: t["Xp"], Xq1: t["Xq1"], Xq2: t["Xq2"]}
	return pr, cm, err == nil
}

// Alternatives are the values tried for an element.
func (o *Oracle) Alternatives(s string) []*vk.IElem {
	b := o.Base[s]
	g := b.G
	h := El(o.P.GEC.H)
	if tFF(s) {
		h = El(o.P.GFF.H)
	}
	partner := map[string]string{"Y": "W", "W": "Y", "Xp": "Kp", "Kp": "Xp", "Xq1": "Xq2", "Xq2": "Xq1", "Kq1": "Kq2", "Kq2": "Kq1"}
	out := []*vk.IElem{
		El(g.Identity()),
		g.Lin(b, B(1), g.Generator(), B(5)),
		o.Base[partner[s]],
		g.Lin(g.Generator(), B(1)),
		g.Lin(b, B(1), h, B(9)),
	}
	if s == "Xp" {
		out = append(out, o.Base["Y"])
	}
	return out
}

// Each visits all assignments that deviate exactly in the given slots.
func (o *Oracle) Each(slots []string, f func(t Trans) error) error {
	t := Trans{}
	for s, e := range o.Base {
		t[s] = e
	}
	var rec func(i int) error
	rec = func(i int) error {
		if i == len(slots) {
			return f(t)
		}
		for _, a := range o.Alternatives(slots[i]) {
			t[slots[i]] = a
			if err := rec(i + 1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(0)
}

// Responses completes a transcript in all the ways in which the responses satisfy some of
// the equations.
func (o *Oracle) Responses(t Trans, pr voteproof.SigmaProof, f func(q voteproof.SigmaProof) error) error {
	c := pr.Challenge
	hf, he := El(o.P.GFF.H).BasisIndex(), El(o.P.GEC.H).BasisIndex()
	lo, hi := Window(o.P)
	sol := func(first, second string, i int) *big.Int { return add(t[first].Coef(i), mul(c, t[second].Coef(i))) }
	uniq := func(xs ...*big.Int) []*big.Int {
		seen := map[string]bool{}
		var out []*big.Int
		for _, x := range xs {
			if !seen[x.String()] {
				seen[x.String()] = true
				out = append(out, x)
			}
		}
		return out
	}
	zs := uniq(sol("Kp", "Xp", 0), sol("Kq1", "Xq1", 0), sol("Kq2", "Xq2", 0),
		mod(sol("Kq1", "Xq1", 0), o.P.GEC.N), mod(sol("Kp", "Xp", 0), o.P.GFF.N), pr.Z)
	sps := uniq(mod(sol("W", "Y", 0), o.P.GFF.N), mod(sol("Kp", "Xp", hf), o.P.GFF.N))
	q := pr
	q.Sq1 = mod(sol("Kq1", "Xq1", he), o.P.GEC.N)
	q.Sq2 = mod(sol("Kq2", "Xq2", he), o.P.GEC.N)
	for _, z := range zs {
		if z.Cmp(lo) < 0 || z.Cmp(hi) >= 0 {
			continue
		}
		for _, sp := range sps {
			q.Z, q.Sp = z, sp
			if err := f(q); err != nil {
				return err
			}
		}
	}
	return nil
}

// Subsets lists the subsets of xs of size 1..max.
func Subsets(xs []string, max int) [][]string {
	var out [][]string
	for m := 1; m < 1<<len(xs); m++ {
		var s []string
		for i, x := range xs {
			if m>>i&1 == 1 {
				s = append(s, x)
			}
		}
		if len(s) <= max {
			out = append(out, s)
		}
	}
	return out
}
