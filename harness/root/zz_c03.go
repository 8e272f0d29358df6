package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C03"] = zC03
	vk.Describe("C03", "one case = all replacements of one component of one accepted ballot, or one combination of the parts of two accepted ballots, each judged by the collector",
		"component replacements are taken from the listed alphabet (identity, negation, shifts, other components, other ballots)")
}

// zSlot is one component of a ballot.
type zSlot struct {
	name  string
	ff    bool
	exact bool
	e     func(*BallotData) *group.Element
	s     func(*BallotData) **big.Int
}

func zSlots(b BallotData) []zSlot {
	out := []zSlot{
		{name: "U", ff: true, e: func(b *BallotData) *group.Element { return &b.Ballot.U }},
		{name: "V", ff: true, e: func(b *BallotData) *group.Element { return &b.Ballot.V }},
		{name: "eq.W", ff: true, e: func(b *BallotData) *group.Element { return &b.VoteProof.W }},
		{name: "eq.Kp", ff: true, e: func(b *BallotData) *group.Element { return &b.VoteProof.Kp }},
		{name: "eq.Kq1", e: func(b *BallotData) *group.Element { return &b.VoteProof.Kq1 }},
		{name: "eq.Kq2", e: func(b *BallotData) *group.Element { return &b.VoteProof.Kq2 }},
		{name: "eq.Challenge", exact: true, s: func(b *BallotData) **big.Int { return &b.VoteProof.Challenge }},
		{name: "eq.Z", exact: true, s: func(b *BallotData) **big.Int { return &b.VoteProof.Z }},
		{name: "eq.Sp", ff: true, s: func(b *BallotData) **big.Int { return &b.VoteProof.Sp }},
		{name: "eq.Sq1", s: func(b *BallotData) **big.Int { return &b.VoteProof.Sq1 }},
		{name: "eq.Sq2", s: func(b *BallotData) **big.Int { return &b.VoteProof.Sq2 }},
	}
	for _, side := range []string{"lo.", "hi."} {
		lower := side == "lo."
		for _, cm := range checks.Comps(checks.FromSingle(b.BpLower)) {
			cm := cm
			sl := zSlot{name: side + cm.Name}
			// Resolve the component inside the real struct.
			f := func(b *BallotData) zBP1 {
				if lower {
					return zBP1{&b.BpLower.V, &b.BpLower.A, &b.BpLower.S, &b.BpLower.T1, &b.BpLower.T2, &b.BpLower.InnerProductProof.P,
						&b.BpLower.Taux, &b.BpLower.Mu, &b.BpLower.Tprime, &b.BpLower.InnerProductProof.Cc, &b.BpLower.InnerProductProof.A, &b.BpLower.InnerProductProof.B,
						b.BpLower.InnerProductProof.L, b.BpLower.InnerProductProof.R}
				}
				return zBP1{&b.BpUpper.V, &b.BpUpper.A, &b.BpUpper.S, &b.BpUpper.T1, &b.BpUpper.T2, &b.BpUpper.InnerProductProof.P,
					&b.BpUpper.Taux, &b.BpUpper.Mu, &b.BpUpper.Tprime, &b.BpUpper.InnerProductProof.Cc, &b.BpUpper.InnerProductProof.A, &b.BpUpper.InnerProductProof.B,
					b.BpUpper.InnerProductProof.L, b.BpUpper.InnerProductProof.R}
			}
			if cm.E != nil {
				sl.e = func(b *BallotData) *group.Element { return f(b).elem(cm.Name) }
			} else {
				sl.s = func(b *BallotData) **big.Int { return f(b).scal(cm.Name) }
			}
			out = append(out, sl)
		}
	}
	return out
}

type zBP1 struct {
	V, A, S, T1, T2, P           *group.Element
	Taux, Mu, Tprime, Cc, ia, ib **big.Int
	L, R                         []group.Element
}

func (z zBP1) elem(n string) *group.Element {
	switch n {
	case "V0":
		return z.V
	case "A":
		return z.A
	case "S":
		return z.S
	case "T1":
		return z.T1
	case "T2":
		return z.T2
	case "P":
		return z.P
	}
	var i int
	fmt.Sscanf(n[1:], "%d", &i)
	if n[0] == 'L' {
		return &z.L[i]
	}
	return &z.R[i]
}

func (z zBP1) scal(n string) **big.Int {
	return map[string]**big.Int{"Taux": z.Taux, "Mu": z.Mu, "Tprime": z.Tprime, "Cc": z.Cc, "a": z.ia, "b": z.ib}[n]
}

// zClone copies a ballot so that its slots can be replaced.
func zClone(b BallotData) BallotData {
	cp := func(x []group.Element) []group.Element { return append([]group.Element(nil), x...) }
	b.BpLower.InnerProductProof.L, b.BpLower.InnerProductProof.R = cp(b.BpLower.InnerProductProof.L), cp(b.BpLower.InnerProductProof.R)
	b.BpUpper.InnerProductProof.L, b.BpUpper.InnerProductProof.R = cp(b.BpUpper.InnerProductProof.L), cp(b.BpUpper.InnerProductProof.R)
	return b
}

func (s zSlot) get(b *BallotData) (group.Element, *big.Int) {
	if s.e != nil {
		return *s.e(b), nil
	}
	return nil, *s.s(b)
}

func (s zSlot) same(a, b *BallotData, e zEnv) bool {
	if s.e != nil {
		return (*s.e(a)).IsEqual(*s.e(b))
	}
	x, y := *s.s(a), *s.s(b)
	if s.exact {
		return x.Cmp(y) == 0
	}
	n := e.ec.N()
	if s.ff {
		n = e.ff.N()
	}
	return new(big.Int).Mod(new(big.Int).Sub(x, y), n).Sign() == 0
}

func (s zSlot) copyFrom(dst, src *BallotData) {
	if s.e != nil {
		*s.e(dst) = *s.e(src)
	} else {
		*s.s(dst) = *s.s(src)
	}
}

// repls is the replacement alphabet of one component.
func (s zSlot) repls(b BallotData, e zEnv) []checks.Repl {
	all := zSlots(b)
	g := e.ec
	gens := map[string]group.Element{"H": e.pp.ECGroupParams.H}
	if s.ff {
		g = e.ff
		gens = map[string]group.Element{"PK": e.pp.EGPK}
	}
	if s.e != nil {
		others := map[string]group.Element{}
		for _, o := range all {
			if o.e != nil && o.ff == s.ff && o.name != s.name {
				others[o.name] = *o.e(&b)
			}
		}
		return checks.ElemRepls(g, *s.e(&b), gens, others)
	}
	others := map[string]*big.Int{}
	for _, o := range all {
		if o.s != nil && o.name != s.name {
			others[o.name] = *o.s(&b)
		}
	}
	cur := *s.s(&b)
	out := checks.ScalarRepls(g.N(), cur, others)
	if s.exact {
		for i, d := range []*big.Int{e.ec.N(), e.ff.N(), new(big.Int).Mul(e.ec.N(), e.ff.N()), new(big.Int).Lsh(big.NewInt(1), 224)} {
			out = append(out, checks.Repl{Name: fmt.Sprintf("+m%d", i), S: new(big.Int).Add(cur, d)}, checks.Repl{Name: fmt.Sprintf("-m%d", i), S: new(big.Int).Sub(cur, d)})
		}
	}
	return out
}

func zC03(c *vk.Ctx) {
	type pick struct {
		tag string
		e   zEnv
		ch  uint16
	}
	picks := []pick{
		{"ideal", zIdeal(101, 2000), 101}, {"ideal", zIdeal(101, 2000), 2000}, {"ideal", zIdeal(101, 2000), 777},
		{"ideal-full", zIdeal(0, 65535), 0}, {"ideal-full", zIdeal(0, 65535), 65535}, {"ideal-one", zIdeal(7, 7), 7},
		{"ideal-sym", zIdeal(100, 200), 150},
	}
	for _, g := range checks.Curves() {
		picks = append(picks, pick{g.Name(), zReal(g, 101, 2000, false), 500})
	}
	picks = append(picks, pick{"P-256/3072", zReal(group.P256(), 101, 2000, true), 1500})
	// Ballots of voters who choose their blinding values: none, the same, opposite.
	odd := map[string]func() BallotData{}
	normal := len(picks)
	for _, rp := range []int64{0, 1, 987654321} {
		for _, gm := range [][2]int64{{0, 0}, {0, 5}, {5, 0}, {5, 5}, {5, -5}} {
			for _, ch := range []uint16{100, 150} {
				e, rp, gm, ch := zIdeal(100, 200), rp, gm, ch
				tag := fmt.Sprintf("ideal-odd-%d-%d-%d", rp, gm[0], gm[1])
				odd[fmt.Sprint(tag, ch)] = func() BallotData { return zOdd(e, int64(ch), rp, gm) }
				picks = append(picks, pick{tag, e, ch})
			}
		}
	}
	for pi, p := range picks {
		p := p
		var base BallotData
		have := false
		get := func() BallotData {
			if f := odd[fmt.Sprint(p.tag, p.ch)]; !have && f != nil {
				base = f()
			} else if !have {
				base, _ = zCast(p.e, p.ch, 31, nil)
			}
			have = true
			return base
		}
		tag := fmt.Sprintf("%s/%d-%d/%d", p.tag, p.e.pp.candidateMin, p.e.pp.candidateMax, p.ch)
		c.Case(tag+"/base", func() (string, error) {
			if !zVerify(get(), p.e) {
				return "", vk.Errf("honest ballot rejected")
			}
			return "accepted", nil
		})
		slow := pi == normal-1
		for _, side := range []string{"lo", "hi"} {
			side := side
			c.Case(tag+"/"+side+".rounds", func() (string, error) {
				b := get()
				ip := &b.BpLower.InnerProductProof
				if side == "hi" {
					ip = &b.BpUpper.InnerProductProof
				}
				for _, f := range checks.ListFaults(p.e.ec, ip.L, ip.R) {
					m := zClone(b)
					if side == "hi" {
						m.BpUpper.InnerProductProof.L, m.BpUpper.InnerProductProof.R = f.L, f.R
					} else {
						m.BpLower.InnerProductProof.L, m.BpLower.InnerProductProof.R = f.L, f.R
					}
					c.Trans(1)
					c.State(tag + side + f.Name)
					if !p.e.ideal {
						c.Validated(1)
					}
					if zVerify(m, p.e) {
						return "", vk.Errf("accepted with faulty rounds (%s)", f.Name)
					}
				}
				return "all list faults rejected", nil
			})
		}
		for _, sl := range zSlots(zShape) {
			sl := sl
			if odd := pi >= normal && (p.ch != 100 || pi >= normal+10); odd && !c.Thorough() && sl.name != "lo.V0" && sl.name != "hi.V0" && (strings.HasPrefix(sl.name, "lo.") || strings.HasPrefix(sl.name, "hi.")) {
				continue
			}
			c.Case(tag+"/"+sl.name, func() (string, error) {
				b := get()
				for _, r := range sl.repls(b, p.e) {
					if slow && len(r.Name) > 3 && r.Name[0] == '=' && !c.Thorough() {
						continue
					}
					m := zClone(b)
					if sl.e != nil {
						*sl.e(&m) = r.E
					} else {
						*sl.s(&m) = r.S
					}
					if sl.same(&m, &b, p.e) {
						continue
					}
					c.Trans(1)
					c.State(tag + sl.name + r.Name)
					if !p.e.ideal {
						c.Validated(1)
					}
					if zVerify(m, p.e) {
						return "", vk.Errf("accepted with %s replaced (%s)", sl.name, r.Name)
					}
				}
				return "all replacements rejected", nil
			})
		}
	}
	// Crossovers.
	type pair struct {
		tag        string
		e          zEnv
		c1, c2     uint16
		fine, real bool
	}
	pairs := []pair{
		{"ideal-same", zIdeal(101, 2000), 500, 500, true, false},
		{"ideal-diff", zIdeal(101, 2000), 500, 501, true, false},
		{"ideal-mirror", zIdeal(100, 200), 120, 180, true, false},
		{"ideal-mid", zIdeal(100, 200), 150, 150, false, false},
		{"ideal-one", zIdeal(7, 7), 7, 7, false, false},
	}
	for _, g := range checks.Curves() {
		pairs = append(pairs, pair{g.Name(), zReal(g, 101, 2000, false), 500, 500, false, true},
			pair{g.Name() + "-diff", zReal(g, 101, 2000, false), 500, 900, false, true})
	}
	for _, p := range pairs {
		p := p
		var a, b BallotData
		have := false
		get := func() (BallotData, BallotData) {
			if !have {
				a, _ = zCast(p.e, p.c1, 1, nil)
				b, _ = zCast(p.e, p.c2, 2, nil)
				have = true
			}
			return a, b
		}
		note := func() {
			c.Trans(1)
			if p.real {
				c.Validated(1)
			}
		}
		for mask := 1; mask < 15; mask++ {
			mask := mask
			c.Case(fmt.Sprintf("cross/%s/mask=%d", p.tag, mask), func() (string, error) {
				a, b := get()
				m := a
				if mask&1 != 0 {
					m.Ballot = b.Ballot
				}
				if mask&2 != 0 {
					m.BpLower = b.BpLower
				}
				if mask&4 != 0 {
					m.BpUpper = b.BpUpper
				}
				if mask&8 != 0 {
					m.VoteProof = b.VoteProof
				}
				note()
				if zVerify(m, p.e) {
					return "", vk.Errf("combination of two ballots accepted")
				}
				return "rejected", nil
			})
		}
		for _, sw := range []string{"own", "other", "lo=hi", "hi=lo"} {
			sw := sw
			c.Case(fmt.Sprintf("swap/%s/%s", p.tag, sw), func() (string, error) {
				a, b := get()
				m := a
				switch sw {
				case "own":
					m.BpLower, m.BpUpper = a.BpUpper, a.BpLower
				case "other":
					m.BpLower, m.BpUpper = b.BpUpper, b.BpLower
				case "lo=hi":
					m.BpLower = a.BpUpper
				case "hi=lo":
					m.BpUpper = a.BpLower
				}
				note()
				if zVerify(m, p.e) {
					return "", vk.Errf("exchanged bound proofs accepted")
				}
				return "rejected", nil
			})
		}
		slots := zSlots(zShape)
		for i := range slots {
			i := i
			c.Case(fmt.Sprintf("cross1/%s/%s", p.tag, slots[i].name), func() (string, error) {
				a, b := get()
				if slots[i].same(&a, &b, p.e) {
					return "same value", nil
				}
				for _, dir := range [][2]*BallotData{{&a, &b}, {&b, &a}} {
					m := zClone(*dir[0])
					slots[i].copyFrom(&m, dir[1])
					note()
					if zVerify(m, p.e) {
						return "", vk.Errf("accepted with %s of another ballot", slots[i].name)
					}
				}
				return "rejected", nil
			})
			if !p.fine {
				continue
			}
			for j := i + 1; j < len(slots); j++ {
				j := j
				if !c.Thorough() && (i+j)%3 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("cross2/%s/%s,%s", p.tag, slots[i].name, slots[j].name), func() (string, error) {
					a, b := get()
					m := zClone(a)
					slots[i].copyFrom(&m, &b)
					slots[j].copyFrom(&m, &b)
					if slots[i].same(&a, &b, p.e) || slots[j].same(&a, &b, p.e) {
						return "same value", nil
					}
					note()
					if zVerify(m, p.e) {
						return "", vk.Errf("accepted with %s and %s of another ballot", slots[i].name, slots[j].name)
					}
					return "rejected", nil
				})
			}
		}
	}
}

// zOdd is a ballot whose voter chose the ciphertext randomness and the blinding values of
// the two commitments: the draws that decide those are found by trying each.
func zOdd(e zEnv, ch, rp int64, gm [2]int64) (b BallotData) {
	q := e.ec.N()
	prove := func(v int64, gamma *big.Int, seed uint64) (bulletproofs.BulletProof, *big.Int) {
		gamma = new(big.Int).Mod(gamma, q)
		for d := -1; d < 200; d++ {
			dev := map[int]vk.Deviation{}
			if d >= 0 {
				dev[d] = vk.Deviation{Kind: "value", Val: gamma}
			}
			s := vk.With(seed, dev)
			s.Limit = 20000
			bp, g, err := bulletproofs.Prove(big.NewInt(v), e.pp.BPParams)
			if err != nil {
				panic(err)
			}
			if g.Cmp(gamma) == 0 || d >= 0 && d >= s.N {
				return bp, g
			}
		}
		panic("no proof")
	}
	r := big.NewInt(rp)
	b.Ballot.U = e.ff.Element().BaseScale(r)
	b.Ballot.V = e.ff.Element().Add(e.ff.Element().BaseScale(big.NewInt(ch)), e.ff.Element().Scale(e.pp.EGPK, r))
	var g1, g2 *big.Int
	b.BpLower, g1 = prove(ch-int64(e.pp.candidateMin), big.NewInt(gm[0]), 41)
	b.BpUpper, g2 = prove(int64(e.pp.candidateMax)-ch, big.NewInt(gm[1]), 42)
	vk.Fresh(43)
	b.VoteProof = voteproof.Prove(big.NewInt(ch), r, g1, new(big.Int).Sub(q, g2), e.pp.RPParams)
	return b
}

// zShape is a ballot used only for the list of its components.
var zShape = func() BallotData {
	b := BallotData{}
	b.BpLower.InnerProductProof.L = make([]group.Element, 4)
	b.BpLower.InnerProductProof.R = make([]group.Element, 4)
	return b
}()
