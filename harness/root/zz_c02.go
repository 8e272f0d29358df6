package main

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C02"] = zC02
	vk.Describe("C02", "one case = one or more ballots of a dishonest voter who feeds an enumerated assignment of values into the library's encryption and proof procedures (or uses a forgery strategy); acceptance is judged by the number read from the ciphertext",
		"voter strategies outside the enumerated families are not covered")
}

// zWit is what a voter feeds into the procedures.
type zWit struct {
	Ct, Lo, Hi, Eq *big.Int
}

// zAssemble builds a ballot with the library procedures on arbitrary values.
func zAssemble(e zEnv, w zWit, seed uint64) (b BallotData, err error) {
	err = vk.Guard(func() error {
		s := vk.Fresh(seed)
		s.Limit = 2000
		rp := big.NewInt(987654321)
		b.Ballot.U = e.ff.Element().BaseScale(rp)
		b.Ballot.V = e.ff.Element().Add(e.ff.Element().BaseScale(w.Ct), e.ff.Element().Scale(e.pp.EGPK, rp))
		var g1, g2 *big.Int
		var err error
		if b.BpLower, g1, err = bulletproofs.Prove(new(big.Int).Set(w.Lo), e.pp.BPParams); err != nil {
			return err
		}
		if b.BpUpper, g2, err = bulletproofs.Prove(new(big.Int).Set(w.Hi), e.pp.BPParams); err != nil {
			return err
		}
		b.VoteProof = voteproof.Prove(new(big.Int).Set(w.Eq), rp, g1, new(big.Int).Sub(e.ec.N(), g2), e.pp.RPParams)
		return nil
	})
	return b, err
}

// zJudge checks the soundness predicate on one ideal-group ballot.
func zJudge(c *vk.Ctx, b BallotData, e zEnv, what string) (bool, error) {
	c.Trans(1)
	var ok bool
	if err := vk.Guard(func() error { ok = zVerify(b, e); return nil }); err != nil {
		return false, vk.Errf("collector crashed: %v", err)
	}
	if !ok {
		return false, nil
	}
	m := zPlain(b, e)
	lo, hi := big.NewInt(int64(e.pp.candidateMin)), big.NewInt(int64(e.pp.candidateMax))
	// The ciphertext must be a well-formed encryption of a number in the range.
	h := checks.El(e.pp.EGPK).BasisIndex()
	if checks.El(b.Ballot.V).Coef(h).Cmp(checks.El(b.Ballot.U).Coef(0)) != 0 {
		return true, vk.Errf("accepted a ballot whose ciphertext halves do not belong together (%s)", what)
	}
	if m.Cmp(lo) < 0 || m.Cmp(hi) > 0 {
		return true, vk.Errf("accepted a ballot for %v, outside %v..%v (%s)", m, lo, hi, what)
	}
	he := checks.El(e.pp.BPParams.H).BasisIndex()
	_ = he
	vl, vu := checks.El(b.BpLower.V).Coef(0), checks.El(b.BpUpper.V).Coef(0)
	if new(big.Int).Add(vl, lo).Cmp(m) != 0 || new(big.Int).Sub(hi, vu).Cmp(m) != 0 {
		return true, vk.Errf("accepted a ballot for %v whose bound proofs are about %v+lo and hi-%v (%s)", m, vl, vu, what)
	}
	return true, nil
}

func zC02(c *vk.Ctx) {
	bi := func(x int64) *big.Int { return big.NewInt(x) }
	e := zIdeal(101, 2000)
	// 1. Every 16-bit choice with the natural (and wrapped) witness values.
	for _, cf := range [][2]uint16{{101, 2000}, {0, 65535}, {0, 1900}, {63636, 65535}, {65535, 65535}, {0, 0}, {40000, 40001}, {1, 65534}} {
		cf := cf
		e := zIdeal(cf[0], cf[1])
		var list []int64
		in := func(x int64) bool {
			for _, y := range []int64{0, 1, int64(cf[0]), int64(cf[1]), 32768, 65535, 256, 65536 + int64(cf[0])%256} {
				if x-y < 6 && y-x < 6 {
					return true
				}
			}
			return false
		}
		for x := int64(-300); x < 66000; x++ {
			if c.Thorough() || in(x) || x == -255 || x == 65536+255 || (cf[0] == 101 && x%23 == 0) {
				list = append(list, x)
			}
		}
		for i := 0; i < len(list); i += 16 {
			i := i
			c.Case(fmt.Sprintf("choice/%d-%d/%d", cf[0], cf[1], list[i]), func() (string, error) {
				for j := i; j < i+16 && j < len(list); j++ {
					x := list[j]
					dl, dh := x-int64(cf[0]), int64(cf[1])-x
					reps := [][2]*big.Int{{bi(dl), bi(dh)}}
					if dl < 0 || dh < 0 {
						// what uint16 arithmetic makes of it, and residues modulo the order
						reps = append(reps, [2]*big.Int{bi(int64(uint16(dl))), bi(int64(uint16(dh)))},
							[2]*big.Int{new(big.Int).Mod(bi(dl), checks.Q256), new(big.Int).Mod(bi(dh), checks.Q256)})
					}
					for _, rp := range reps {
						b, err := zAssemble(e, zWit{bi(x), rp[0], rp[1], bi(x)}, uint64(x))
						if err != nil {
							continue
						}
						acc, err := zJudge(c, b, e, "natural")
						if err != nil {
							return "", err
						}
						c.State(fmt.Sprintf("%v|%d|%v|%v", cf, x, rp[0], rp[1]))
						if !acc && dl >= 0 && dh >= 0 {
							return "", vk.Errf("valid ballot for %d rejected", x)
						}
					}
				}
				return "accepted exactly in the range", nil
			})
		}
	}
	// 2. Assignments: each procedure fed independently.
	for _, cf := range [][2]uint16{{101, 2000}, {0, 1899}, {0, 65535}, {63636, 65535}, {7, 7}, {0, 0}, {65535, 65535}, {7, 8}, {65534, 65535}} {
		cf := cf
		e := zIdeal(cf[0], cf[1])
		l, h := int64(cf[0]), int64(cf[1])
		w := h - l
		uniq := func(xs ...int64) (out []int64) {
			seen := map[int64]bool{}
			for _, x := range xs {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			return out
		}
		cts := uniq(l-1, l, l+w/5, h, h+1, -1, -5, 0, 65535, 65536+l, 65536)
		los := uniq(-l, -1, 0, w/5, w-1, w, 65535, 65536)
		his := uniq(-1, 0, w-w/5, w-1, w, 65535, 65536)
		if cf[0] != 101 && !c.Thorough() {
			cts, los, his = uniq(l-1, l, h, h+1, h+2, -5), uniq(-1, 0, 1, w, w+1, 65536), uniq(-1, 0, 1, w, w+1, 65536)
		}
		for _, ct := range cts {
			for _, lo := range los {
				for _, hi := range his {
					ct, lo, hi := ct, lo, hi
					c.Case(fmt.Sprintf("assign/%d-%d/ct=%d/lo=%d/hi=%d", l, h, ct, lo, hi), func() (string, error) {
						for _, eq := range uniq(ct, lo+l, h-hi, l+w/5) {
							b, err := zAssemble(e, zWit{bi(ct), bi(lo), bi(hi), bi(eq)}, 77)
							if err != nil {
								continue
							}
							c.State(fmt.Sprintf("assign|%v|%v|%v|%v|%v", cf, ct, lo, hi, eq))
							if _, err := zJudge(c, b, e, "assignment"); err != nil {
								return "", err
							}
						}
						return "only consistent in-range ballots accepted", nil
					})
				}
			}
		}
	}
	// 3. Forged range proofs with an otherwise consistent ballot.
	for _, strat := range checks.Strategies {
		for _, sh := range checks.Shapes {
			for _, f := range [][3]int64{{101, 2000, 100}, {101, 2000, 2001}, {101, 2000, 0}, {101, 2000, 65535}, {101, 2000, 70000}, {0, 65535, -1}, {0, 65535, 65536}, {0, 0, -1}, {0, 1899, 1900}, {65535, 65535, 65536}, {63636, 65535, 63635}} {
				strat, sh, f, x := strat, sh, f, f[2]
				c.Case(fmt.Sprintf("forge/%s/%s/%d-%d/%d", strat, sh, f[0], f[1], x), func() (string, error) {
					e := zIdeal(uint16(f[0]), uint16(f[1]))
					vk.Fresh(3)
					dl, dh := bi(x-f[0]), bi(f[1]-x)
					rp := bi(4242)
					var b BallotData
					b.Ballot.U = e.ff.Element().BaseScale(rp)
					b.Ballot.V = e.ff.Element().Add(e.ff.Element().BaseScale(bi(x)), e.ff.Element().Scale(e.pp.EGPK, rp))
					g1, g2 := bi(11), bi(12)
					mk := func(v *big.Int) (bulletproofs.BulletProof, *big.Int, bool) {
						if v.Sign() >= 0 && v.BitLen() <= 16 {
							p, g, err := bulletproofs.Prove(v, e.pp.BPParams)
							return p, g, err == nil
						}
						a, bb := checks.Shape(sh, new(big.Int).Mod(v, checks.Q256), 16)
						m := &checks.Mal{Params: e.pp.BPParams, Vs: []*big.Int{new(big.Int).Mod(v, checks.Q256)}, AL: a, AR: bb, Seed: 9, Strat: strat}
						p, ok := checks.Forge(m)
						if !ok {
							return bulletproofs.BulletProof{}, nil, false
						}
						h := checks.El(e.pp.BPParams.H).BasisIndex()
						return p.Single(), checks.El(p.Vs[0]).Coef(h), true
					}
					var ok bool
					if b.BpLower, g1, ok = mk(dl); !ok {
						return "strategy not applicable", nil
					}
					if b.BpUpper, g2, ok = mk(dh); !ok {
						return "strategy not applicable", nil
					}
					b.VoteProof = voteproof.Prove(bi(x), rp, g1, new(big.Int).Sub(e.ec.N(), g2), e.pp.RPParams)
					c.State(fmt.Sprintf("forge|%s|%s|%v", strat, sh, f))
					_, err := zJudge(c, b, e, "forged range proof")
					return "rejected", err
				})
			}
		}
	}
	// 4. The ciphertext changed after the proof, responses adapted as far as possible.
	for _, d := range []*big.Int{bi(1), bi(-1), bi(1900), bi(65536), bi(-500)} {
		for _, how := range []string{"V", "V,Kp", "U,V", "U,V,sp", "V,z", "all"} {
			d, how := d, how
			c.Case(fmt.Sprintf("late/%v/%s", d, how), func() (string, error) {
				for _, x := range []uint16{101, 500, 2000} {
					b, _ := zCast(e, x, 8, nil)
					p := b.VoteProof
					ch := p.Challenge
					inv := new(big.Int).ModInverse(ch, checks.NFF)
					df := new(big.Int).Mul(d, inv)
					one := bi(1)
					G := zFF.Generator()
					switch how {
					case "V":
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, G, d)
					case "V,Kp":
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, G, d)
						b.VoteProof.Kp = zFF.Lin(p.Kp, one, G, new(big.Int).Neg(new(big.Int).Mul(d, ch)))
					case "U,V":
						b.Ballot.U = zFF.Lin(b.Ballot.U, one, G, d)
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, e.pp.EGPK, d, G, d)
					case "U,V,sp":
						b.Ballot.U = zFF.Lin(b.Ballot.U, one, G, df)
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, e.pp.EGPK, df)
						b.VoteProof.Sp = new(big.Int).Add(p.Sp, d)
					case "V,z":
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, G, df)
						b.VoteProof.Z = new(big.Int).Add(p.Z, d)
					case "all":
						de := new(big.Int).Mul(d, new(big.Int).ModInverse(ch, checks.Q256))
						b.Ballot.V = zFF.Lin(b.Ballot.V, one, G, df)
						b.BpLower.V = zEC.Lin(b.BpLower.V, one, zEC.Generator(), de)
						b.BpUpper.V = zEC.Lin(b.BpUpper.V, one, zEC.Generator(), new(big.Int).Neg(de))
						b.VoteProof.Z = new(big.Int).Add(p.Z, d)
					}
					c.State(fmt.Sprintf("late|%v|%s|%d", d, how, x))
					if acc, err := zJudge(c, b, e, "late change "+how); err != nil {
						return "", err
					} else if acc {
						return "", vk.Errf("ballot changed after proving (%s by %v) accepted", how, d)
					}
				}
				return "rejected", nil
			})
		}
	}
	// 4b. One ElGamal-group operation of the equality prover is off; the ciphertext is chosen
	// afterwards so that it makes up for it.
	zFaulted := func(op int, dg, dh *big.Int) (b BallotData, hit bool) {
		vk.Fresh(12)
		x, rp := bi(500), bi(987654321)
		b.Ballot.U = zFF.Element().BaseScale(rp)
		b.Ballot.V = zFF.Element().Add(zFF.Element().BaseScale(x), zFF.Element().Scale(e.pp.EGPK, rp))
		var g1, g2 *big.Int
		b.BpLower, g1, _ = bulletproofs.Prove(bi(500-101), e.pp.BPParams)
		b.BpUpper, g2, _ = bulletproofs.Prove(bi(2000-500), e.pp.BPParams)
		start := zFF.Ops()
		zFF.Mangle = func(i int, _ string, el *vk.IElem) {
			if i-start == op {
				el.C = zFF.Lin(&vk.IElem{G: zFF, C: el.C}, bi(1), zFF.Generator(), dg, e.pp.EGPK, dh).C
				hit = true
			}
		}
		defer func() { zFF.Mangle = nil }()
		b.VoteProof = voteproof.Prove(x, rp, g1, new(big.Int).Sub(e.ec.N(), g2), e.pp.RPParams)
		return b, hit
	}
	for op := 0; op < 40; op++ {
		for di, d := range [][2]*big.Int{{bi(1), bi(0)}, {bi(0), bi(1)}, {bi(65536), bi(0)}, {bi(3), bi(5)}} {
			op, d := op, d
			c.Case(fmt.Sprintf("fault/%d/%d", op, di), func() (string, error) {
				b, hit := zFaulted(op, d[0], d[1])
				if !hit {
					return "no such operation", nil
				}
				ks := []*big.Int{bi(0), bi(1), bi(-1)}
				if inv := new(big.Int).ModInverse(b.VoteProof.Challenge, checks.NFF); inv != nil {
					ks = append(ks, inv, new(big.Int).Neg(inv))
				}
				for i, ku := range ks {
					for j, kv := range ks {
						o := b
						o.Ballot.U = zFF.Lin(b.Ballot.U, bi(1), zFF.Generator(), new(big.Int).Mul(d[0], ku), e.pp.EGPK, new(big.Int).Mul(d[1], ku))
						o.Ballot.V = zFF.Lin(b.Ballot.V, bi(1), zFF.Generator(), new(big.Int).Mul(d[0], kv), e.pp.EGPK, new(big.Int).Mul(d[1], kv))
						c.State(fmt.Sprint("fault", op, di, i, j))
						if _, err := zJudge(c, o, e, "ciphertext chosen late"); err != nil {
							return "", err
						}
					}
				}
				return "only well-formed ciphertexts accepted", nil
			})
		}
	}
	// 4c. Every assignment of an element alphabet to ciphertext and first move, with the
	// derived challenge and responses made for every choice of equations.
	{
		var b BallotData
		vk.Fresh(12)
		var g1, g2 *big.Int
		b.BpLower, g1, _ = bulletproofs.Prove(bi(500-101), e.pp.BPParams)
		b.BpUpper, g2, _ = bulletproofs.Prove(bi(2000-500), e.pp.BPParams)
		st := checks.Stmt{X: bi(500), Rp: bi(987654321), Rq1: g1, Rq2: new(big.Int).Sub(e.ec.N(), g2)}
		o := checks.NewOracle(e.pp.RPParams, st, 13)
		if !o.OK {
			c.Note("elements are not made by one operation each", 1)
		}
		depth := 2
		if c.Thorough() {
			depth = 4
		}
		for _, ss := range checks.Subsets([]string{"Y", "Xp", "W", "Kp", "Kq1", "Kq2"}, depth) {
			ss := ss
			if !o.OK {
				break
			}
			key := fmt.Sprintf("elements/%v", ss)
			c.Case(key, func() (string, error) {
				err := o.Each(ss, func(t checks.Trans) error {
					pr, cm, ok := o.Run(t)
					if !ok {
						return nil
					}
					c.State(fmt.Sprint(key, t["Y"].Text(), t["Xp"].Text(), t["W"].Text(), t["Kp"].Text(), t["Kq1"].Text(), t["Kq2"].Text()))
					return o.Responses(t, pr, func(q voteproof.SigmaProof) error {
						d := b
						d.Ballot.U, d.Ballot.V, d.VoteProof = cm.Y, cm.Xp, q
						_, err := zJudge(c, d, e, fmt.Sprintf("elements %v replaced", ss))
						return err
					})
				})
				return "only well-formed ciphertexts accepted", err
			})
		}
	}
	// 4d. Valid bound proofs about unrelated numbers, with the challenge derived for the very
	// commitments the collector computes from them and responses for every choice of equations.
	for _, cf := range [][2]uint16{{101, 2000}, {0, 65535}, {0, 1899}, {63636, 65535}, {7, 7}, {0, 0}, {65535, 65535}, {7, 8}} {
		cf := cf
		l, h := int64(cf[0]), int64(cf[1])
		w := h - l
		set := func(xs ...int64) (out []int64) {
			seen := map[int64]bool{}
			for _, x := range xs {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			return
		}
		for _, ct := range set(l-1, l, (l+h)/2, h, h+1) {
			for _, lo := range set(0, 1, w, w+1, w/2) {
				ct, lo := ct, lo
				key := fmt.Sprintf("bounds/%d-%d/ct=%d/lo=%d", l, h, ct, lo)
				c.Case(key, func() (string, error) {
					e := zIdeal(cf[0], cf[1])
					for _, hi := range set(0, 1, w, w+1, w/2, h-ct) {
						if lo > 65535 || hi > 65535 || lo < 0 || hi < 0 {
							continue
						}
						vk.Fresh(21)
						var b BallotData
						var g1, g2 *big.Int
						var err error
						if b.BpLower, g1, err = bulletproofs.Prove(bi(lo), e.pp.BPParams); err != nil {
							return "", err
						}
						if b.BpUpper, g2, err = bulletproofs.Prove(bi(hi), e.pp.BPParams); err != nil {
							return "", err
						}
						st := checks.Stmt{X: bi(ct), Rp: bi(987654321), Rq1: g1, Rq2: new(big.Int).Sub(e.ec.N(), g2)}
						o := &checks.Oracle{}
						_ = vk.Guard(func() error { o = checks.NewOracle(e.pp.RPParams, st, 23); return nil })
						if !o.OK {
							c.Note("elements are not made by one operation each", 1)
							continue
						}
						t := checks.Trans{}
						for k, v := range o.Base {
							t[k] = v
						}
						t["Xq1"] = zEC.Lin(b.BpLower.V, bi(1), zEC.Generator(), bi(l))
						t["Xq2"] = zEC.Lin(zEC.Generator(), bi(h), b.BpUpper.V, bi(-1))
						pr, cm, ok := o.Run(t)
						if !ok {
							continue
						}
						c.State(fmt.Sprint(key, hi))
						if err := o.Responses(t, pr, func(q voteproof.SigmaProof) error {
							d := b
							d.Ballot.U, d.Ballot.V, d.VoteProof = cm.Y, cm.Xp, q
							_, err := zJudge(c, d, e, fmt.Sprintf("bounds proved about %d and %d", lo, hi))
							return err
						}); err != nil {
							return "", err
						}
					}
					return "only consistent bounds accepted", nil
				})
			}
		}
	}
	// 5. Real groups: the invalid ballots of families 1 and 2 replayed.
	for _, g := range checks.Curves() {
		g := g
		for _, cf := range [][2]uint16{{101, 2000}, {0, 65534}} {
			cf := cf
			for _, x := range []int64{-5, 0, int64(cf[0]) - 1, int64(cf[0]), int64(cf[1]), int64(cf[1]) + 1, 65535} {
				x := x
				c.Case(fmt.Sprintf("real/%s/%d-%d/%d", g.Name(), cf[0], cf[1], x), func() (string, error) {
					return zRealChoice(c, g, cf, x)
				})
			}
		}
	}
}

func zRealChoice(c *vk.Ctx, g group.Group, cf [2]uint16, x int64) (string, error) {
	bi := func(x int64) *big.Int { return big.NewInt(x) }
	e := zReal(g, cf[0], cf[1], false)
	dl, dh := x-int64(cf[0]), int64(cf[1])-x
	valid := dl >= 0 && dh >= 0
	for _, w := range []zWit{
		{bi(x), bi(dl), bi(dh), bi(x)},
		{bi(x), bi(int64(uint16(dl))), bi(int64(uint16(dh))), bi(x)},
		{bi(x), bi(0), bi(dh), bi(x)},
		{bi(x), bi(dl), bi(0), bi(x)},
		{bi(x), bi(0), bi(int64(cf[1]) - int64(cf[0])), bi(int64(cf[0]))},
		{bi(x), bi(int64(cf[1]) - int64(cf[0])), bi(0), bi(x)},
	} {
		b, err := zAssemble(e, w, 5)
		if err != nil {
			continue
		}
		c.Validated(1)
		c.Trans(1)
		ok := zVerify(b, e)
		same := w.Eq.Cmp(w.Ct) == 0 && new(big.Int).Add(w.Lo, bi(int64(cf[0]))).Cmp(w.Ct) == 0 && new(big.Int).Sub(bi(int64(cf[1])), w.Hi).Cmp(w.Ct) == 0
		if ok && !(valid && same) {
			return "", vk.Errf("accepted %v for the range %v", w, cf)
		}
		if !ok && valid && same {
			return "", vk.Errf("valid ballot rejected %v", w)
		}
	}
	return "accepted exactly in the range (real groups)", nil
}
