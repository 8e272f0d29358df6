package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C10"] = c10
	vk.Describe("C10", "one case = a family of verifier runs on transcripts produced by faulted provers, simulated transcripts, window-edge transcripts or mutated components; acceptance is judged by reading the secrets in the ideal groups",
		"adversaries outside the enumerated families are not covered")
}

// shiftComm adds d1*G + d2*H to one element of the statement.
func shiftComm(p voteproof.ProofParams, c voteproof.VerCommitments, slot string, d1, d2 *big.Int) voteproof.VerCommitments {
	sh := func(e group.Element, gp voteproof.GroupParameters) group.Element {
		return gp.I.Element().Add(e, Commit(gp.I, gp.H, d1, d2))
	}
	switch slot {
	case "Y":
		c.Y = sh(c.Y, p.GFF)
	case "Xp":
		c.Xp = sh(c.Xp, p.GFF)
	case "Xq1":
		c.Xq1 = sh(c.Xq1, p.GEC)
	case "Xq2":
		c.Xq2 = sh(c.Xq2, p.GEC)
	}
	return c
}

// lateShifts are the multiples of a fault by which a statement part may make up for it: as
// it is, and divided by the challenge (the part is chosen after the challenge).
func lateShifts(p voteproof.ProofParams, slot string, ch *big.Int) []*big.Int {
	n := p.GEC.N
	if slot == "Y" || slot == "Xp" {
		n = p.GFF.N
	}
	out := []*big.Int{B(1)}
	if ch != nil {
		if inv := new(big.Int).ModInverse(ch, n); inv != nil {
			out = append(out, new(big.Int).Neg(inv), inv)
		}
	}
	return out
}

func c10(c *vk.Ctx) {
	ff, ec := vk.NewIdeal("idealff", NFF), vk.NewIdeal("ideal256", Q256)
	p := VPParams(ff, ec, 16, 224, 256, 101, 2000)
	base := Stmt{B(1234), B(777), B(888), B(999)}
	slots := []string{"Y", "Xp", "Xq1", "Xq2"}
	zero := B(0)

	// 1. Faulted provers: one or two group operations of the prover are shifted; the
	// statement is shifted accordingly in every way. Hash-consistent cheating runs arise
	// where the fault hits the statement inside the prover.
	countOps := func() (int, int) {
		vk.Fresh(11)
		a, b := ff.Ops(), ec.Ops()
		base.Prove(p)
		return ff.Ops() - a, ec.Ops() - b
	}
	nf, ne := countOps()
	type fault struct {
		ffside bool
		op     int
	}
	var faults []fault
	for i := 0; i < nf; i++ {
		faults = append(faults, fault{true, i})
	}
	for i := 0; i < ne; i++ {
		faults = append(faults, fault{false, i})
	}
	proveFaulted := func(fs []fault, ds [][2]*big.Int) voteproof.SigmaProof {
		install := func(g *vk.IGroup, ffside bool, h group.Element) {
			start := g.Ops()
			g.Mangle = func(i int, op string, e *vk.IElem) {
				for k, f := range fs {
					if f.ffside == ffside && i-start == f.op {
						e.C = g.Lin(&vk.IElem{G: g, C: e.C}, B(1), g.Generator(), ds[k][0], h, ds[k][1]).C
					}
				}
			}
		}
		install(ff, true, p.GFF.H)
		install(ec, false, p.GEC.H)
		defer func() { ff.Mangle, ec.Mangle = nil, nil }()
		vk.Fresh(11)
		return base.Prove(p)
	}
	deltas := [][2]*big.Int{{B(1), zero}, {B(-1), zero}, {zero, B(1)}, {B(65536), zero}, {B(5), B(3)}}
	judge := func(pr voteproof.SigmaProof, cm voteproof.VerCommitments, what string) (bool, error) {
		c.Trans(1)
		if !pr.Verify(cm) {
			return false, nil
		}
		if err := Consistent(p, cm); err != nil {
			return true, vk.Errf("accepted although %v (%s)", err, what)
		}
		return true, nil
	}
	for fi, f := range faults {
		for di, d := range deltas {
			f, d := f, d
			key := fmt.Sprintf("fault/%d/d=%d", fi, di)
			c.Case(key, func() (string, error) {
				pr := proveFaulted([]fault{f}, [][2]*big.Int{d})
				cm := base.Comm(p)
				n := 0
				if _, err := judge(pr, cm, "unshifted"); err != nil {
					return "", err
				}
				for _, s := range slots {
					for ki, k := range lateShifts(p, s, pr.Challenge) {
						c.State(fmt.Sprint(key, s, ki))
						acc, err := judge(pr, shiftComm(p, cm, s, mul(d[0], k), mul(d[1], k)), "shifted "+s)
						if err != nil {
							return "", err
						}
						if acc {
							n++
						}
					}
				}
				return "inconsistent statements rejected", nil
			})
		}
	}
	for i := range faults {
		for j := i + 1; j < len(faults); j++ {
			for di, d := range [][2]*big.Int{{B(1), zero}, {B(7), B(7)}} {
				fi, fj, d := faults[i], faults[j], d
				key := fmt.Sprintf("fault2/%d,%d/d=%d", i, j, di)
				c.Case(key, func() (string, error) {
					pr := proveFaulted([]fault{fi, fj}, [][2]*big.Int{d, d})
					cm := base.Comm(p)
					for _, s := range slots {
						for _, s2 := range slots {
							if s2 <= s {
								continue
							}
							for ki, k := range lateShifts(p, s, pr.Challenge) {
								for kj, l := range lateShifts(p, s2, pr.Challenge) {
									cm2 := shiftComm(p, shiftComm(p, cm, s, mul(d[0], k), mul(d[1], k)), s2, mul(d[0], l), mul(d[1], l))
									c.State(fmt.Sprint(key, s, s2, ki, kj))
									if _, err := judge(pr, cm2, "shifted "+s+" and "+s2); err != nil {
										return "", err
									}
								}
							}
						}
					}
					return "inconsistent statements rejected", nil
				})
			}
		}
	}
	// 1b. Every assignment of an element alphabet (identity, a base, its partner, shifts) to
	// the elements of statement and first move, with the derived challenge and responses
	// made for every choice of equations.
	depth := 4
	if c.Thorough() {
		depth = 6
	}
	for bi, st := range []Stmt{base, {B(0), B(777), B(888), B(999)}} {
		o := NewOracle(p, st, 11)
		if !o.OK {
			c.Note("elements are not made by one operation each", 1)
			continue
		}
		for _, ss := range Subsets(TSlots, depth) {
			bi, ss := bi, ss
			key := fmt.Sprintf("elements/%d/%v", bi, ss)
			c.Case(key, func() (string, error) {
				err := o.Each(ss, func(t Trans) error {
					pr, cm, ok := o.Run(t)
					if !ok {
						return nil
					}
					c.State(fmt.Sprint(key, t["Y"].Text(), t["Xp"].Text(), t["W"].Text(), t["Kp"].Text(), t["Xq1"].Text(), t["Xq2"].Text(), t["Kq1"].Text(), t["Kq2"].Text()))
					return o.Responses(t, pr, func(q voteproof.SigmaProof) error {
						_, err := judge(q, cm, fmt.Sprintf("elements %v replaced", ss))
						return err
					})
				})
				return "inconsistent statements rejected", err
			})
		}
	}
	// 1c. A prover with a nonce of its own choice (negative, or beyond every bound), all equations
	// satisfied: the response decides, over the integers.
	if o := NewOracle(p, Stmt{B(0), B(777), B(888), B(999)}, 11); o.OK {
		lo, hi := Window(p)
		lcm := mul(p.GFF.N, p.GEC.N)
		neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
		var zs []*big.Int
		for d := int64(-2); d <= 2; d++ {
			zs = append(zs, B(d), add(lo, B(d)), add(hi, B(d)), neg(add(lo, B(d))), neg(add(hi, B(d))), add(p.GEC.N, B(d)), neg(add(p.GEC.N, B(d))), add(p.GFF.N, B(d)))
		}
		for _, in := range []*big.Int{lo, add(lo, B(17)), new(big.Int).Rsh(hi, 1), sub(hi, B(1))} {
			for _, k := range []*big.Int{B(1), B(-1), B(2), B(-2), Pow2(64), neg(Pow2(64))} {
				zs = append(zs, add(in, mul(lcm, k)))
			}
			for _, sh := range []int{1, 2, 8, 15, 16, 32, 64, 128, 256, 512} {
				zs = append(zs, new(big.Int).Lsh(in, uint(sh)), new(big.Int).Rsh(in, uint(sh)), neg(new(big.Int).Lsh(in, uint(sh))), add(in, Pow2(hi.BitLen()-1+sh)), sub(in, Pow2(hi.BitLen()-1+sh)))
			}
			zs = append(zs, in, neg(in))
		}
		for zi, z := range zs {
			z := z
			c.Case(fmt.Sprintf("window/own/%d", zi), func() (string, error) {
				t := Trans{}
				for s, e := range o.Base {
					t[s] = e
				}
				tp, t1, t2 := B(31), B(37), B(41)
				t["W"] = El(ff.Element().BaseScale(tp))
				t["Kp"] = El(Commit(ff, p.GFF.H, z, tp))
				t["Kq1"] = El(Commit(ec, p.GEC.H, z, t1))
				t["Kq2"] = El(Commit(ec, p.GEC.H, z, t2))
				pr, cm, ok := o.Run(t)
				if !ok || El(pr.W).Text() != t["W"].Text() || El(pr.Kq2).Text() != t["Kq2"].Text() {
					return "not applicable", nil
				}
				pr.Z = z
				pr.Sp = mod(add(tp, mul(pr.Challenge, o.St.Rp)), p.GFF.N)
				pr.Sq1 = mod(add(t1, mul(pr.Challenge, o.St.Rq1)), p.GEC.N)
				pr.Sq2 = mod(add(t2, mul(pr.Challenge, o.St.Rq2)), p.GEC.N)
				in := z.Cmp(lo) >= 0 && z.Cmp(hi) < 0
				c.Trans(1)
				c.State(fmt.Sprint("own|", z))
				if got := pr.Verify(cm); got != in {
					return "", vk.Errf("response %v, window [%v,%v): verdict %v", z, lo, hi, got)
				}
				return "verdict matches the window", nil
			})
		}
	}
	// 2. The library prover for one secret against statements with other secrets.
	vals := []int64{0, 1, 2, 101, 1234, 65535}
	for _, a := range vals {
		for _, b1 := range vals {
			for _, b2 := range vals {
				for _, b3 := range vals {
					a, b1, b2, b3 := a, b1, b2, b3
					key := fmt.Sprintf("assign/%d/%d,%d,%d", a, b1, b2, b3)
					c.Case(key, func() (string, error) {
						st := Stmt{B(a), B(5), B(6), B(7)}
						vk.Fresh(Seed(key))
						pr := st.Prove(p)
						cm := voteproof.VerCommitments{
							Y: ff.Element().BaseScale(st.Rp), Xp: Commit(ff, p.GFF.H, B(b1), st.Rp),
							Xq1: Commit(ec, p.GEC.H, B(b2), st.Rq1), Xq2: Commit(ec, p.GEC.H, B(b3), st.Rq2)}
						same := a == b1 && b1 == b2 && b2 == b3
						c.Trans(2)
						c.State(key)
						ok := pr.Verify(cm)
						if ok && !same {
							return "", vk.Errf("accepted: proof for %d, statement (%d,%d,%d)", a, b1, b2, b3)
						}
						if !ok && same {
							return "", vk.Errf("rejected a true statement")
						}
						return map[bool]string{true: "true accepted", false: "false rejected"}[same], nil
					})
				}
			}
		}
	}
	// 3. Window edges: proofs made under widened parameters with a forced nonce (secret 0, so
	// z = nonce), checked under the true parameters.
	edge := func(tag string, p voteproof.ProofParams, xs []int64) {
		lo, hi := Window(p)
		wide := []voteproof.ProofParams{p, p}
		wide[0].Bx, wide[0].Bb = p.Bx-1, p.Bb+1
		wide[1].Bb = p.Bb + 1
		for wi, w := range wide {
			w := w
			var ks []*big.Int
			for d := int64(-2); d <= 2; d++ {
				ks = append(ks, add(lo, B(d)), add(hi, B(d)), add(mul(hi, B(2)), B(d-3)), add(new(big.Int).Rsh(lo, 1), B(d+2)))
			}
			for ki, k := range ks {
				for _, x := range xs {
					k, x := k, x
					c.Case(fmt.Sprintf("window/%s/wide%d/k%d/x=%d", tag, wi, ki, x), func() (string, error) {
						at, _, err := probeNonce(w)
						if err != nil {
							return "not applicable", nil
						}
						st := Stmt{B(x), B(1), B(2), B(3)}
						vk.With(8, map[int]vk.Deviation{at: {Kind: "value", Val: k}})
						pr := st.Prove(w)
						cm := st.Comm(p)
						pr.Params = p
						in := pr.Z.Cmp(lo) >= 0 && pr.Z.Cmp(hi) < 0
						c.Trans(2)
						c.State(fmt.Sprintf("%s|%d|%v", tag, wi, pr.Z))
						if _, ideal := p.GEC.I.(*vk.IGroup); !ideal {
							c.Validated(1)
						}
						ok := pr.Verify(cm)
						if ok && !in {
							return "", vk.Errf("response %v outside [%v,%v) accepted", pr.Z, lo, hi)
						}
						if !ok && in {
							return "", vk.Errf("valid transcript with response %v rejected", pr.Z)
						}
						return map[bool]string{true: "inside accepted", false: "outside rejected"}[in], nil
					})
				}
			}
		}
	}
	edge("full", p, []int64{0, 1, 65535})
	LenGrid(func(tag string, p voteproof.ProofParams) {
		if p.Bb == 8 || p.Bb == 143 {
			edge("lengths/"+tag, p, []int64{0})
		}
	})
	e16 := vk.NewIdeal("ideal16", Q16)
	toyFF := vk.NewIdeal("toyff", Q61)
	toy := VPParams(toyFF, e16, 2, 8, 15, 0, 3)
	edge("toy", toy, []int64{0, 1, 2, 3})
	for _, g := range Curves() {
		edge("real/"+g.Name(), VPParams(SafeGroup(Safe320), g, 16, 224, capBits(g), 101, 2000), []int64{0})
	}
	// Complete toy: every nonce of both widened windows.
	{
		lo, hi := Window(toy)
		for wi := 0; wi < 2; wi++ {
			w := toy
			if wi == 0 {
				w.Bx, w.Bb = toy.Bx-1, toy.Bb+1
			} else {
				w.Bb = toy.Bb + 1
			}
			wlo, whi := Window(w)
			for k0 := wlo.Int64(); k0 < whi.Int64(); k0 += 64 {
				wi, k0 := wi, k0
				c.Case(fmt.Sprintf("window/toy-all/wide%d/k=%d", wi, k0), func() (string, error) {
					at, _, err := probeNonce(w)
					if err != nil {
						return "not applicable", nil
					}
					for k := k0; k < k0+64 && k < whi.Int64(); k++ {
						st := Stmt{B(k % 4), B(1), B(2), B(3)}
						vk.With(uint64(k), map[int]vk.Deviation{at: {Kind: "value", Val: B(k)}})
						pr := st.Prove(w)
						pr.Params = toy
						in := pr.Z.Cmp(lo) >= 0 && pr.Z.Cmp(hi) < 0
						c.Trans(2)
						c.State(fmt.Sprintf("toyall|%d|%d|%v", wi, k, pr.Z))
						if pr.Verify(st.Comm(toy)) != in {
							return "", vk.Errf("response %v, window [%v,%v): verdict %v", pr.Z, lo, hi, !in)
						}
					}
					return "verdict matches the window", nil
				})
			}
		}
	}
	// 4. Simulated transcripts: challenge chosen first, commitments solved for.
	for ci, ch := range []*big.Int{B(0), B(1), B(2), sub(Pow2(224), B(1)), Pow2(223), B(255), new(big.Int).Lsh(B(0xabcdef), 200)} {
		for _, tr := range [][3]int64{{1, 1, 1}, {1, 2, 1}, {5, 1, 1}, {1, 1, 9}, {65535, 0, 7}} {
			ch, tr := ch, tr
			c.Case(fmt.Sprintf("simulate/c%d/%d,%d,%d", ci, tr[0], tr[1], tr[2]), func() (string, error) {
				lo, _ := Window(p)
				z := add(lo, B(12345))
				sp, s1, s2 := B(111), B(222), B(333)
				cm := voteproof.VerCommitments{Y: ff.Element().BaseScale(B(50)), Xp: Commit(ff, p.GFF.H, B(tr[0]), B(50)),
					Xq1: Commit(ec, p.GEC.H, B(tr[1]), B(60)), Xq2: Commit(ec, p.GEC.H, B(tr[2]), B(70))}
				neg := new(big.Int).Neg(ch)
				var pr voteproof.SigmaProof
				pr.Params = p
				pr.W = ff.Lin(ff.Generator(), sp, cm.Y, neg)
				pr.Kp = ff.Lin(ff.Generator(), z, p.GFF.H, sp, cm.Xp, neg)
				pr.Kq1 = ec.Lin(ec.Generator(), z, p.GEC.H, s1, cm.Xq1, neg)
				pr.Kq2 = ec.Lin(ec.Generator(), z, p.GEC.H, s2, cm.Xq2, neg)
				pr.Challenge, pr.Z, pr.Sp, pr.Sq1, pr.Sq2 = ch, z, sp, s1, s2
				c.Trans(1)
				c.State(fmt.Sprintf("sim|%d|%v", ci, tr))
				if pr.Verify(cm) {
					return "", vk.Errf("simulated transcript with a chosen challenge accepted")
				}
				return "rejected", nil
			})
		}
	}
	// 4b. A challenge that is not the derived one, with all responses made for it: the
	// equations hold, only the comparison with the derived challenge can notice.
	rechallenge := func(tag string, p voteproof.ProofParams, st Stmt) {
		one := B(1)
		var cs []string
		alter := map[string]func(*big.Int) *big.Int{}
		put := func(n string, f func(*big.Int) *big.Int) { cs = append(cs, n); alter[n] = f }
		for j := 0; j < int(p.Bc)+40; j++ {
			j := j
			put(fmt.Sprintf("bit%d", j), func(c *big.Int) *big.Int { return new(big.Int).Xor(c, Pow2(j)) })
			put(fmt.Sprintf("low%d", j), func(c *big.Int) *big.Int { return mod(c, Pow2(j)) })
			put(fmt.Sprintf("high%d", j), func(c *big.Int) *big.Int { return sub(c, mod(c, Pow2(j))) })
		}
		for k := int64(1); k <= 3; k++ {
			k := k
			put(fmt.Sprintf("plus%d", k), func(c *big.Int) *big.Int { return add(c, B(k)) })
			put(fmt.Sprintf("minus%d", k), func(c *big.Int) *big.Int { return sub(c, B(k)) })
			put(fmt.Sprintf("plusN%d", k), func(c *big.Int) *big.Int { return add(c, mul(p.GEC.N, B(k))) })
			put(fmt.Sprintf("minusN%d", k), func(c *big.Int) *big.Int { return sub(c, mul(p.GEC.N, B(k))) })
			put(fmt.Sprintf("plusNff%d", k), func(c *big.Int) *big.Int { return add(c, mul(p.GFF.N, B(k))) })
			put(fmt.Sprintf("minusNff%d", k), func(c *big.Int) *big.Int { return sub(c, mul(p.GFF.N, B(k))) })
		}
		put("neg", func(c *big.Int) *big.Int { return new(big.Int).Neg(c) })
		put("zero", func(c *big.Int) *big.Int { return B(0) })
		put("one", func(c *big.Int) *big.Int { return one })
		put("full", func(c *big.Int) *big.Int { return sub(Pow2(int(p.Bc)), one) })
		put("reversed", func(c *big.Int) *big.Int {
			b := c.FillBytes(make([]byte, p.Bc/8))
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return new(big.Int).SetBytes(b)
		})
		for _, n := range cs {
			n := n
			c.Case("rechallenge/"+tag+"/"+n, func() (string, error) {
				vk.Fresh(31)
				pr := st.Prove(p)
				cm := st.Comm(p)
				if !pr.Verify(cm) {
					return "", vk.Errf("base transcript does not verify")
				}
				ch := alter[n](pr.Challenge)
				d := sub(ch, pr.Challenge)
				if d.Sign() == 0 {
					return "unchanged", nil
				}
				q := pr
				q.Challenge = ch
				q.Z = add(pr.Z, mul(d, st.X))
				q.Sp = mod(add(pr.Sp, mul(d, st.Rp)), p.GFF.N)
				q.Sq1 = mod(add(pr.Sq1, mul(d, st.Rq1)), p.GEC.N)
				q.Sq2 = mod(add(pr.Sq2, mul(d, st.Rq2)), p.GEC.N)
				c.Trans(1)
				c.State("rechallenge" + tag + n)
				if _, ideal := p.GEC.I.(*vk.IGroup); !ideal {
					c.Validated(1)
				}
				var ok bool
				if err := vk.Guard(func() error { ok = q.Verify(cm); return nil }); err != nil {
					return "rejected (panic)", nil
				}
				if ok {
					return "", vk.Errf("transcript with the challenge %v accepted, the derived one is %v", ch, pr.Challenge)
				}
				return "rejected", nil
			})
		}
	}
	rechallenge("full/0", p, Stmt{B(0), B(777), B(888), B(999)})
	rechallenge("full/1234", p, base)
	rechallenge("toy", VPParams(vk.NewIdeal("toyff61", Q61), vk.NewIdeal("toyec16", Q16), 2, 8, 15, 0, 3), Stmt{B(0), B(7), B(8), B(9)})
	for _, g := range Curves() {
		rechallenge("real/"+g.Name(), VPParams(SafeGroup(Safe320), g, 16, 224, capBits(g), 101, 2000), Stmt{B(0), B(7), B(8), B(9)})
	}
	// 5. Statement chosen last: z and the statement shifted together.
	for _, d := range []*big.Int{B(1), B(-1), B(65536), Pow2(230)} {
		for _, who := range []string{"all", "Xp", "Xq1", "Xq2", "sp", "sq1", "sq2"} {
			d, who := d, who
			c.Case(fmt.Sprintf("late-statement/%v/%s", d, who), func() (string, error) {
				vk.Fresh(21)
				pr := base.Prove(p)
				cm := base.Comm(p)
				if pr.Challenge.Sign() == 0 {
					return "not applicable", nil
				}
				cf := new(big.Int).ModInverse(pr.Challenge, NFF)
				ce := new(big.Int).ModInverse(pr.Challenge, Q256)
				df, de := mul(d, cf), mul(d, ce)
				switch who {
				case "all":
					pr.Z = add(pr.Z, d)
					cm.Xp = ff.Lin(cm.Xp, B(1), ff.Generator(), df)
					cm.Xq1 = ec.Lin(cm.Xq1, B(1), ec.Generator(), de)
					cm.Xq2 = ec.Lin(cm.Xq2, B(1), ec.Generator(), de)
				case "Xp":
					pr.Kp = ff.Lin(pr.Kp, B(1), ff.Generator(), d)
					cm.Xp = ff.Lin(cm.Xp, B(1), ff.Generator(), new(big.Int).Neg(df))
				case "Xq1":
					pr.Kq1 = ec.Lin(pr.Kq1, B(1), ec.Generator(), d)
					cm.Xq1 = ec.Lin(cm.Xq1, B(1), ec.Generator(), new(big.Int).Neg(de))
				case "Xq2":
					pr.Kq2 = ec.Lin(pr.Kq2, B(1), ec.Generator(), d)
					cm.Xq2 = ec.Lin(cm.Xq2, B(1), ec.Generator(), new(big.Int).Neg(de))
				case "sp":
					pr.Sp = add(pr.Sp, d)
					cm.Y = ff.Lin(cm.Y, B(1), ff.Generator(), df)
					cm.Xp = ff.Lin(cm.Xp, B(1), p.GFF.H, df)
				case "sq1":
					pr.Sq1 = add(pr.Sq1, d)
					cm.Xq1 = ec.Lin(cm.Xq1, B(1), p.GEC.H, de)
				case "sq2":
					pr.Sq2 = add(pr.Sq2, d)
					cm.Xq2 = ec.Lin(cm.Xq2, B(1), p.GEC.H, de)
				}
				c.Trans(1)
				if pr.Verify(cm) {
					return "", vk.Errf("statement shifted after the fact (%s by %v) accepted", who, d)
				}
				return "rejected", nil
			})
		}
	}
	// 6. Single-component mutations.
	mutateSt := func(tag string, p voteproof.ProofParams, st Stmt, dev map[int]vk.Deviation) {
		for _, cm := range VPComps() {
			cm := cm
			key := fmt.Sprintf("mutate/%s/x=%v/%s", tag, st.X, cm.Name)
			c.Case(key, func() (string, error) {
				vk.With(5, dev)
				a := VPAll{st.Prove(p), st.Comm(p)}
				if !a.Verify() {
					return "", vk.Errf("base transcript does not verify")
				}
				for _, r := range VPRepls(a, cm) {
					m := a
					if cm.E != nil {
						*cm.E(&m) = r.E
					} else {
						*cm.S(&m) = r.S
					}
					c.Trans(1)
					c.State(key + r.Name)
					if _, ideal := p.GEC.I.(*vk.IGroup); !ideal {
						c.Validated(1)
					}
					if m.Verify() {
						return "", vk.Errf("accepted with %s replaced (%s)", cm.Name, r.Name)
					}
				}
				return "all replacements rejected", nil
			})
		}
	}
	mutate := func(tag string, p voteproof.ProofParams, x int64) {
		mutateSt(tag, p, Stmt{B(x), B(31), B(32), B(33)}, nil)
	}
	for _, x := range []int64{0, 1, 101, 65535} {
		mutate("ideal", p, x)
	}
	// Unusual blinding values, equal to one another or to nothing; draws at zero.
	tuples(3, []*big.Int{B(0), B(1), B(31)}, func(v []*big.Int) {
		for _, x := range []int64{0, 101} {
			mutateSt(fmt.Sprintf("blind-%v", vecKey(v)), p, Stmt{B(x), v[0], v[1], v[2]}, nil)
		}
	})
	for d := 0; d < 8; d++ {
		mutateSt(fmt.Sprintf("draw%d=0", d), p, Stmt{B(101), B(31), B(32), B(33)}, map[int]vk.Deviation{d: {Kind: "value", Val: B(0)}})
	}
	for _, g := range Curves() {
		mutate(g.Name(), VPParams(SafeGroup(Safe320), g, 16, 224, capBits(g), 101, 2000), 500)
	}
	mutate("P-256/3072", VPParams(MODP3072(), group.P256(), 16, 224, 256, 101, 2000), 500)
	// Every combination of lengths of a grid.
	LenGrid(func(tag string, q voteproof.ProofParams) {
		if !c.Thorough() && q.Bb != 8 && q.Bb != 143 {
			return
		}
		c.Case("lengths/"+tag, func() (string, error) {
			for _, x := range []*big.Int{B(1), sub(Pow2(int(q.Bx)), B(1))} {
				st := Stmt{x, B(31), B(32), B(33)}
				vk.Fresh(Seed("lengths" + tag))
				a := VPAll{st.Prove(q), st.Comm(q)}
				if !a.Verify() {
					return "", vk.Errf("base transcript does not verify")
				}
				for _, cm := range VPComps() {
					for _, r := range VPRepls(a, cm) {
						m := a
						if cm.E != nil {
							*cm.E(&m) = r.E
						} else {
							*cm.S(&m) = r.S
						}
						c.Trans(1)
						c.State(tag + cm.Name + r.Name)
						if m.Verify() {
							return "", vk.Errf("accepted with %s replaced (%s)", cm.Name, r.Name)
						}
					}
				}
			}
			return "all replacements rejected", nil
		})
	})
	// 7. Other parameters.
	others := map[string]func(*voteproof.ProofParams){
		"EC H":   func(q *voteproof.ProofParams) { q.GEC.H = hashed(ec, "other") },
		"FF H":   func(q *voteproof.ProofParams) { q.GFF.H = hashed(ff, "other") },
		"Bc 216": func(q *voteproof.ProofParams) { q.Bc, q.Bx = 216, 24 },
		"Bc 232": func(q *voteproof.ProofParams) { q.Bc, q.Bx = 232, 8 },
	}
	for _, o := range sortedKeys(others) {
		o := o
		c.Case("params/"+o, func() (string, error) {
			vk.Fresh(6)
			pr := base.Prove(p)
			q := p
			others[o](&q)
			pr.Params = q
			if pr.Verify(base.Comm(p)) {
				return "", vk.Errf("transcript accepted under other parameters (%s)", o)
			}
			return "rejected", nil
		})
	}
}
