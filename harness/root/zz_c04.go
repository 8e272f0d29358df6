package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C04"] = zC04
	vk.Describe("C04", "one case = one ballot judged by a collector whose parameters differ from the ones the ballot was made under or carries; the carried parameters are replaced in the structure and in the JSON document",
		"the collector decodes received documents under its own parameters before verifying")
}

// zReceive decodes a received document and gives the collector's verdict.
func zReceive(doc []byte, e zEnv) (bool, error) {
	var ok bool
	err := vk.Guard(func() error {
		b, err := BallotDataUnmarshalJSON(doc, e.pp)
		if err != nil {
			return nil
		}
		ok = zVerify(b, e)
		return nil
	})
	return ok, err
}

func zMust(b BallotData) []byte {
	j, err := json.Marshal(b)
	if err != nil {
		panic(err)
	}
	return j
}

// zOther derives an election that differs from e in one respect.
var zOthers = map[string]func(e zEnv) zEnv{
	"range lo+1":  func(e zEnv) zEnv { return zElection(e.ff, e.ec, e.pp.candidateMin+1, e.pp.candidateMax) },
	"range lo-1":  func(e zEnv) zEnv { return zElection(e.ff, e.ec, e.pp.candidateMin-1, e.pp.candidateMax) },
	"range hi+1":  func(e zEnv) zEnv { return zElection(e.ff, e.ec, e.pp.candidateMin, e.pp.candidateMax+1) },
	"range hi-1":  func(e zEnv) zEnv { return zElection(e.ff, e.ec, e.pp.candidateMin, e.pp.candidateMax-1) },
	"range full":  func(e zEnv) zEnv { return zElection(e.ff, e.ec, 0, 65535) },
	"range shift": func(e zEnv) zEnv { return zElection(e.ff, e.ec, e.pp.candidateMin+1, e.pp.candidateMax+1) },
	"other key": func(e zEnv) zEnv {
		e.pp.EGPK = e.ff.Element().Add(e.pp.EGPK, e.ff.Generator())
		e.pp.FFGroupParams.H = e.pp.EGPK
		e.pp.RPParams.GFF.H = e.pp.EGPK
		return e
	},
	"key of known log": func(e zEnv) zEnv {
		e.pp.EGPK = e.ff.Element().BaseScale(big.NewInt(5))
		e.pp.FFGroupParams.H = e.pp.EGPK
		e.pp.RPParams.GFF.H = e.pp.EGPK
		return e
	},
	"other H": func(e zEnv) zEnv { return zWithH(e, zHash(e.ec, "another generator")) },
	"known H": func(e zEnv) zEnv { return zWithH(e, e.ec.Element().BaseScale(big.NewInt(3))) },
	"other Gg": func(e zEnv) zEnv {
		e.pp.BPParams.Gg = append([]group.Element(nil), e.pp.BPParams.Gg...)
		e.pp.BPParams.Gg[3] = zHash(e.ec, "another generator")
		return e
	},
	"known Gg": func(e zEnv) zEnv {
		e.pp.BPParams.Gg = append([]group.Element(nil), e.pp.BPParams.Gg...)
		e.pp.BPParams.Gg[0] = e.ec.Element().BaseScale(big.NewInt(7))
		return e
	},
	"other Hh": func(e zEnv) zEnv {
		e.pp.BPParams.Hh = append([]group.Element(nil), e.pp.BPParams.Hh...)
		e.pp.BPParams.Hh[15] = zHash(e.ec, "another generator")
		return e
	},
	"swapped vectors": func(e zEnv) zEnv {
		e.pp.BPParams.Gg, e.pp.BPParams.Hh = e.pp.BPParams.Hh, e.pp.BPParams.Gg
		return e
	},
	"32-bit range": func(e zEnv) zEnv {
		p, err := bulletproofs.Setup(1<<32, e.ec)
		if err != nil {
			panic(err)
		}
		e.pp.BPParams = p
		return e
	},
	"8-bit range": func(e zEnv) zEnv {
		p, err := bulletproofs.Setup(256, e.ec)
		if err != nil {
			panic(err)
		}
		e.pp.BPParams = p
		return e
	},
	"Bc 216": func(e zEnv) zEnv { return zLens(e, 16, 216) },
	"Bc 208": func(e zEnv) zEnv { return zLens(e, 16, 208) },
	"Bc 8":   func(e zEnv) zEnv { return zLens(e, 16, 8) },
	"Bx 12":  func(e zEnv) zEnv { return zLens(e, 12, 224) },
	"Bx 24":  func(e zEnv) zEnv { return zLens(e, 24, 224) },
}

func zHash(g group.Group, s string) group.Element {
	x, err := g.Element().MapToGroup(s)
	if err != nil {
		panic(err)
	}
	return x
}

func zWithH(e zEnv, h group.Element) zEnv {
	e.pp.BPParams.H = h
	e.pp.ECGroupParams.H = h
	e.pp.RPParams.GEC.H = h
	return e
}

func zLens(e zEnv, bx uint8, bc uint16) zEnv {
	rp, err := voteproof.Setup(bx, bc, e.pp.RPParams.Bg, e.pp.candidateMin, e.pp.candidateMax, e.pp.RPParams.AlgebraicParameters)
	if err != nil {
		panic(err)
	}
	e.pp.RPParams = rp
	return e
}

// zCarried lists ways to alter the parameters carried inside a ballot.
func zCarried(e zEnv, o zEnv) map[string]func(*BallotData) {
	ipp := func(b *BallotData, f func(*bulletproofs.InnerProductParams)) {
		for _, p := range []*bulletproofs.BulletProof{&b.BpLower, &b.BpUpper} {
			q := p.InnerProductProof.Params
			q.Gg = append([]group.Element(nil), q.Gg...)
			q.Hh = append([]group.Element(nil), q.Hh...)
			f(&q)
			p.InnerProductProof.Params = q
		}
	}
	return map[string]func(*BallotData){
		"voteproof params": func(b *BallotData) { b.VoteProof.Params = o.pp.RPParams },
		"voteproof range": func(b *BallotData) {
			b.VoteProof.Params.RangeLo, b.VoteProof.Params.RangeHi = o.pp.RPParams.RangeLo, o.pp.RPParams.RangeHi
		},
		"voteproof window": func(b *BallotData) { b.VoteProof.Params.Bx, b.VoteProof.Params.Bb = 0, 100000 },
		"voteproof bc":     func(b *BallotData) { b.VoteProof.Params.Bc = 8 },
		"voteproof H": func(b *BallotData) {
			b.VoteProof.Params.GEC.H, b.VoteProof.Params.GFF.H = e.ec.Generator(), e.ff.Generator()
		},
		"voteproof identity H": func(b *BallotData) {
			b.VoteProof.Params.GEC.H, b.VoteProof.Params.GFF.H = e.ec.Identity(), e.ff.Identity()
		},
		"ipp uu": func(b *BallotData) { ipp(b, func(q *bulletproofs.InnerProductParams) { q.Uu = e.ec.Identity() }) },
		"ipp gens": func(b *BallotData) {
			ipp(b, func(q *bulletproofs.InnerProductParams) { q.Gg[0], q.Hh[0] = q.Hh[0], q.Gg[0] })
		},
		"ipp identity": func(b *BallotData) {
			ipp(b, func(q *bulletproofs.InnerProductParams) { q.Gg[1], q.Hh[1] = e.ec.Identity(), e.ec.Identity() })
		},
	}
}

func zC04(c *vk.Ctx) {
	envs := map[string]func() zEnv{"ideal": func() zEnv { return zIdeal(101, 2000) }}
	for _, g := range checks.Curves() {
		g := g
		envs[g.Name()] = func() zEnv { return zReal(g, 101, 2000, false) }
	}
	for _, en := range zSorted(envs) {
		en := en
		var e zEnv
		have := false
		env := func() zEnv {
			if !have {
				e, have = envs[en](), true
			}
			return e
		}
		// 1. Ballots made under other parameters.
		for _, on := range zSorted(zOthers) {
			on := on
			if on[:2] == "Bx" {
				continue // the secret length only moves the window: such a ballot is a valid ballot
			}
			c.Case(fmt.Sprintf("other/%s/%s", en, on), func() (string, error) {
				e := env()
				o := zOthers[on](e)
				for _, x := range []uint16{102, 103, 1000, 1998, 1999} {
					if o.pp.BPParams.N == 8 {
						// the short range proofs need a short range; use the values directly
						x = 102
					}
					var b BallotData
					if err := vk.Guard(func() error { b, _ = zCast(o, x, uint64(x), nil); return nil }); err != nil {
						return "", vk.Errf("casting under %s: %v", on, err)
					}
					c.State(fmt.Sprintf("other|%s|%s|%d", en, on, x))
					for name, f := range map[string]func() (bool, error){
						"document": func() (bool, error) { return zReceive(zMust(b), e) },
						"document with own params": func() (bool, error) {
							m := b
							m.VoteProof.Params = e.pp.RPParams
							return zReceive(zMust(m), e)
						},
						"direct": func() (bool, error) {
							m := b
							m.BpLower.Params, m.BpUpper.Params = e.pp.BPParams, e.pp.BPParams
							var ok bool
							err := vk.Guard(func() error { ok = zVerify(m, e); return nil })
							return ok, err
						},
					} {
						ok, err := f()
						c.Trans(1)
						if en != "ideal" {
							c.Validated(1)
						}
						if err != nil {
							return "", vk.Errf("collector crashed (%s): %v", name, err)
						}
						if ok {
							return "", vk.Errf("ballot made under other parameters (%s) accepted (%s, candidate %d)", on, name, x)
						}
					}
					// and the other way round
					b2, _ := zCast(e, x, uint64(x), nil)
					if ok, err := zReceive(zMust(b2), o); ok || err != nil {
						return "", vk.Errf("ballot accepted by a collector with other parameters (%s): %v", on, err)
					}
				}
				return "rejected", nil
			})
		}
		// 2. Carried parameters never change the verdict.
		ballots := map[string]func(e zEnv) BallotData{
			"valid":       func(e zEnv) BallotData { b, _ := zCast(e, 500, 1, nil); return b },
			"other range": func(e zEnv) BallotData { b, _ := zCast(zOthers["range full"](e), 5, 1, nil); return b },
			"other H":     func(e zEnv) BallotData { b, _ := zCast(zOthers["known H"](e), 500, 1, nil); return b },
			"other key":   func(e zEnv) BallotData { b, _ := zCast(zOthers["key of known log"](e), 500, 1, nil); return b },
			"short":       func(e zEnv) BallotData { b, _ := zCast(zOthers["Bc 8"](e), 500, 1, nil); return b },
			"out of range": func(e zEnv) BallotData {
				b, _ := zAssemble(e, zWit{big.NewInt(50), big.NewInt(-51), big.NewInt(1950), big.NewInt(50)}, 3)
				return b
			},
		}
		for _, bn := range zSorted(ballots) {
			for _, on := range []string{"range full", "range lo+1", "known H", "key of known log", "Bc 8", "Bx 12"} {
				bn, on := bn, on
				c.Case(fmt.Sprintf("carried/%s/%s/%s", en, bn, on), func() (string, error) {
					e := env()
					o := zOthers[on](e)
					b := ballots[bn](e)
					want := bn == "valid"
					cs := zCarried(e, o)
					for _, cn := range zSorted(cs) {
						m := zClone(b)
						cs[cn](&m)
						c.State(fmt.Sprintf("carried|%s|%s|%s|%s", en, bn, on, cn))
						ok, err := zReceive(zMust(m), e)
						c.Trans(1)
						if en != "ideal" {
							c.Validated(1)
						}
						if err != nil {
							return "", vk.Errf("collector crashed: %v", err)
						}
						if ok && !want {
							return "", vk.Errf("carried parameters (%s) turned a rejected ballot into an accepted one", cn)
						}
						// Direct hand-over with the collector's own range-proof parameters.
						m.BpLower.Params, m.BpUpper.Params = e.pp.BPParams, e.pp.BPParams
						err = vk.Guard(func() error { ok = zVerify(m, e); return nil })
						if err != nil {
							return "", vk.Errf("collector crashed: %v", err)
						}
						if ok && !want {
							return "", vk.Errf("carried parameters (%s) turned a rejected ballot into an accepted one (direct)", cn)
						}
					}
					return "verdict rests on the collector's parameters", nil
				})
			}
		}
		// 3. Carried range-proof parameters inside the document.
		for _, on := range []string{"known H", "32-bit range", "8-bit range", "known Gg"} {
			on := on
			c.Case(fmt.Sprintf("document/%s/%s", en, on), func() (string, error) {
				e := env()
				o := zOthers[on](e)
				for _, x := range []uint16{101, 102, 1999} {
					b, _ := zCast(o, x, 2, nil)
					ok, err := zReceive(zMust(b), e)
					c.Trans(1)
					if err != nil {
						return "", vk.Errf("collector crashed: %v", err)
					}
					if ok {
						return "", vk.Errf("range proof made under carried parameters (%s) accepted", on)
					}
				}
				return "rejected", nil
			})
		}
	}
	// 3b. Equality-proof parameters altered field by field: ballots made under the altered
	// ones get the same verdict whatever parameters they carry.
	zC04Fields(c)
	// 4. Forgeries that rely on carried parameters (ideal group: known trapdoors).
	e := zIdeal(101, 2000)
	for _, strat := range []string{"chosen-uu", "chosen-gens"} {
		for _, x := range []int64{100, 2001, 0, 65535} {
			strat, x := strat, x
			c.Case(fmt.Sprintf("forge/%s/%d", strat, x), func() (string, error) {
				vk.Fresh(3)
				rp := big.NewInt(4242)
				var b BallotData
				b.Ballot.U = e.ff.Element().BaseScale(rp)
				b.Ballot.V = e.ff.Element().Add(e.ff.Element().BaseScale(big.NewInt(x)), e.ff.Element().Scale(e.pp.EGPK, rp))
				h := checks.El(e.pp.BPParams.H).BasisIndex()
				mk := func(v int64) (bulletproofs.BulletProof, *big.Int, bool) {
					if v >= 0 && v < 65536 {
						p, g, err := bulletproofs.Prove(big.NewInt(v), e.pp.BPParams)
						return p, g, err == nil
					}
					w := new(big.Int).Mod(big.NewInt(v), checks.Q256)
					a, bb := checks.Shape("bits", w, 16)
					p, ok := checks.Forge(&checks.Mal{Params: e.pp.BPParams, Vs: []*big.Int{w}, AL: a, AR: bb, Seed: 9, Strat: strat})
					if !ok {
						return bulletproofs.BulletProof{}, nil, false
					}
					return p.Single(), checks.El(p.Vs[0]).Coef(h), true
				}
				lo, g1, ok1 := mk(x - 101)
				hi, g2, ok2 := mk(2000 - x)
				if !ok1 || !ok2 {
					return "strategy not applicable", nil
				}
				b.BpLower, b.BpUpper = lo, hi
				b.VoteProof = voteproof.Prove(big.NewInt(x), rp, g1, new(big.Int).Sub(checks.Q256, g2), e.pp.RPParams)
				if _, err := zJudge(c, b, e, "carried inner-product parameters"); err != nil {
					return "", err
				}
				d, err := zThroughJSON(b, e)
				if err != nil {
					return "rejected at decoding", nil
				}
				_, err = zJudge(c, d, e, "carried inner-product parameters in the document")
				return "rejected", err
			})
		}
	}
}

// zField alters one field of the equality-proof parameters.
type zField struct {
	name, field string
	f           func(*voteproof.ProofParams)
}

func zFields(e zEnv) []zField {
	r := e.pp.RPParams
	two := big.NewInt(2)
	fs := []zField{
		{"Bx0", "Bx", func(p *voteproof.ProofParams) { p.Bx = 0 }}, {"Bx8", "Bx", func(p *voteproof.ProofParams) { p.Bx = 8 }}, {"Bx40", "Bx", func(p *voteproof.ProofParams) { p.Bx = 40 }},
		{"Bc8", "Bc", func(p *voteproof.ProofParams) { p.Bc = 8 }}, {"Bc16", "Bc", func(p *voteproof.ProofParams) { p.Bc = 16 }}, {"Bc216", "Bc", func(p *voteproof.ProofParams) { p.Bc = 216 }}, {"Bc256", "Bc", func(p *voteproof.ProofParams) { p.Bc = 256 }},
		{"Bb1", "Bb", func(p *voteproof.ProofParams) { p.Bb = 1 }}, {"Bb-1", "Bb", func(p *voteproof.ProofParams) { p.Bb-- }}, {"Bb+1", "Bb", func(p *voteproof.ProofParams) { p.Bb++ }}, {"Bb+64", "Bb", func(p *voteproof.ProofParams) { p.Bb += 64 }},
		{"Bg64", "Bg", func(p *voteproof.ProofParams) { p.Bg = 64 }}, {"Bg1024", "Bg", func(p *voteproof.ProofParams) { p.Bg = 1024 }},
		{"lo0", "lo", func(p *voteproof.ProofParams) { p.RangeLo = 0 }}, {"lo+1", "lo", func(p *voteproof.ProofParams) { p.RangeLo++ }}, {"lo-1", "lo", func(p *voteproof.ProofParams) { p.RangeLo-- }},
		{"hi65535", "hi", func(p *voteproof.ProofParams) { p.RangeHi = 65535 }}, {"hi-1", "hi", func(p *voteproof.ProofParams) { p.RangeHi-- }}, {"hi+1", "hi", func(p *voteproof.ProofParams) { p.RangeHi++ }},
		{"FFH", "FFH", func(p *voteproof.ProofParams) { p.GFF.H = e.ff.Element().Scale(r.GFF.H, two) }}, {"FFHid", "FFH", func(p *voteproof.ProofParams) { p.GFF.H = e.ff.Identity() }},
		{"ECH", "ECH", func(p *voteproof.ProofParams) { p.GEC.H = e.ec.Element().Scale(r.GEC.H, two) }}, {"ECHid", "ECH", func(p *voteproof.ProofParams) { p.GEC.H = e.ec.Identity() }},
		{"FFN", "FFN", func(p *voteproof.ProofParams) { p.GFF.N = new(big.Int).Rsh(r.GFF.N, 1) }}, {"FFN1", "FFN", func(p *voteproof.ProofParams) { p.GFF.N = big.NewInt(1) }},
		{"ECN", "ECN", func(p *voteproof.ProofParams) { p.GEC.N = new(big.Int).Rsh(r.GEC.N, 1) }}, {"ECN1", "ECN", func(p *voteproof.ProofParams) { p.GEC.N = big.NewInt(1) }},
		{"FFF", "FFF", func(p *voteproof.ProofParams) { p.GFF.F = big.NewInt(5) }}, {"ECF", "ECF", func(p *voteproof.ProofParams) { p.GEC.F = big.NewInt(5) }},
		{"FFG", "FFG", func(p *voteproof.ProofParams) { p.GFF.G = e.ff.Element().Scale(r.GFF.G, two) }}, {"ECG", "ECG", func(p *voteproof.ProofParams) { p.GEC.G = e.ec.Element().Scale(r.GEC.G, two) }},
	}
	return fs
}

func zC04Fields(c *vk.Ctx) {
	run := func(tag string, env func() zEnv, depth int) {
		fs := zFields(env())
		one := func(sel []int) {
			key := tag
			for _, i := range sel {
				key += "/" + fs[i].name
			}
			c.Case("fields/"+key, func() (string, error) {
				e := env()
				out := "rejected"
				edit := e.pp.RPParams
				for _, i := range sel {
					fs[i].f(&edit)
				}
				xs := []int64{101, 500, 2000, 1500, 102, 100, 2001, 5}
				if !e.ideal && !c.Thorough() {
					xs = []int64{101, 2001}
				}
				for _, x := range xs {
					var b BallotData
					err := vk.Guard(func() error {
						s := vk.Fresh(uint64(x))
						s.Limit = 400
						rp := big.NewInt(987654321 + x)
						b.Ballot.U = e.ff.Element().BaseScale(rp)
						b.Ballot.V = e.ff.Element().Add(e.ff.Element().BaseScale(big.NewInt(x)), e.ff.Element().Scale(e.pp.EGPK, rp))
						var g1, g2 *big.Int
						var err error
						cut := func(v int64) *big.Int { return big.NewInt(min(max(v, 0), 65535)) }
						if b.BpLower, g1, err = bulletproofs.Prove(cut(x-int64(edit.RangeLo)), e.pp.BPParams); err != nil {
							return err
						}
						if b.BpUpper, g2, err = bulletproofs.Prove(cut(int64(edit.RangeHi)-x), e.pp.BPParams); err != nil {
							return err
						}
						b.VoteProof = voteproof.Prove(big.NewInt(x), rp, g1, new(big.Int).Sub(e.ec.N(), g2), edit)
						return nil
					})
					if err != nil {
						continue // no ballot under such parameters
					}
					var verdicts [4][2]bool
					for ci, carried := range []voteproof.ProofParams{e.pp.RPParams, edit, {}, zMixed(e, edit)} {
						m := b
						m.VoteProof.Params = carried
						err := vk.Guard(func() error { verdicts[ci][0] = zVerify(m, e); return nil })
						if err != nil {
							return "", vk.Errf("collector crashed on candidate %d (carried %d): %v", x, ci, err)
						}
						if ci != 2 { // the zero parameters have no document
							if verdicts[ci][1], err = zReceive(zMust(m), e); err != nil {
								return "", vk.Errf("collector crashed on the document for %d (carried %d): %v", x, ci, err)
							}
						} else {
							verdicts[ci][1] = verdicts[ci][0]
						}
						c.Trans(2)
						if !e.ideal {
							c.Validated(1)
						}
						for k := 0; k < 2; k++ {
							if verdicts[ci][k] != verdicts[0][0] {
								return "", vk.Errf("candidate %d: with its parameters carried in form %d.%d the ballot gets verdict %v, with the collector's own %v", x, ci, k, verdicts[ci][k], verdicts[0][0])
							}
						}
					}
					c.State(fmt.Sprint("fields|", key, x, verdicts))
					if verdicts[0][0] {
						out = "some accepted under the collector's parameters"
						if x < 101 || x > 2000 {
							return "", vk.Errf("ballot for %d accepted", x)
						}
					}
				}
				return out, nil
			})
		}
		one(nil)
		var walk func(from int, sel []int)
		walk = func(from int, sel []int) {
			for i := from; i < len(fs); i++ {
				if len(sel) > 0 && fs[sel[len(sel)-1]].field == fs[i].field {
					continue
				}
				n := append(append([]int(nil), sel...), i)
				// quick: pairs, and all on the real groups, only of the five numbers that
				// decide a verdict
				if (len(n) > 1 || tag != "ideal") && !c.Thorough() && !strings.Contains(" Bx Bc Bb lo hi ", " "+fs[i].field+" ") {
					continue
				}
				one(n)
				if len(n) < depth {
					walk(i+1, n)
				}
			}
		}
		walk(0, nil)
	}
	run("ideal", func() zEnv { return zIdeal(101, 2000) }, int(zt(c.Thorough(), 3, 2)))
	for _, g := range checks.Curves() {
		g := g
		var e zEnv
		have := false
		run(g.Name(), func() zEnv {
			if !have {
				e, have = zReal(g, 101, 2000, false), true
			}
			return e
		}, 1)
	}
}

// zMixed carries the altered numbers with the collector's groups.
func zMixed(e zEnv, edit voteproof.ProofParams) voteproof.ProofParams {
	p := e.pp.RPParams
	p.Bx, p.Bc, p.Bb, p.Bg = edit.Bx, edit.Bc, edit.Bb, edit.Bg
	return p
}
