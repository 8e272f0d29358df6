package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	vk.Describe("C14", "one case = a block of elements of one group, each encoded (binary, JSON, json.Marshal) and decoded into fresh and used receivers, compared with reference arithmetic; or one proof, ciphertext or ballot encoded, decoded and compared component by component, with components replaced in turn by unusual values",
		"element corpora contain every leading-zero pattern of the coordinates that exists below 100000*G")
}

// zeroCoord lists multiples of the generator with leading zero bytes in a coordinate.
var zeroCoord = map[string][]int64{
	"P-256":     {43, 444, 2376, 61552, 379, 552, 40393, 49350},
	"secp256k1": {122, 130, 41192, 153, 246, 44629, 55959},
	"P-384":     {176, 831, 93150, 197, 234, 14971, 6394},
}

type namedEl struct {
	name string
	e    group.Element
	text string // reference
}

// corpus is the set of elements of a group explored by C14 and C15.
func corpus(rg RG, thorough bool) []namedEl {
	var out []namedEl
	n := rg.R.Order()
	at := func(name string, k *big.Int) {
		out = append(out, namedEl{name, rg.G.Element().BaseScale(k), rg.R.Comb(k, B(0), "")})
	}
	lim := int64(48)
	if thorough {
		lim = 600
	}
	if rg.Name == "MODP3072" && !thorough {
		lim = 12
	}
	for k := int64(0); k <= lim; k++ {
		at(fmt.Sprint(k), B(k))
		if k > 0 {
			at(fmt.Sprint(-k), sub(n, B(k)))
		}
	}
	for _, k := range zeroCoord[rg.Name] {
		at(fmt.Sprint(k), B(k))
		at(fmt.Sprint(-k), sub(n, B(k)))
	}
	p := make([]byte, (n.BitLen()+7)/8)
	for i := 0; i < 6; i++ {
		vk.FillBytes(p, 99, i)
		at(fmt.Sprintf("big%d", i), mod(new(big.Int).SetBytes(p), n))
	}
	if rg.Curve {
		cnt := 24
		if thorough {
			cnt = 400
		}
		for i := 0; i < cnt; i++ {
			e, err := rg.G.Element().MapToGroup(fmt.Sprintf("corpus%d", i))
			if err != nil {
				panic(err)
			}
			t, err := rg.R.Text(e)
			if err != nil {
				panic(err)
			}
			out = append(out, namedEl{fmt.Sprintf("hash%d", i), e, t})
		}
	} else {
		// Small residues: short encodings.
		r := rg.R.(*Resid)
		for v, got := int64(2), 0; v < 300 && got < 24; v++ {
			if B(v).Cmp(r.p) < 0 && r.Member(fmt.Sprint(v)) {
				e := rg.G.Element()
				if err := e.UnmarshalJSON([]byte(fmt.Sprint(v))); err != nil {
					panic(err)
				}
				out = append(out, namedEl{fmt.Sprintf("val%d", v), e, fmt.Sprint(v)})
				got++
			}
		}
		for _, sh := range []int{7, 8, 15, 16, 56} {
			if sh < r.p.BitLen()-1 {
				v := mod(mul(Pow2(sh), Pow2(sh)), r.p) // a square
				e := rg.G.Element()
				if err := e.UnmarshalJSON([]byte(v.String())); err != nil {
					panic(err)
				}
				out = append(out, namedEl{fmt.Sprintf("sq2^%d", sh), e, v.String()})
			}
		}
	}
	return out
}

// receivers are the kinds of elements decoded into.
func receivers(rg RG) map[string]func() group.Element {
	return map[string]func() group.Element{
		"fresh":    rg.G.Element,
		"identity": rg.G.Identity,
		"gen":      rg.G.Generator,
		"used":     func() group.Element { return rg.G.Element().BaseScale(B(77)) },
		"sum": func() group.Element {
			return rg.G.Element().Add(rg.G.Generator(), rg.G.Identity())
		},
	}
}

// roundTrip checks one element through every encoding.
func roundTrip(c *vk.Ctx, rg RG, x namedEl) error {
	check := func(what string, e group.Element) error {
		t, err := rg.R.Text(e)
		if err != nil || t != x.text {
			return vk.Errf("%s: %s gives %s, want %s (%v)", x.name, what, short(t), short(x.text), err)
		}
		if !e.IsEqual(x.e) || !x.e.IsEqual(e) || e.IsIdentity() != x.e.IsIdentity() {
			return vk.Errf("%s: %s is not equal to the original", x.name, what)
		}
		return nil
	}
	if err := check("original", x.e); err != nil {
		return err
	}
	bin, err := x.e.MarshalBinary()
	if err != nil {
		return vk.Errf("%s: %v", x.name, err)
	}
	js, err := x.e.MarshalJSON()
	if err != nil {
		return vk.Errf("%s: %v", x.name, err)
	}
	js2, err := json.Marshal(x.e)
	if err != nil || !bytes.Equal(js, js2) {
		return vk.Errf("%s: json.Marshal differs from MarshalJSON (%v)", x.name, err)
	}
	b0, j0 := bytes.Clone(bin), bytes.Clone(js)
	for rn, mk := range receivers(rg) {
		for _, how := range []string{"UnmarshalBinary", "SetBytes", "UnmarshalJSON", "json.Unmarshal"} {
			e := mk()
			switch how {
			case "UnmarshalBinary":
				err = e.UnmarshalBinary(bin)
			case "SetBytes":
				if r := e.SetBytes(bin); r != e {
					return vk.Errf("SetBytes does not return its receiver")
				}
			case "UnmarshalJSON":
				err = e.UnmarshalJSON(js)
			case "json.Unmarshal":
				err = json.Unmarshal(js, e)
			}
			c.Trans(1)
			if err != nil {
				return vk.Errf("%s: %s into a %s receiver: %v", x.name, how, rn, err)
			}
			if !bytes.Equal(bin, b0) || !bytes.Equal(js, j0) {
				return vk.Errf("%s: %s modified its input", x.name, how)
			}
			if err := check(how+" into a "+rn+" receiver", e); err != nil {
				return err
			}
			// No sharing: changing the buffer or the decoded element changes nothing else.
			for i := range bin {
				bin[i] ^= 0xff
			}
			err := check(how+" after its input buffer changed", e)
			copy(bin, b0)
			if err != nil {
				return err
			}
			e.Add(e, rg.G.Generator())
			if err := check("original after the decoded element changed", x.e); err != nil {
				return err
			}
			bin2, _ := x.e.MarshalBinary()
			if !bytes.Equal(bin2, b0) {
				return vk.Errf("%s: encoding changed", x.name)
			}
		}
	}
	return nil
}

// C14 is the part of the check that needs only the importable packages.
func C14(c *vk.Ctx) {
	refs := AllRefs()
	refs = append(refs, SafeRef(Safe6), SafeRef(Safe8), SafeRef(Safe12))
	for _, rg := range refs {
		rg := rg
		small := rg.R.Order().BitLen() <= 12
		var els []namedEl
		load := func() {
			if els != nil {
				return
			}
			if small {
				for k := int64(0); B(k).Cmp(rg.R.Order()) < 0; k++ {
					els = append(els, namedEl{fmt.Sprint(k), rg.G.Element().BaseScale(B(k)), rg.R.Comb(B(k), B(0), "")})
				}
			} else {
				els = corpus(rg, c.Thorough())
			}
		}
		const blocks = 8
		for bl := 0; bl < blocks; bl++ {
			bl := bl
			c.Case(fmt.Sprintf("elem/%s/%d", rg.Name, bl), func() (string, error) {
				load()
				for i := bl; i < len(els); i += blocks {
					c.State(rg.Name + els[i].text)
					if err := roundTrip(c, rg, els[i]); err != nil {
						return "", err
					}
					if rg.Curve || rg.Name == "MODP3072" {
						c.Validated(1)
					}
				}
				return "round trip", constants(rg)
			})
		}
		c.Case("injective/"+rg.Name, func() (string, error) {
			load()
			bins, jss, strs := map[string]string{}, map[string]string{}, map[string]string{}
			for _, x := range els {
				b, _ := x.e.MarshalBinary()
				j, _ := x.e.MarshalJSON()
				for _, p := range []struct {
					m map[string]string
					k string
				}{{bins, string(b)}, {jss, string(j)}, {strs, x.e.String()}} {
					if o, ok := p.m[p.k]; ok && o != x.text {
						return "", vk.Errf("%s: two different elements have the encoding %x", x.name, p.k)
					}
					p.m[p.k] = x.text
				}
				c.Trans(1)
			}
			return "injective", nil
		})
	}
	c14Proofs(c)
	c14Sigma(c)
}

// sameProof compares two range proofs component by component.
func sameProof(a, b bulletproofs.BulletProof) error {
	pa, pb := FromSingle(a), FromSingle(b)
	ca, cb := Comps(pa), Comps(pb)
	if len(ca) != len(cb) {
		return vk.Errf("%d components became %d", len(ca), len(cb))
	}
	for i := range ca {
		if !SameExact(pa, pb, ca[i]) {
			return vk.Errf("component %s changed", ca[i].Name)
		}
	}
	if err := sameBPParams(a.Params, b.Params); err != nil {
		return err
	}
	x, y := a.InnerProductProof.Params, b.InnerProductProof.Params
	if !x.Uu.IsEqual(y.Uu) {
		return vk.Errf("inner-product generator changed")
	}
	if err := sameEls("inner-product Gg", x.Gg, y.Gg); err != nil {
		return err
	}
	return sameEls("inner-product Hh", x.Hh, y.Hh)
}

func sameEls(what string, a, b []group.Element) error {
	if len(a) != len(b) {
		return vk.Errf("%s: %d elements became %d", what, len(a), len(b))
	}
	for i := range a {
		if !a[i].IsEqual(b[i]) {
			return vk.Errf("%s[%d] changed", what, i)
		}
	}
	return nil
}

func sameBPParams(a, b bulletproofs.BulletProofSetupParams) error {
	if a.N != b.N || !a.G.IsEqual(b.G) || !a.H.IsEqual(b.H) || a.GP.Name() != b.GP.Name() {
		return vk.Errf("range-proof parameters changed")
	}
	if err := sameEls("Gg", a.Gg, b.Gg); err != nil {
		return err
	}
	return sameEls("Hh", a.Hh, b.Hh)
}

// SameExact compares one component of two proofs; scalars as integers.
func SameExact(a, b AnyProof, cm Comp) bool {
	if cm.E != nil {
		return (*cm.E(&a)).IsEqual(*cm.E(&b))
	}
	return (*cm.S(&a)).Cmp(*cm.S(&b)) == 0
}

// oddElems and oddScalars are unusual but encodable component values.
func oddElems(g group.Group, h group.Element) map[string]group.Element {
	out := map[string]group.Element{"identity": g.Identity(), "zero*G": g.Element().BaseScale(B(0)), "G": g.Generator(), "-G": g.Element().BaseScale(B(-1)),
		"H": h, "G-G": g.Element().Subtract(g.Generator(), g.Generator())}
	for i, k := range zeroCoord[g.Name()] {
		out[fmt.Sprintf("lz%d", i)] = g.Element().BaseScale(B(k))
	}
	return out
}

func oddScalars(n *big.Int) map[string]*big.Int {
	return map[string]*big.Int{"0": B(0), "1": B(1), "-1": B(-1), "N": n, "N-1": sub(n, B(1)), "2^53+1": add(Pow2(53), B(1)), "2^64": Pow2(64), "2^700": Pow2(700), "-2^300": new(big.Int).Neg(Pow2(300))}
}

func c14Proofs(c *vk.Ctx) {
	ideal := vk.NewIdeal("ideal", Q256)
	for _, g := range append([]group.Group{ideal}, Curves()...) {
		g := g
		ns := Ranges
		for _, n := range ns {
			n := n
			if n == 32 && g != group.Group(ideal) && !c.Thorough() {
				continue
			}
			vs := []*big.Int{B(0), B(1), sub(Pow2(n), B(1))}
			if n == 1 {
				vs = vs[:2]
			}
			for _, v := range vs {
				v := v
				c.Case(fmt.Sprintf("range/%s/%d/%v", g.Name(), n, v), func() (string, error) {
					pr := Params(g, n)
					vk.Fresh(Seed(g.Name()) + uint64(n))
					p, _, err := bulletproofs.Prove(new(big.Int).Set(v), pr)
					if err != nil {
						return "", err
					}
					j, err := json.Marshal(p)
					if err != nil {
						return "", err
					}
					d, err := bulletproofs.BulletProofUnmarshalJSON(j, pr)
					if err != nil {
						return "", vk.Errf("own encoding refused: %v", err)
					}
					c.Trans(1)
					if g != group.Group(ideal) {
						c.Validated(1)
					}
					if err := sameProof(p, d); err != nil {
						return "", err
					}
					if ok, _ := d.Verify(); !ok {
						return "", vk.Errf("decoded proof rejected")
					}
					j2, err := json.Marshal(d)
					if err != nil {
						return "", err
					}
					d2, err := bulletproofs.BulletProofUnmarshalJSON(j2, pr)
					if err != nil {
						return "", vk.Errf("second encoding refused: %v", err)
					}
					if err := sameProof(p, d2); err != nil {
						return "", vk.Errf("second generation: %v", err)
					}
					if n > 4 && !c.Thorough() {
						return "range proof restored", nil
					}
					// Every component replaced in turn by unusual values.
					ap := FromSingle(p)
					for _, cm := range Comps(ap) {
						var rs []Repl
						if cm.E != nil {
							oe := oddElems(g, pr.H)
							for _, k := range sortedKeys(oe) {
								rs = append(rs, Repl{Name: k, E: oe[k]})
							}
						} else {
							os := oddScalars(g.N())
							for _, k := range sortedKeys(os) {
								rs = append(rs, Repl{Name: k, S: os[k]})
							}
						}
						for _, r := range rs {
							q := Apply(ap, cm, r).Single()
							j, err := json.Marshal(q)
							if err != nil {
								return "", vk.Errf("%s=%s: %v", cm.Name, r.Name, err)
							}
							d, err := bulletproofs.BulletProofUnmarshalJSON(j, pr)
							if err != nil {
								return "", vk.Errf("%s=%s: %v", cm.Name, r.Name, err)
							}
							c.Trans(1)
							if err := sameProof(q, d); err != nil {
								return "", vk.Errf("%s=%s: %v", cm.Name, r.Name, err)
							}
						}
					}
					return "range proof restored", nil
				})
			}
		}
	}
}

// SameSigma compares two equality proofs component by component.
func SameSigma(a, b voteproof.SigmaProof) error {
	x, y := VPAll{P: a}, VPAll{P: b}
	for _, cm := range VPComps() {
		switch cm.Name {
		case "Y", "Xp", "Xq1", "Xq2":
			continue // statement
		}
		if cm.E != nil && !(*cm.E(&x)).IsEqual(*cm.E(&y)) {
			return vk.Errf("component %s changed", cm.Name)
		}
		if cm.S != nil && (*cm.S(&x)).Cmp(*cm.S(&y)) != 0 {
			return vk.Errf("component %s changed", cm.Name)
		}
	}
	p, q := a.Params, b.Params
	if p.Bx != q.Bx || p.Bc != q.Bc || p.Bg != q.Bg || p.Bb != q.Bb || p.RangeLo != q.RangeLo || p.RangeHi != q.RangeHi {
		return vk.Errf("carried lengths or bounds changed")
	}
	for i, gp := range [][2]voteproof.GroupParameters{{p.GFF, q.GFF}, {p.GEC, q.GEC}} {
		if !gp[0].G.IsEqual(gp[1].G) || !gp[0].H.IsEqual(gp[1].H) || gp[0].N.Cmp(gp[1].N) != 0 || gp[0].F.Cmp(gp[1].F) != 0 || gp[0].I.Name() != gp[1].I.Name() {
			return vk.Errf("carried group parameters %d changed", i)
		}
	}
	return nil
}

func c14Sigma(c *vk.Ctx) {
	iff, iec := vk.NewIdeal("ff", NFF), vk.NewIdeal("ec", Q256)
	type pair struct {
		ff, ec group.Group
		bg     uint16
	}
	ps := []pair{{iff, iec, 256}}
	for _, g := range Curves() {
		ps = append(ps, pair{SafeGroup(Safe320), g, capBits(g)})
	}
	ps = append(ps, pair{MODP3072(), group.P256(), 256})
	for _, p := range ps {
		p := p
		for _, x := range []int64{0, 1, 101, 65535} {
			x := x
			c.Case(fmt.Sprintf("sigma/%s/%s/%d", p.ff.Name(), p.ec.Name(), x), func() (string, error) {
				pp := VPParams(p.ff, p.ec, 16, 200, p.bg, 101, 2000)
				vk.Fresh(Seed(p.ec.Name()) + uint64(x))
				st := Stmt{B(x), B(1234567), B(89), B(4242)}
				pr := st.Prove(pp)
				orig := VPAll{P: pr}
				rt := func(q voteproof.SigmaProof) (voteproof.SigmaProof, error) {
					j, err := json.Marshal(q)
					if err != nil {
						return q, err
					}
					d, err := voteproof.ProofUnmarshalJSON(j, p.ff, p.ec)
					if err != nil {
						return q, vk.Errf("own encoding refused: %v", err)
					}
					c.Trans(1)
					if err := SameSigma(q, d); err != nil {
						return q, err
					}
					return d, nil
				}
				d, err := rt(pr)
				if err != nil {
					return "", err
				}
				if p.ff != group.Group(iff) {
					c.Validated(1)
				}
				if !d.Verify(st.Comm(pp)) {
					return "", vk.Errf("decoded proof rejected")
				}
				if x != 101 {
					return "equality proof restored", nil
				}
				for _, cm := range VPComps() {
					switch cm.Name {
					case "Y", "Xp", "Xq1", "Xq2":
						continue
					}
					g, h := p.ec, pp.GEC.H
					if cm.FF {
						g, h = p.ff, pp.GFF.H
					}
					if cm.E != nil {
						oe := oddElems(g, h)
						for _, k := range sortedKeys(oe) {
							q := orig
							*cm.E(&q) = oe[k]
							if _, err := rt(q.P); err != nil {
								return "", vk.Errf("%s=%s: %v", cm.Name, k, err)
							}
						}
					} else {
						os := oddScalars(g.N())
						for _, k := range sortedKeys(os) {
							q := orig
							*cm.S(&q) = os[k]
							if _, err := rt(q.P); err != nil {
								return "", vk.Errf("%s=%s: %v", cm.Name, k, err)
							}
						}
					}
				}
				// Carried parameters.
				for _, mut := range []func(*voteproof.ProofParams){
					func(p *voteproof.ProofParams) { p.Bx = 255 }, func(p *voteproof.ProofParams) { p.Bc = 65535 },
					func(p *voteproof.ProofParams) { p.Bg = 1 }, func(p *voteproof.ProofParams) { p.Bb = -3 },
					func(p *voteproof.ProofParams) { p.RangeLo = 65535 }, func(p *voteproof.ProofParams) { p.RangeHi = 0 },
				} {
					q := pr
					mut(&q.Params)
					if _, err := rt(q); err != nil {
						return "", err
					}
				}
				return "equality proof restored", nil
			})
		}
	}
}
