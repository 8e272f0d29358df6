package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// AnyProof is the common view of the single and the aggregated range proof.
type AnyProof struct {
	Vs               []group.Element
	A, S, T1, T2     group.Element
	Taux, Mu, Tprime *big.Int
	IPP              bulletproofs.InnerProductProof
	Params           bulletproofs.BulletProofSetupParams
	Multi            bool
}

func FromSingle(p bulletproofs.BulletProof) AnyProof {
	return AnyProof{[]group.Element{p.V}, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof, p.Params, false}
}

func FromMulti(p bulletproofs.MultiBulletProof) AnyProof {
	return AnyProof{p.Vs, p.A, p.S, p.T1, p.T2, p.Taux, p.Mu, p.Tprime, p.InnerProductProof, p.Params, true}
}

func (p AnyProof) Single() bulletproofs.BulletProof {
	return bulletproofs.BulletProof{V: p.Vs[0], A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu,
		Tprime: p.Tprime, InnerProductProof: p.IPP, Params: p.Params}
}

// Verify runs the verifier of the code under test.
func (p AnyProof) Verify() bool {
	if p.Multi {
		q := bulletproofs.MultiBulletProof{Vs: p.Vs, A: p.A, S: p.S, T1: p.T1, T2: p.T2, Taux: p.Taux, Mu: p.Mu,
			Tprime: p.Tprime, InnerProductProof: p.IPP, Params: p.Params}
		ok, err := q.Verify()
		return ok && err == nil
	}
	q := p.Single()
	ok, err := q.Verify()
	return ok && err == nil
}

func (p AnyProof) Clone() AnyProof {
	q := p
	q.Vs = append([]group.Element(nil), p.Vs...)
	q.IPP.L = append([]group.Element(nil), p.IPP.L...)
	q.IPP.R = append([]group.Element(nil), p.IPP.R...)
	return q
}

// Comp is one component of a proof: an element slot or a scalar slot.
type Comp struct {
	Name string
	E    func(p *AnyProof) *group.Element
	S    func(p *AnyProof) **big.Int
}

// Comps lists every component of a proof.
func Comps(p AnyProof) []Comp {
	var cs []Comp
	for i := range p.Vs {
		i := i
		cs = append(cs, Comp{Name: fmt.Sprintf("V%d", i), E: func(p *AnyProof) *group.Element { return &p.Vs[i] }})
	}
	cs = append(cs,
		Comp{Name: "A", E: func(p *AnyProof) *group.Element { return &p.A }},
		Comp{Name: "S", E: func(p *AnyProof) *group.Element { return &p.S }},
		Comp{Name: "T1", E: func(p *AnyProof) *group.Element { return &p.T1 }},
		Comp{Name: "T2", E: func(p *AnyProof) *group.Element { return &p.T2 }},
		Comp{Name: "P", E: func(p *AnyProof) *group.Element { return &p.IPP.P }},
		Comp{Name: "Taux", S: func(p *AnyProof) **big.Int { return &p.Taux }},
		Comp{Name: "Mu", S: func(p *AnyProof) **big.Int { return &p.Mu }},
		Comp{Name: "Tprime", S: func(p *AnyProof) **big.Int { return &p.Tprime }},
		Comp{Name: "Cc", S: func(p *AnyProof) **big.Int { return &p.IPP.Cc }},
		Comp{Name: "a", S: func(p *AnyProof) **big.Int { return &p.IPP.A }},
		Comp{Name: "b", S: func(p *AnyProof) **big.Int { return &p.IPP.B }},
	)
	for i := range p.IPP.L {
		i := i
		cs = append(cs,
			Comp{Name: fmt.Sprintf("L%d", i), E: func(p *AnyProof) *group.Element { return &p.IPP.L[i] }},
			Comp{Name: fmt.Sprintf("R%d", i), E: func(p *AnyProof) *group.Element { return &p.IPP.R[i] }})
	}
	return cs
}

// Repl is a replacement value with a name.
type Repl struct {
	Name string
	E    group.Element
	S    *big.Int
}

// ElemRepls is the element mutation alphabet for e.
func ElemRepls(g group.Group, e group.Element, gens map[string]group.Element, others map[string]group.Element) []Repl {
	var out []Repl
	put := func(n string, x group.Element) {
		if x.IsEqual(e) {
			return
		}
		out = append(out, Repl{Name: n, E: x})
	}
	put("identity", g.Identity())
	put("neg", g.Element().Negate(e))
	put("double", g.Element().Add(e, e))
	put("G", g.Generator())
	put("+G", g.Element().Add(e, g.Generator()))
	put("-G", g.Element().Subtract(e, g.Generator()))
	for _, k := range sortedKeys(gens) {
		put("+"+k, g.Element().Add(e, gens[k]))
	}
	for _, k := range sortedKeys(others) {
		put("="+k, g.Element().Set(others[k]))
	}
	return out
}

// ScalarRepls is the scalar mutation alphabet for s modulo q.
func ScalarRepls(q *big.Int, s *big.Int, others map[string]*big.Int) []Repl {
	var out []Repl
	seen := map[string]bool{mod(s, q).String(): true}
	put := func(n string, x *big.Int) {
		k := mod(x, q).String()
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, Repl{Name: n, S: x})
	}
	put("+1", add(s, B(1)))
	put("-1", sub(s, B(1)))
	put("neg", new(big.Int).Neg(s))
	put("q-s", sub(q, s))
	put("0", B(0))
	put("1", B(1))
	put("2s", mul(s, B(2)))
	put("bit", new(big.Int).Xor(s, Pow2(q.BitLen()/2)))
	put("half", new(big.Int).Rsh(s, 1))
	// Far outside the residues, of either sign; seven fifths of a power of two differs
	// from every power of two and from every multiple of the order.
	for _, k := range []int{q.BitLen() - 2, q.BitLen() + 9, 2*q.BitLen() + 1, 3*q.BitLen() + 1, 4*q.BitLen() + 5, 2048} {
		h := new(big.Int).Div(mul(B(7), Pow2(k)), B(5))
		put(fmt.Sprintf("+huge%d", k), add(mod(s, q), h))
		put(fmt.Sprintf("-huge%d", k), sub(mod(s, q), h))
	}
	for _, k := range sortedKeys(others) {
		put("="+k, others[k])
	}
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// Repls enumerates the replacements of one component of p.
func Repls(p AnyProof, c Comp) []Repl {
	g := p.Params.GP
	q := p.Clone()
	if c.E != nil {
		u, _ := g.Element().MapToGroup(bulletproofs.SEEDU)
		gens := map[string]group.Element{"H": p.Params.H, "Gg0": p.Params.Gg[0], "HhLast": p.Params.Hh[len(p.Params.Hh)-1], "U": u}
		others := map[string]group.Element{}
		for _, o := range Comps(p) {
			if o.E != nil && o.Name != c.Name {
				others[o.Name] = *o.E(&q)
			}
		}
		return ElemRepls(g, *c.E(&q), gens, others)
	}
	others := map[string]*big.Int{}
	for _, o := range Comps(p) {
		if o.S != nil && o.Name != c.Name {
			others[o.Name] = *o.S(&q)
		}
	}
	return ScalarRepls(g.N(), *c.S(&q), others)
}

// Apply returns a copy of p with one component replaced.
func Apply(p AnyProof, c Comp, r Repl) AnyProof {
	q := p.Clone()
	if c.E != nil {
		*c.E(&q) = r.E
	} else {
		*c.S(&q) = r.S
	}
	return q
}

// Same reports whether two proofs agree on a component (scalars modulo the order).
func Same(a, b AnyProof, c Comp) bool {
	if c.E != nil {
		return (*c.E(&a)).IsEqual(*c.E(&b))
	}
	n := a.Params.GP.N()
	return mod(*c.S(&a), n).Cmp(mod(*c.S(&b), n)) == 0
}

// Committed reads the committed values of an ideal-group proof; ok is false when a
// commitment is not a combination of G and H.
func Committed(p AnyProof) (vs []*big.Int, ok bool) {
	h := El(p.Params.H).BasisIndex()
	for _, v := range p.Vs {
		e := El(v)
		for i := range e.C {
			if i != 0 && i != h && e.Coef(i).Sign() != 0 {
				return nil, false
			}
		}
		vs = append(vs, e.Coef(0))
	}
	return vs, true
}

// InRange decides the soundness predicate on an ideal-group proof.
func InRange(p AnyProof) error {
	vs, ok := Committed(p)
	if !ok {
		return vk.Errf("accepted proof whose commitment is not of the form vG+rH")
	}
	w := int(p.Params.N) / len(p.Vs)
	for i, v := range vs {
		if v.Cmp(Pow2(w)) >= 0 {
			return vk.Errf("accepted proof whose commitment %d holds %v, outside [0,2^%d)", i, v, w)
		}
	}
	return nil
}
