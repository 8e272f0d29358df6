package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C11"] = c11
	vk.Describe("C11", "one case = two complete runs that differ in exactly one enumerated draw, witness part or message; the challenges are computed from the witness-level view of the ideal group and compared",
		"challenges are recovered algebraically from honest proofs (no knowledge of the hash convention)")
}

// extract recovers x, y, z of an honest ideal-group range proof (n >= 2).
func extract(p AnyProof) (ch Chal, err error) {
	q := p.Params.GP.N()
	h := El(p.Params.H).BasisIndex()
	gi := func(i int) int { return El(p.Params.Gg[i]).BasisIndex() }
	hi := func(i int) int { return El(p.Params.Hh[i]).BasisIndex() }
	A, S, P := El(p.A), El(p.S), El(p.IPP.P)
	rinv := new(big.Int).ModInverse(S.Coef(h), q)
	if rinv == nil {
		return ch, vk.Errf("S is not blinded")
	}
	ch.X = mod(mul(sub(p.Mu, A.Coef(h)), rinv), q)
	// l_i = aL_i - z + sL_i x
	ch.Z = mod(sub(add(A.Coef(gi(0)), mul(S.Coef(gi(0)), ch.X)), P.Coef(gi(0))), q)
	// h-coefficient of P: aR_i + z + sR_i x + z^(2+j) 2^(i mod k) y^-i
	k := int(p.Params.N) / len(p.Vs)
	i := 1
	t := mod(sub(sub(sub(P.Coef(hi(i)), A.Coef(hi(i))), ch.Z), mul(S.Coef(hi(i)), ch.X)), q)
	d := mod(mul(new(big.Int).Exp(ch.Z, B(int64(2+i/k)), q), Pow2(i%k)), q)
	yi := mod(mul(t, new(big.Int).ModInverse(d, q)), q)
	ch.Y = new(big.Int).ModInverse(yi, q)
	if ch.Y == nil {
		return ch, vk.Errf("y not recoverable")
	}
	// Cross-check on the remaining positions.
	for i := 0; i < int(p.Params.N); i++ {
		w := add(add(A.Coef(hi(i)), ch.Z), mul(S.Coef(hi(i)), ch.X))
		w.Add(w, mul(mul(new(big.Int).Exp(ch.Z, B(int64(2+i/k)), q), Pow2(i%k)), new(big.Int).Exp(yi, B(int64(i)), q)))
		if mod(w, q).Cmp(P.Coef(hi(i))) != 0 {
			return ch, vk.Errf("inner-product commitment is not of the expected form at %d", i)
		}
	}
	return ch, nil
}

func c11(c *vk.Ctx) {
	c11Range(c)
	c11IPP(c)
	c11Sigma(c)
	c11Boundaries(c)
	c11Strings(c)
	c11Hash(c)
}

func c11Range(c *vk.Ctx) {
	g := vk.NewIdeal("ideal256", Q256)
	type cfg struct {
		n, m int // m = 0: single proof
	}
	var cfgs []cfg
	for _, n := range []int{2, 4, 8, 16} {
		cfgs = append(cfgs, cfg{n, 0})
		for m := 1; m <= n; m *= 2 {
			cfgs = append(cfgs, cfg{n, m})
		}
	}
	prove := func(cf cfg, secret int64, dev map[int]vk.Deviation) (AnyProof, *vk.Stream, error) {
		ps := Params(g, cf.n)
		s := vk.With(77, dev)
		if cf.m == 0 {
			p, _, err := bulletproofs.Prove(B(secret), ps)
			return FromSingle(p), s, err
		}
		var vs []*big.Int
		k := cf.n / cf.m
		for j := 0; j < cf.m; j++ {
			vs = append(vs, mod(B(secret+int64(j)), Pow2(k)))
		}
		p, _, err := bulletproofs.MultiProve(vs, ps)
		return FromMulti(p), s, err
	}
	for _, cf := range cfgs {
		cf := cf
		tag := fmt.Sprintf("range/n=%d/m=%d", cf.n, cf.m)
		// independence of the challenges of one proof
		c.Case(tag+"/independent", func() (string, error) {
			var prev []Chal
			for sec := int64(0); sec < 2; sec++ {
				for f := 0; f < 6; f++ {
					p, _, err := prove(cf, sec, map[int]vk.Deviation{f: {Kind: "flip"}})
					if err != nil {
						return "", err
					}
					c.Trans(1)
					ch, err := extract(p)
					if err != nil {
						return "", err
					}
					if !p.Verify() {
						return "", vk.Errf("honest proof rejected")
					}
					c.State(fmt.Sprintf("%s|%v|%v|%v", tag, ch.X, ch.Y, ch.Z))
					prev = append(prev, ch)
				}
			}
			return "challenges unrelated", unrelated(prev, g.Q)
		})
		// one draw flipped: challenges after the changed message change
		_, s0, err := prove(cf, 1, nil)
		nd := 0
		if err == nil {
			nd = s0.N
		}
		for d := 0; d < nd; d++ {
			d := d
			c.Case(fmt.Sprintf("%s/draw=%d", tag, d), func() (string, error) {
				p0, _, err := prove(cf, 1, nil)
				if err != nil {
					return "", err
				}
				p1, _, err := prove(cf, 1, map[int]vk.Deviation{d: {Kind: "flip"}})
				if err != nil {
					return "", err
				}
				c.Trans(2)
				return compareRange(c, tag, p0, p1)
			})
		}
		for sec := int64(0); sec < 4; sec++ {
			sec := sec
			c.Case(fmt.Sprintf("%s/secret=%d", tag, sec), func() (string, error) {
				p0, _, err := prove(cf, 1, nil)
				if err != nil {
					return "", err
				}
				p1, _, err := prove(cf, sec, nil)
				if err != nil {
					return "", err
				}
				c.Trans(2)
				return compareRange(c, tag, p0, p1)
			})
		}
		// The verifier's challenges: every earlier message replaced on its own.
		for _, cm := range Comps(mustProof(prove(cf, 1, nil))) {
			cm := cm
			if cm.E == nil || cm.Name == "P" || cm.Name[0] == 'L' || cm.Name[0] == 'R' {
				continue
			}
			c.Case(fmt.Sprintf("%s/verifier/%s", tag, cm.Name), func() (string, error) {
				p, _, err := prove(cf, 1, nil)
				if err != nil {
					return "", err
				}
				ch0, ok := Observe(p)
				if !ok {
					return "verifier not observable", nil
				}
				for _, r := range Repls(p, cm) {
					if r.Name == "identity" || r.Name[0] == '=' || r.Name == "G" {
						continue
					}
					ch1, ok := Observe(Apply(p, cm, r))
					if !ok {
						continue
					}
					c.Trans(1)
					c.State(fmt.Sprintf("%s|v|%s|%s", tag, cm.Name, r.Name))
					early := cm.Name[0] != 'T'
					if ch0.X.Cmp(ch1.X) == 0 {
						return "", vk.Errf("x does not depend on %s (%s)", cm.Name, r.Name)
					}
					if early && ch0.Y.Cmp(ch1.Y) == 0 {
						return "", vk.Errf("y does not depend on %s (%s)", cm.Name, r.Name)
					}
					if early && ch0.Z.Cmp(ch1.Z) == 0 {
						return "", vk.Errf("z does not depend on %s (%s)", cm.Name, r.Name)
					}
				}
				return "verifier challenges bind the message", nil
			})
		}
		// Order and grouping of the commitments of an aggregate.
		if cf.m >= 2 {
			c.Case(tag+"/verifier/swap", func() (string, error) {
				p, _, err := prove(cf, 1, nil)
				if err != nil {
					return "", err
				}
				ch0, ok := Observe(p)
				if !ok {
					return "verifier not observable", nil
				}
				for i := 0; i < cf.m; i++ {
					for j := i + 1; j < cf.m; j++ {
						s := p.Clone()
						s.Vs[i], s.Vs[j] = s.Vs[j], s.Vs[i]
						ch1, ok := Observe(s)
						if ok && ch0.Y.Cmp(ch1.Y) == 0 {
							return "", vk.Errf("y does not depend on the order of commitments %d and %d", i, j)
						}
					}
				}
				return "order bound", nil
			})
		}
	}
}

func mustProof(p AnyProof, _ *vk.Stream, err error) AnyProof {
	if err != nil {
		panic(err)
	}
	return p
}

func compareRange(c *vk.Ctx, tag string, p0, p1 AnyProof) (string, error) {
	c0, err := extract(p0)
	if err != nil {
		return "", err
	}
	c1, err := extract(p1)
	if err != nil {
		return "", err
	}
	first, second := []string{}, []string{}
	for _, cm := range Comps(p0) {
		if cm.E == nil || Same(p0, p1, cm) {
			continue
		}
		switch cm.Name[0] {
		case 'V', 'A', 'S':
			first = append(first, cm.Name)
		case 'T':
			second = append(second, cm.Name)
		}
	}
	c.State(fmt.Sprintf("%s|%v|%v|%v", tag, c1.X, c1.Y, c1.Z))
	if len(first) > 0 && (c0.Y.Cmp(c1.Y) == 0 || c0.Z.Cmp(c1.Z) == 0) {
		return "", vk.Errf("%v differ but y or z is the same", first)
	}
	if len(first)+len(second) > 0 && c0.X.Cmp(c1.X) == 0 {
		return "", vk.Errf("%v %v differ but x is the same", first, second)
	}
	if len(first)+len(second) == 0 {
		return "same transcript", nil
	}
	return "challenges differ", nil
}

// unrelated rejects challenges that are equal or tied by a simple fixed relation.
func unrelated(cs []Chal, q *big.Int) error {
	rel := map[string][]string{}
	// Two runs may share a message, hence a challenge: a relation is judged on
	// runs that differ in both of its sides.
	shared := map[string]map[string]bool{}
	fresh := func(k string, vs ...*big.Int) bool {
		if shared[k] == nil {
			shared[k] = map[string]bool{}
		}
		for i, v := range vs {
			if shared[k][fmt.Sprint(i, v)] {
				return false
			}
		}
		for i, v := range vs {
			shared[k][fmt.Sprint(i, v)] = true
		}
		return true
	}
	for _, c := range cs {
		v := map[string]*big.Int{"x": c.X, "y": c.Y, "z": c.Z}
		for _, a := range []string{"x", "y", "z"} {
			for _, b := range []string{"x", "y", "z"} {
				if a == b {
					continue
				}
				if v[a].Cmp(v[b]) == 0 {
					return vk.Errf("challenges %s and %s are equal", a, b)
				}
				if !fresh(a+b, v[a], v[b]) {
					continue
				}
				rel[a+"-"+b] = append(rel[a+"-"+b], mod(sub(v[a], v[b]), q).String())
				rel[a+"+"+b] = append(rel[a+"+"+b], mod(add(v[a], v[b]), q).String())
				rel[a+"*"+b] = append(rel[a+"*"+b], mod(mul(v[a], v[b]), q).String())
				inv := new(big.Int).ModInverse(v[b], q)
				rel[a+"/"+b] = append(rel[a+"/"+b], mod(mul(v[a], inv), q).String())
				rel[a+"-"+b+"^2"] = append(rel[a+"-"+b+"^2"], mod(sub(v[a], mul(v[b], v[b])), q).String())
			}
		}
		for _, a := range []string{"x", "y", "z"} {
			fresh(a, v[a])
			if v[a].BitLen() < 128 {
				return vk.Errf("challenge %s is short: %v", a, v[a])
			}
		}
	}
	for _, a := range []string{"x", "y", "z"} {
		if len(shared[a]) < 3 {
			return vk.Errf("challenge %s takes only %d values in %d runs", a, len(shared[a]), len(cs))
		}
	}
	for k, l := range rel {
		seen := map[string]bool{}
		for _, s := range l {
			if seen[s] {
				return vk.Errf("relation %s takes the same value %s in two runs", k, s)
			}
			seen[s] = true
		}
	}
	return nil
}

// scalarsOn collects the scalars that f applies to the element with text t.
func scalarsOn(g *vk.IGroup, t string, f func()) []string {
	var out []string
	g.OnScale = func(e *vk.IElem, s *big.Int) {
		if e.Text() == t {
			out = append(out, mod(s, g.Q).String())
		}
	}
	_ = vk.Guard(func() error { f(); return nil })
	g.OnScale = nil
	return out
}

func meet(a, b []string) bool {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				return true
			}
		}
	}
	return false
}

func c11IPP(c *vk.Ctx) {
	g := vk.NewIdeal("ideal256", Q256)
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		mk := func() bulletproofs.InnerProductProof {
			params, _ := bulletproofs.ZSetupIP(nil, nil, int64(n), g)
			var a, b []*big.Int
			for i := 0; i < n; i++ {
				a, b = append(a, B(int64(3+5*i))), append(b, B(int64(7+11*i*i)))
			}
			p, err := bulletproofs.ZProveIP(a, b, bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, g), ip(a, b, Q256), params)
			if err != nil {
				panic(err)
			}
			return p
		}
		type slot struct {
			name  string
			round int // challenges of rounds >= round must change
			mut   func(*bulletproofs.InnerProductProof, int)
		}
		sh := func(e group.Element, k int) group.Element {
			return g.Lin(e, B(1), g.Generator(), B(int64(k)))
		}
		var slots []slot
		slots = append(slots,
			slot{"P", -1, func(p *bulletproofs.InnerProductProof, k int) { p.P = sh(p.P, k) }},
			slot{"c", -1, func(p *bulletproofs.InnerProductProof, k int) { p.Cc = add(p.Cc, B(int64(k))) }})
		for i := 0; i < n; i++ {
			i := i
			slots = append(slots,
				slot{fmt.Sprintf("Gg%d", i), -1, func(p *bulletproofs.InnerProductProof, k int) {
					p.Params.Gg = append([]group.Element(nil), p.Params.Gg...)
					p.Params.Gg[i] = sh(p.Params.Gg[i], k)
				}},
				slot{fmt.Sprintf("Hh%d", i), -1, func(p *bulletproofs.InnerProductProof, k int) {
					p.Params.Hh = append([]group.Element(nil), p.Params.Hh...)
					p.Params.Hh[i] = sh(p.Params.Hh[i], k)
				}})
		}
		rounds := len(mk().L)
		for i := 0; i < rounds; i++ {
			i := i
			slots = append(slots,
				slot{fmt.Sprintf("L%d", i), i, func(p *bulletproofs.InnerProductProof, k int) {
					p.L = append([]group.Element(nil), p.L...)
					p.L[i] = sh(p.L[i], k)
				}},
				slot{fmt.Sprintf("R%d", i), i, func(p *bulletproofs.InnerProductProof, k int) {
					p.R = append([]group.Element(nil), p.R...)
					p.R[i] = sh(p.R[i], k)
				}})
		}
		for _, sl := range slots {
			for _, k := range []int{1, -1, 1000003} {
				sl, k := sl, k
				c.Case(fmt.Sprintf("ipp/n=%d/%s%+d", n, sl.name, k), func() (string, error) {
					p0, p1 := mk(), mk()
					sl.mut(&p1, k)
					c.Trans(2)
					c.State(fmt.Sprintf("ipp|%d|%s|%d", n, sl.name, k))
					look := func(name string, t0, t1 string) error {
						a := scalarsOn(g, t0, func() { p0.Verify() })
						b := scalarsOn(g, t1, func() { p1.Verify() })
						if len(a) == 0 || len(b) == 0 {
							c.Note("verifier not observable at "+name, 1)
							return nil
						}
						if meet(a, b) {
							return vk.Errf("%s does not depend on %s", name, sl.name)
						}
						return nil
					}
					if sl.round < 0 {
						if err := look("the first challenge", El(p0.Params.Uu).Text(), El(p1.Params.Uu).Text()); err != nil {
							return "", err
						}
					}
					for r := 0; r < rounds; r++ {
						if r < sl.round {
							continue
						}
						if err := look(fmt.Sprintf("round challenge %d", r), El(p0.L[r]).Text(), El(p1.L[r]).Text()); err != nil {
							return "", err
						}
					}
					return "challenges depend on the message", nil
				})
			}
		}
		if rounds > 0 {
			c.Case(fmt.Sprintf("ipp/n=%d/distinct", n), func() (string, error) {
				p := mk()
				seen := map[string]int{}
				for r := 0; r < rounds; r++ {
					for _, s := range scalarsOn(g, El(p.L[r]).Text(), func() { p.Verify() }) {
						if o, ok := seen[s]; ok && o != r {
							return "", vk.Errf("rounds %d and %d use the same challenge", o, r)
						}
						seen[s] = r
					}
				}
				return "round challenges distinct", nil
			})
		}
	}
}

func c11Sigma(c *vk.Ctx) {
	type env struct {
		name string
		p    voteproof.ProofParams
		bc   uint16
	}
	e256, ff := vk.NewIdeal("ideal256", Q256), vk.NewIdeal("idealff", NFF)
	envs := []env{
		{"ideal", VPParams(ff, e256, 16, 224, 256, 101, 2000), 224},
		{"ideal/8", VPParams(ff, e256, 16, 8, 256, 101, 2000), 8},
		{"ideal/16", VPParams(ff, e256, 16, 16, 256, 101, 2000), 16},
		{"ideal/128", VPParams(ff, e256, 8, 128, 256, 101, 2000), 128},
		{"safe320", VPParams(SafeGroup(Safe320), e256, 16, 224, 256, 101, 2000), 224},
		{"P-384/256", VPParams(MODP3072(), group.P384(), 16, 256, 384, 101, 2000), 256},
	}
	for _, g := range Curves() {
		envs = append(envs, env{g.Name(), VPParams(SafeGroup(Safe320), g, 16, 224, capBits(g), 101, 2000), 224})
	}
	base := Stmt{B(500), B(31), B(32), B(33)}
	for _, e := range envs {
		e := e
		_, ideal := e.p.GEC.I.(*vk.IGroup)
		run := func(st Stmt, dev map[int]vk.Deviation) (VPAll, error) {
			s := vk.With(6, dev)
			s.Limit = 100000
			pr := st.Prove(e.p)
			c.Trans(1)
			if !ideal {
				c.Validated(1)
			}
			a := VPAll{pr, st.Comm(e.p)}
			if !a.Verify() {
				return a, vk.Errf("honest transcript rejected")
			}
			return a, nil
		}
		differ := func(what string, a, b VPAll) (string, error) {
			var msgs []string
			for _, cm := range VPComps() {
				if cm.E != nil && !(*cm.E(&a)).IsEqual(*cm.E(&b)) {
					msgs = append(msgs, cm.Name)
				}
			}
			c.State(fmt.Sprintf("sigma|%s|%s|%v", e.name, what, b.P.Challenge))
			if len(msgs) > 0 && a.P.Challenge.Cmp(b.P.Challenge) == 0 && e.bc >= 128 {
				return "", vk.Errf("%v differ but the challenge is the same", msgs)
			}
			if len(msgs) == 0 {
				return "same transcript " + what, nil
			}
			return "challenge differs", nil
		}
		for d := 0; d < 10; d++ {
			d := d
			c.Case(fmt.Sprintf("sigma/%s/draw=%d", e.name, d), func() (string, error) {
				a, err := run(base, nil)
				if err != nil {
					return "", err
				}
				b, err := run(base, map[int]vk.Deviation{d: {Kind: "flip"}})
				if err != nil {
					return "", err
				}
				return differ(fmt.Sprint("draw", d), a, b)
			})
		}
		ne, nf := e.p.GEC.I.N(), e.p.GFF.I.N()
		stmts := map[string]Stmt{
			"rp+1":   {base.X, B(32), base.Rq1, base.Rq2},
			"rp neg": {base.X, sub(nf, base.Rp), base.Rq1, base.Rq2},
			"rq1+1":  {base.X, base.Rp, B(33), base.Rq2},
			"rq1neg": {base.X, base.Rp, sub(ne, base.Rq1), base.Rq2},
			"rq2+1":  {base.X, base.Rp, base.Rq1, B(34)},
			"rq2neg": {base.X, base.Rp, base.Rq1, sub(ne, base.Rq2)},
			"x+1":    {B(501), base.Rp, base.Rq1, base.Rq2},
			"x0":     {B(0), base.Rp, base.Rq1, base.Rq2},
			"swap q": {base.X, base.Rp, base.Rq2, base.Rq1},
		}
		for _, k := range sortedKeys(stmts) {
			k := k
			c.Case(fmt.Sprintf("sigma/%s/stmt=%s", e.name, k), func() (string, error) {
				a, err := run(base, nil)
				if err != nil {
					return "", err
				}
				b, err := run(stmts[k], nil)
				if err != nil {
					return "", err
				}
				return differ(k, a, b)
			})
		}
		// With bases whose logarithms are known, each part of the statement can differ alone.
		q := e.p
		q.GFF.H, q.GEC.H = q.GFF.I.Element().BaseScale(B(3)), q.GEC.I.Element().BaseScale(B(5))
		alone := map[string]Stmt{ // x + 3 rp, x + 5 rq1 and x + 5 rq2 are kept, except one
			"Y":   {add(base.X, B(15)), sub(base.Rp, B(5)), sub(base.Rq1, B(3)), sub(base.Rq2, B(3))},
			"Xp":  {add(base.X, B(15)), base.Rp, sub(base.Rq1, B(3)), sub(base.Rq2, B(3))},
			"Xq1": {base.X, base.Rp, sub(base.Rq1, B(3)), base.Rq2},
			"Xq2": {base.X, base.Rp, base.Rq1, sub(base.Rq2, B(3))},
		}
		for _, k := range sortedKeys(alone) {
			k := k
			c.Case(fmt.Sprintf("sigma/%s/alone=%s", e.name, k), func() (string, error) {
				one := func(st Stmt) VPAll {
					s := vk.With(6, nil)
					s.Limit = 100000
					c.Trans(1)
					return VPAll{st.Prove(q), st.Comm(q)}
				}
				a, b := one(base), one(alone[k])
				if !a.Verify() || !b.Verify() {
					return "", vk.Errf("honest transcript rejected")
				}
				for _, cm := range VPComps() {
					if cm.E != nil && (*cm.E(&a)).IsEqual(*cm.E(&b)) == (cm.Name == k) {
						return "other parts differ too", nil
					}
				}
				return differ("alone "+k, a, b)
			})
		}
		c.Case(fmt.Sprintf("sigma/%s/length", e.name), func() (string, error) {
			or, and := new(big.Int), sub(Pow2(int(e.bc)), B(1))
			full := sub(Pow2(int(e.bc)), B(1))
			n := 64
			if !ideal {
				n = 24
			}
			zeros := new(big.Int)
			for i := 0; i < n; i++ {
				st := Stmt{B(int64(i)), B(int64(i + 1)), B(2), B(3)}
				vk.Fresh(uint64(1000 + i))
				ch := st.Prove(e.p).Challenge
				c.Trans(1)
				if ch.Sign() < 0 || ch.BitLen() > int(e.bc) {
					return "", vk.Errf("challenge %v longer than %d bits", ch, e.bc)
				}
				or.Or(or, ch)
				and.And(and, ch)
				zeros.Or(zeros, new(big.Int).AndNot(full, ch))
			}
			if or.Cmp(full) != 0 || zeros.Cmp(full) != 0 {
				return "", vk.Errf("some of the %d challenge bits never vary (or=%x, ones=%x)", e.bc, or, and)
			}
			return "every challenge bit varies", nil
		})
		// The challenge the verifier insists on: every message and statement part replaced
		// with a transcript that otherwise satisfies the equations is covered by C10; here
		// the verifier must refuse the prover's challenge once the message differs.
	}
}

// c11Strings: what gets hashed tells elements of the real groups apart.
func c11Strings(c *vk.Ctx) {
	gs := Curves()
	gs = append(gs, MODP3072(), SafeGroup(Safe64), SafeGroup(Safe320))
	for _, g := range gs {
		g := g
		c.Case("strings/"+g.Name(), func() (string, error) {
			seen := map[string]int64{}
			for k := int64(-60); k <= 60; k++ {
				e := g.Element().BaseScale(B(k))
				s := e.String()
				c.State(g.Name() + s)
				c.Validated(1)
				if o, ok := seen[s]; ok {
					return "", vk.Errf("%dG and %dG render as the same string %q", o, k, s)
				}
				seen[s] = k
				// The rendering does not depend on how the element was reached.
				for name, f := range ways(g, k) {
					if t := f().String(); t != s {
						return "", vk.Errf("%dG renders as %q or %q (%s)", k, s, t, name)
					}
				}
			}
			return "renderings injective and canonical", nil
		})
		c.Case("neighbours/"+g.Name(), func() (string, error) {
			for _, k := range neighbourBases(g) {
				e := g.Element().BaseScale(k)
				s := e.String()
				for name, f := range neighbours(g, e) {
					c.Trans(1)
					c.State(g.Name() + k.String() + name)
					if f.String() == s {
						return "", vk.Errf("%v*G and the element that differs from it in %s render as the same string", k, name)
					}
				}
			}
			return "neighbours have other renderings", nil
		})
	}
}

// neighbourBases are the logarithms of elements of full size.
func neighbourBases(g group.Group) []*big.Int {
	q := g.N()
	return []*big.Int{new(big.Int).Div(q, B(3)), new(big.Int).Div(q, B(7)), sub(q, B(5)), mod(mul(Pow2(q.BitLen()-2), B(5)), q)}
}

// neighbours are the elements whose representation differs from that of e in one bit, or
// (curves) in one coordinate.
func neighbours(g group.Group, e group.Element) map[string]group.Element {
	out := map[string]group.Element{"sign": g.Element().Negate(e)}
	if g.Name() == "secp256k1" {
		// Multiplying by a cube root of one changes the abscissa alone.
		l := new(big.Int).Exp(B(7), new(big.Int).Div(sub(g.N(), B(1)), B(3)), g.N())
		out["abscissa"] = g.Element().Scale(e, l)
		out["abscissa2"] = g.Element().Scale(e, mul(l, l))
	}
	js, err := e.MarshalJSON()
	if err != nil {
		panic(err)
	}
	v, ok := new(big.Int).SetString(string(js), 10)
	if !ok {
		return out // a curve
	}
	for i := 0; i < g.P().BitLen(); i++ {
		w := new(big.Int).Xor(v, Pow2(i))
		f := g.Element()
		if f.UnmarshalJSON([]byte(w.String())) == nil {
			out[fmt.Sprintf("bit %d", i)] = f
		}
	}
	return out
}

// ways reaches kG along different routes.
func ways(g group.Group, k int64) map[string]func() group.Element {
	bs := func(x int64) group.Element { return g.Element().BaseScale(B(x)) }
	return map[string]func() group.Element{
		"add":      func() group.Element { return g.Element().Add(bs(k-5), bs(5)) },
		"sub":      func() group.Element { return g.Element().Subtract(bs(k+7), bs(7)) },
		"neg":      func() group.Element { return g.Element().Negate(bs(-k)) },
		"scale":    func() group.Element { return g.Element().Scale(g.Generator(), B(k)) },
		"scale+n":  func() group.Element { return g.Element().Scale(g.Generator(), add(B(k), g.N())) },
		"base+n":   func() group.Element { return g.Element().BaseScale(add(B(k), g.N())) },
		"set":      func() group.Element { return g.Element().Set(bs(k)) },
		"identity": func() group.Element { return g.Element().Add(bs(k), g.Identity()) },
		"inplace": func() group.Element {
			e := bs(k - 1)
			e.Add(e, g.Generator())
			return e
		},
	}
}

// c11Boundaries: in ElGamal groups so small that all their elements can be listed, every
// other assignment of the group elements of a statement and first move, with responses
// that satisfy all equations for the honest challenge, must be refused: it would have the
// same challenge. (All bases have known logarithms, so such responses exist.)
func c11Boundaries(c *vk.Ctx) {
	ec := vk.NewIdeal("ideal256", Q256)
	slots := []string{"Y", "Xp", "W", "Kp"}
	run := func(p int64, gen int64, seed uint64, tag string, alts func(ff group.Group, els []group.Element, t [4]int, f func([4]int) error) error) {
		c.Case(fmt.Sprintf("boundaries/%s/p=%d/%d", tag, p, seed), func() (string, error) {
			ff := SafeGroupGen(p, gen)
			q := ff.N()
			// all elements, by logarithm
			var els []group.Element
			log := map[string]int{}
			for e := ff.Identity(); len(els) < int(q.Int64()); e = ff.Element().Add(e, ff.Generator()) {
				log[e.String()] = len(els)
				els = append(els, e)
			}
			ps := VPParams(SafeGroup(Safe320), ec, 16, 224, 256, 0, 65535)
			ps.GFF = gp(ff, ff.Element().BaseScale(B(3)))
			ps.GFF.N = mul(q, Pow2(300)) // a multiple of the order above every nonce
			ps.GEC.H = ec.Element().BaseScale(B(5))
			s := vk.With(seed, nil)
			s.Limit = 100000
			st := Stmt{B(int64(1 + seed*7)), mod(B(int64(2+3*seed)), q), B(32), B(33)}
			pr, cm := st.Prove(ps), st.Comm(ps)
			if !(VPAll{pr, cm}).Verify() {
				return "", vk.Errf("honest transcript rejected")
			}
			base := [4]int{log[cm.Y.String()], log[cm.Xp.String()], log[pr.W.String()], log[pr.Kp.String()]}
			inv5 := new(big.Int).ModInverse(B(5), Q256)
			n := 0
			err := alts(ff, els, base, func(t [4]int) error {
				a := VPAll{pr, cm}
				a.C.Y, a.C.Xp, a.P.W, a.P.Kp = els[t[0]], els[t[1]], els[t[2]], els[t[3]]
				sp := mod(add(B(int64(t[2])), mul(pr.Challenge, B(int64(t[0])))), q)
				// z moves to the residue that satisfies the ciphertext equation; the curve
				// responses absorb the move.
				want := sub(add(B(int64(t[3])), mul(pr.Challenge, B(int64(t[1])))), mul(B(3), sp))
				d := mod(sub(want, pr.Z), q)
				a.P.Sp, a.P.Z = sp, add(pr.Z, d)
				a.P.Sq1, a.P.Sq2 = mod(sub(pr.Sq1, mul(d, inv5)), Q256), mod(sub(pr.Sq2, mul(d, inv5)), Q256)
				n++
				c.Trans(1)
				if a.Verify() != (t == base) {
					if t == base {
						return vk.Errf("equivalent responses rejected: the oracle does not match the equations")
					}
					var w string
					for i, s := range slots {
						w += fmt.Sprintf(" %s=%v (was %v)", s, els[t[i]], els[base[i]])
					}
					return vk.Errf("same challenge for another transcript:%s", w)
				}
				return nil
			})
			c.State(fmt.Sprintf("boundaries|%s|%d|%d|%v|%d", tag, p, seed, base, n))
			c.Validated(n)
			return "every other assignment has another challenge", err
		})
	}
	// Every assignment.
	for _, p := range []int64{11, 23} {
		for seed := uint64(1); seed <= uint64(map[bool]int{false: 6, true: 40}[c.Thorough()]); seed++ {
			run(p, map[int64]int64{11: 4, 23: 2}[p], seed, "all", func(_ group.Group, els []group.Element, base [4]int, f func([4]int) error) error {
				for i := range els {
					for j := range els {
						for k := range els {
							for l := range els {
								if err := f([4]int{i, j, k, l}); err != nil {
									return err
								}
							}
						}
					}
				}
				return nil
			})
		}
	}
	// Digits (or bytes) moved from one element to its neighbour, swaps, one element replaced.
	for _, p := range [][2]int64{{227, 3}, {1019, 4}, {2027, 3}} {
		for seed := uint64(1); seed <= uint64(map[bool]int{false: 12, true: 120}[c.Thorough()]); seed++ {
			run(p[0], p[1], seed, "moved", func(ff group.Group, els []group.Element, base [4]int, f func([4]int) error) error {
				text, data := map[string]int{}, map[string]int{}
				bin := func(i int) string { b, _ := els[i].MarshalBinary(); return string(b) }
				for i := range els {
					text[els[i].String()] = i
					data[bin(i)] = i
				}
				if err := f(base); err != nil {
					return err
				}
				for a := 0; a < 4; a++ {
					for b := 0; b < 4; b++ {
						if a == b {
							continue
						}
						for way, m := range []map[string]int{text, data} {
							s := els[base[a]].String() + els[base[b]].String()
							if way == 1 {
								s = bin(base[a]) + bin(base[b])
							}
							for cut := 0; cut <= len(s); cut++ {
								i, ok1 := m[s[:cut]]
								j, ok2 := m[s[cut:]]
								if !ok1 || !ok2 {
									continue
								}
								t := base
								t[a], t[b] = i, j
								if t == base {
									continue
								}
								if err := f(t); err != nil {
									return err
								}
							}
						}
						t := base
						t[a], t[b] = t[b], t[a]
						if t != base {
							if err := f(t); err != nil {
								return err
							}
						}
					}
					for i := range els {
						t := base
						t[a] = i
						if t != base {
							if err := f(t); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
	}
}

// c11Hash gives the range proofs' challenge derivation every tuple of small elements, up to
// as many as an aggregate of two values hashes: no two tuples of one length may agree in a challenge.
func c11Hash(c *vk.Ctx) {
	for _, g := range Curves() {
		g := g
		depth := 6
		for k := 2; k <= depth; k++ {
			k := k
			c.Case(fmt.Sprintf("hash/%s/%d", g.Name(), k), func() (string, error) {
				h, err := g.Element().MapToGroup("h")
				if err != nil {
					return "", err
				}
				al := []group.Element{g.Identity(), g.Generator(), g.Element().Negate(g.Generator()), h}
				first, second := map[string]string{}, map[string]string{}
				idx := make([]int, k)
				for {
					es := make([]group.Element, k)
					for i, j := range idx {
						es[i] = al[j]
					}
					a, b, err := bulletproofs.HashBP(es[0], es[1], es[2:]...)
					if err != nil {
						return "", err
					}
					name := fmt.Sprint(idx)
					for i, m := range []map[string]string{first, second} {
						t := []*big.Int{a, b}[i].String()
						if o, ok := m[t]; ok {
							return "", vk.Errf("the messages %s and %s (0: identity, 1: G, 2: -G, 3: H) get the same challenge", o, name)
						}
						m[t] = name
					}
					c.Trans(1)
					c.State(g.Name() + name)
					i := 0
					for ; i < k; i++ {
						if idx[i]++; idx[i] < len(al) {
							break
						}
						idx[i] = 0
					}
					if i == k {
						break
					}
				}
				c.Validated(1)
				return "all tuples separated", nil
			})
		}
	}
}
