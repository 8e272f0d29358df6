package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C07"] = c07
	vk.Describe("C07", "one case = one vector pair: proved with the true product (must verify) and with each wrong product (must not), or one mutated/forged inner-product proof",
		"vector entries come from small alphabets; lengths 8..32 only as bounded deviations from base vectors")
}

type ippComp struct {
	Name string
	E    func(p *bulletproofs.InnerProductProof) *group.Element
	S    func(p *bulletproofs.InnerProductProof) **big.Int
}

func ippComps(rounds int) []ippComp {
	cs := []ippComp{
		{Name: "P", E: func(p *bulletproofs.InnerProductProof) *group.Element { return &p.P }},
		{Name: "Cc", S: func(p *bulletproofs.InnerProductProof) **big.Int { return &p.Cc }},
		{Name: "a", S: func(p *bulletproofs.InnerProductProof) **big.Int { return &p.A }},
		{Name: "b", S: func(p *bulletproofs.InnerProductProof) **big.Int { return &p.B }},
	}
	for i := 0; i < rounds; i++ {
		i := i
		cs = append(cs,
			ippComp{Name: fmt.Sprintf("L%d", i), E: func(p *bulletproofs.InnerProductProof) *group.Element { return &p.L[i] }},
			ippComp{Name: fmt.Sprintf("R%d", i), E: func(p *bulletproofs.InnerProductProof) *group.Element { return &p.R[i] }})
	}
	for i := 0; i < 1<<uint(rounds); i++ {
		i := i
		cs = append(cs,
			ippComp{Name: fmt.Sprintf("g%d", i), E: func(p *bulletproofs.InnerProductProof) *group.Element { return &p.Params.Gg[i] }},
			ippComp{Name: fmt.Sprintf("h%d", i), E: func(p *bulletproofs.InnerProductProof) *group.Element { return &p.Params.Hh[i] }})
	}
	return cs
}

func cloneIPP(p bulletproofs.InnerProductProof) bulletproofs.InnerProductProof {
	p.L = append([]group.Element(nil), p.L...)
	p.R = append([]group.Element(nil), p.R...)
	p.Params.Gg = append([]group.Element(nil), p.Params.Gg...)
	p.Params.Hh = append([]group.Element(nil), p.Params.Hh...)
	return p
}

// ippText renders a proof with its parameters by value.
func ippText(p bulletproofs.InnerProductProof) string {
	var w strings.Builder
	el := func(e group.Element) {
		if e != nil {
			w.WriteString(e.String())
		}
		w.WriteByte(';')
	}
	for _, es := range [][]group.Element{{p.P, p.Params.Uu}, p.L, p.R, p.Params.Gg, p.Params.Hh} {
		w.WriteByte('|')
		for _, e := range es {
			el(e)
		}
	}
	for _, x := range []*big.Int{p.Cc, p.A, p.B} {
		fmt.Fprint(&w, x, ";")
	}
	return w.String()
}

func ippOK(p bulletproofs.InnerProductProof) bool {
	ok, err := p.Verify()
	return ok && err == nil
}

func ipParams(g group.Group, n int) bulletproofs.InnerProductParams {
	p, err := bulletproofs.ZSetupIP(nil, nil, int64(n), g)
	if err != nil {
		panic(err)
	}
	return p
}

var ipMemo = map[string]bulletproofs.InnerProductParams{}

func ipp(g group.Group, n int) bulletproofs.InnerProductParams {
	k := fmt.Sprintf("%p/%d", g, n)
	if _, ok := ipMemo[k]; !ok {
		ipMemo[k] = ipParams(g, n)
	}
	return ipMemo[k]
}

// ipPair checks one vector pair with the true and the wrong products.
func ipPair(c *vk.Ctx, g group.Group, a, b []*big.Int, key string, wrongs bool) error {
	q := g.N()
	params := ipp(g, len(a))
	P := bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, g)
	cc := ip(a, b, q)
	before := ippText(bulletproofs.InnerProductProof{P: P, Cc: cc, Params: params}) + vecKey(a, b)
	proof, err := bulletproofs.ZProveIP(a, b, P, cc, params)
	if err != nil {
		return vk.Errf("prove: %v", err)
	}
	if after := ippText(bulletproofs.InnerProductProof{P: P, Cc: cc, Params: params}) + vecKey(a, b); after != before {
		return vk.Errf("proving changed its inputs")
	}
	c.Trans(3)
	c.State(key)
	text := ippText(proof)
	for i := 0; i < 2; i++ {
		if !ippOK(proof) {
			return vk.Errf("true inner product %v rejected (verification %d)", cc, i+1)
		}
		if ippText(proof) != text {
			return vk.Errf("verification %d changed the proof or the parameters", i+1)
		}
	}
	if !wrongs {
		return nil
	}
	for _, r := range ScalarRepls(q, cc, map[string]*big.Int{"a0": a[0], "b0": b[0]}) {
		bad, err := bulletproofs.ZProveIP(a, b, P, r.S, params)
		c.Trans(2)
		if err == nil && ippOK(bad) {
			return vk.Errf("wrong inner product %v (true: %v) accepted", r.S, cc)
		}
		alt := cloneIPP(proof)
		alt.Cc = r.S
		if ippOK(alt) {
			return vk.Errf("inner product claim changed from %v to %v accepted", cc, r.S)
		}
	}
	return nil
}

func vecKey(vs ...[]*big.Int) string {
	s := ""
	for _, v := range vs {
		for _, x := range v {
			t := x.String()
			if len(t) > 12 {
				t = t[:4] + ".." + t[len(t)-4:]
			}
			s += t + ","
		}
		s += ";"
	}
	return s
}

// tuples enumerates all length-n tuples over an alphabet.
func tuples(n int, alpha []*big.Int, f func([]*big.Int)) {
	idx := make([]int, n)
	for {
		t := make([]*big.Int, n)
		for i, k := range idx {
			t[i] = alpha[k]
		}
		f(t)
		i := 0
		for i < n {
			idx[i]++
			if idx[i] < len(alpha) {
				break
			}
			idx[i] = 0
			i++
		}
		if i == n {
			return
		}
	}
}

func c07(c *vk.Ctx) {
	ig := vk.NewIdeal("ideal256", Q256)
	big1 := sub(Pow2(200), B(19))
	full := []*big.Int{B(0), B(1), B(2), sub(Q256, B(1)), big1}
	small := []*big.Int{B(0), B(1), sub(Q256, B(1))}
	do := func(tag string, g group.Group, a, b []*big.Int, wrongs bool) {
		key := fmt.Sprintf("%s/n=%d/%s", tag, len(a), vecKey(a, b))
		c.Case(key, func() (string, error) {
			if _, real := g.(*vk.IGroup); !real {
				c.Validated(1)
			}
			return "true accepted, wrong rejected", ipPair(c, g, a, b, key, wrongs)
		})
	}
	tuples(2, full, func(t []*big.Int) { do("pair", ig, t[:1], t[1:], true) })
	tuples(4, full, func(t []*big.Int) { do("pair", ig, t[:2], t[2:], true) })
	alpha4 := small[:2]
	if c.Thorough() {
		alpha4 = small
	}
	tuples(8, alpha4, func(t []*big.Int) { do("pair4", ig, t[:4], t[4:], true) })
	// Deviations from base vectors: every position set to each value; pairs of positions.
	bases := map[string]func(i int) *big.Int{
		"ones": func(i int) *big.Int { return B(1) },
		"ramp": func(i int) *big.Int { return B(int64(i + 1)) },
		"zero": func(i int) *big.Int { return B(0) },
		"top":  func(i int) *big.Int { return sub(Q256, B(int64(i+1))) },
	}
	for _, n := range []int{8, 16, 32, 64} {
		for _, bn := range sortedKeys(bases) {
			v := make([]*big.Int, 2*n)
			for i := range v {
				v[i] = bases[bn](i)
			}
			do("base-"+bn, ig, v[:n], v[n:], true)
			for i := range v {
				for _, x := range []*big.Int{B(0), big1, sub(Q256, B(1))} {
					w := append([]*big.Int(nil), v...)
					w[i] = x
					do(fmt.Sprintf("dev-%s-%d", bn, i), ig, w[:n], w[n:], n <= 16)
					if n == 8 || c.Thorough() && n == 16 {
						for j := i + 1; j < len(v); j++ {
							w2 := append([]*big.Int(nil), w...)
							w2[j] = x
							do(fmt.Sprintf("dev-%s-%d-%d", bn, i, j), ig, w2[:n], w2[n:], false)
						}
					}
				}
			}
		}
	}
	// Long vectors: true products, a wrong one, and deviations at the ends and in the middle.
	long := []int{128, 256, 512}
	if c.Thorough() {
		long = append(long, 1024, 2048)
	}
	for _, n := range long {
		for _, bn := range sortedKeys(bases) {
			v := make([]*big.Int, 2*n)
			for i := range v {
				v[i] = bases[bn](i)
			}
			n, bn := n, bn
			do("long-"+bn, ig, v[:n], v[n:], false)
			for _, i := range []int{0, n/2 - 1, n / 2, n - 1, n, 2*n - 1} {
				w := append([]*big.Int(nil), v...)
				w[i] = big1
				do(fmt.Sprintf("long-%s-%d", bn, i), ig, w[:n], w[n:], false)
			}
			c.Case(fmt.Sprintf("long-wrong/%s/n=%d", bn, n), func() (string, error) {
				params := ipp(ig, n)
				a, b := v[:n], v[n:]
				P := bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, ig)
				cc := ip(a, b, Q256)
				for _, w := range []*big.Int{add(cc, B(1)), sub(cc, B(1)), sub(Q256, cc), add(cc, big1)} {
					if mod(sub(w, cc), Q256).Sign() == 0 {
						continue
					}
					p, err := bulletproofs.ZProveIP(a, b, P, w, params)
					c.Trans(2)
					c.State(fmt.Sprintf("long-wrong|%s|%d|%v", bn, n, w))
					if err == nil && ippOK(p) {
						return "", vk.Errf("wrong inner product %v (true: %v) accepted", w, cc)
					}
				}
				return "true accepted, wrong rejected", nil
			})
		}
	}
	// Different lengths are refused.
	for _, l := range [][2]int{{1, 2}, {2, 1}, {4, 2}, {2, 4}, {0, 1}, {4, 3}} {
		l := l
		c.Case(fmt.Sprintf("lengths/%d,%d", l[0], l[1]), func() (string, error) {
			mk := func(n int) []*big.Int {
				v := make([]*big.Int, n)
				for i := range v {
					v[i] = B(1)
				}
				return v
			}
			params := ipp(ig, 4)
			_, err := bulletproofs.ZProveIP(mk(l[0]), mk(l[1]), ig.Generator(), B(1), params)
			if err == nil {
				return "", vk.Errf("vectors of length %d and %d not refused", l[0], l[1])
			}
			return "refused", nil
		})
	}
	// Mutations of valid proofs.
	mutate := func(tag string, g group.Group, rounds int) {
		n := 1 << uint(rounds)
		for _, cm := range ippComps(rounds) {
			cm := cm
			key := fmt.Sprintf("%s/n=%d/%s", tag, n, cm.Name)
			c.Case(key, func() (string, error) {
				a, b := make([]*big.Int, n), make([]*big.Int, n)
				for i := range a {
					a[i], b[i] = B(int64(3+i)), B(int64(11+5*i))
				}
				params := ipp(g, n)
				P := bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, g)
				p, err := bulletproofs.ZProveIP(a, b, P, ip(a, b, g.N()), params)
				if err != nil || !ippOK(p) {
					return "", vk.Errf("base proof does not verify: %v", err)
				}
				pc := cloneIPP(p)
				var rs []Repl
				if cm.E != nil {
					others := map[string]group.Element{}
					for _, o := range ippComps(rounds) {
						if o.E != nil && o.Name != cm.Name && len(others) < 8 {
							others[o.Name] = *o.E(&pc)
						}
					}
					rs = ElemRepls(g, *cm.E(&pc), map[string]group.Element{"U": params.Uu, "g0": params.Gg[0]}, others)
				} else {
					rs = ScalarRepls(g.N(), *cm.S(&pc), map[string]*big.Int{"Cc": p.Cc, "a": p.A, "b": p.B})
				}
				for _, r := range rs {
					m := cloneIPP(p)
					if cm.E != nil {
						*cm.E(&m) = r.E
					} else {
						*cm.S(&m) = r.S
					}
					c.Trans(1)
					c.State(key + r.Name)
					if _, ideal := g.(*vk.IGroup); !ideal {
						c.Validated(1)
					}
					if ippOK(m) {
						return "", vk.Errf("accepted with %s replaced (%s)", cm.Name, r.Name)
					}
				}
				return "all replacements rejected", nil
			})
		}
	}
	lists := func(tag string, g group.Group, rounds int) {
		n := 1 << uint(rounds)
		key := fmt.Sprintf("%s/n=%d/lists", tag, n)
		c.Case(key, func() (string, error) {
			for _, shape := range []int64{0, 1} { // ramps, all zero
				a, b := make([]*big.Int, n), make([]*big.Int, n)
				for i := range a {
					a[i], b[i] = B((1-shape)*int64(3+i)), B((1-shape)*int64(11+5*i))
				}
				params := ipp(g, n)
				P := bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, g)
				p, err := bulletproofs.ZProveIP(a, b, P, ip(a, b, g.N()), params)
				if err != nil || !ippOK(p) {
					return "", vk.Errf("base proof does not verify: %v", err)
				}
				for _, f := range ListFaults(g, p.L, p.R) {
					if sameList(f.L, p.L) && sameList(f.R, p.R) {
						continue
					}
					m := cloneIPP(p)
					m.L, m.R = f.L, f.R
					c.Trans(1)
					c.State(key + f.Name)
					if err := vk.Guard(func() error {
						if ippOK(m) {
							return vk.Errf("accepted: %s", f.Name)
						}
						return nil
					}); err != nil {
						return "", vk.Errf("%s: %v", f.Name, err)
					}
				}
			}
			return "all list faults rejected", nil
		})
	}
	for rounds := 0; rounds <= 5; rounds++ {
		lists("mutate/ideal", ig, rounds)
	}
	for _, g := range Curves() {
		lists("mutate/"+g.Name(), g, 1)
		lists("mutate/"+g.Name(), g, 2)
	}
	for rounds := 0; rounds <= 4; rounds++ {
		mutate("mutate/ideal", ig, rounds)
	}
	for _, g := range Curves() {
		mutate("mutate/"+g.Name(), g, 1)
		if c.Thorough() {
			mutate("mutate/"+g.Name(), g, 3)
		}
	}
	// Forgeries: rounds fixed before the statement. The round challenges are observed by
	// running the verifier; accepted only if the product of the vectors in P is Cc.
	for _, rounds := range []int{1, 2, 3} {
		for seed := 0; seed < 6; seed++ {
			for sign := 0; sign < 1<<uint(rounds); sign++ {
				for _, st := range []string{"p-last", "c-last"} {
					rounds, seed, sign, st := rounds, seed, sign, st
					key := fmt.Sprintf("forge/%s/n=%d/%d/%d", st, 1<<uint(rounds), seed, sign)
					c.Case(key, func() (string, error) {
						p, ok := forgeIPP(ig, rounds, seed, sign, st)
						if !ok {
							return "not applicable", nil
						}
						c.Trans(1)
						c.State(key)
						if !ippOK(p) {
							return "rejected", nil
						}
						return "accepted, true", trueIPP(ig, p)
					})
				}
			}
		}
	}
	// Late claim: P carries d.u; once the challenge for some claim is known, the claim is
	// moved so that the u-part cancels.
	for _, n := range []int{1, 2, 4, 8} {
		for _, d := range []*big.Int{B(1), B(-1), B(12345), sub(Pow2(200), B(3))} {
			for _, first := range []*big.Int{B(0), B(1), Pow2(100)} {
				n, d, first := n, d, first
				key := fmt.Sprintf("forge/late-claim/n=%d/%v/%v", n, d, first)
				c.Case(key, func() (string, error) {
					params := ipp(ig, n)
					var a, b []*big.Int
					for i := 0; i < n; i++ {
						a, b = append(a, B(int64(2+i))), append(b, B(int64(9+3*i)))
					}
					P := ig.Lin(bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, ig), B(1), params.Uu, d)
					var x *big.Int
					ig.OnScale = func(e *vk.IElem, s *big.Int) {
						if e.Text() == El(params.Uu).Text() && x == nil {
							x = mod(s, ig.Q)
						}
					}
					err := vk.Guard(func() error { _, err := bulletproofs.ZProveIP(a, b, P, first, params); return err })
					ig.OnScale = nil
					if err != nil || x == nil || x.Sign() == 0 {
						return "not applicable", nil
					}
					cl := mod(sub(ip(a, b, ig.Q), mul(d, new(big.Int).ModInverse(x, ig.Q))), ig.Q)
					p, err := bulletproofs.ZProveIP(a, b, P, cl, params)
					if err != nil {
						return "refused", nil
					}
					c.Trans(2)
					c.State(key)
					if !ippOK(p) {
						return "rejected", nil
					}
					return "accepted, true", trueIPP(ig, p)
				})
			}
		}
	}
	// Claims wrong by a factor, with the final scalars in every representative: with one
	// entry at the same place of both vectors the final product is that of the entries
	// whatever the challenges are.
	for _, n := range []int{1, 2, 4, 8} {
		for pos := 0; pos < n; pos += max(1, n-1) {
			for ai, av := range []*big.Int{B(1), B(2), big1, sub(Q256, B(3))} {
				for bi, bv := range []*big.Int{B(1), B(5), sub(Q256, big1)} {
					n, pos, av, bv := n, pos, av, bv
					key := fmt.Sprintf("representatives/n=%d/%d/%d,%d", n, pos, ai, bi)
					c.Case(key, func() (string, error) {
						a, b := make([]*big.Int, n), make([]*big.Int, n)
						for i := range a {
							a[i], b[i] = B(0), B(0)
						}
						a[pos], b[pos] = av, bv
						params := ipp(ig, n)
						P := bulletproofs.ZCommitIP(params.Gg, params.Hh, a, b, ig)
						t := ip(a, b, Q256)
						for _, f := range []*big.Int{B(1), B(-1), B(2), B(-2), B(4), new(big.Int).ModInverse(B(2), Q256), B(0), Pow2(64), Pow2(128), new(big.Int).ModInverse(Pow2(8), Q256)} {
							claim := mod(mul(t, f), Q256)
							p, err := bulletproofs.ZProveIP(a, b, P, claim, params)
							if err != nil {
								continue
							}
							reps := func(x *big.Int) []*big.Int {
								m := mod(x, Q256)
								return []*big.Int{x, sub(m, Q256), sub(Q256, m), new(big.Int).Neg(m), mod(mul(m, B(2)), Q256), add(m, Q256), sub(m, mul(Q256, Pow2(64))), add(m, mul(Q256, Pow2(256))), B(0), mod(mul(m, f), Q256)}
							}
							for i, ra := range reps(p.A) {
								for j, rb := range reps(p.B) {
									m := cloneIPP(p)
									m.A, m.B = ra, rb
									c.Trans(1)
									c.State(fmt.Sprintf("%s/%v/%d,%d", key, f, i, j))
									if !ippOK(m) {
										continue
									}
									if err := trueIPP(ig, m); err != nil {
										return "", err
									}
								}
							}
						}
						return "only the product accepted", nil
					})
				}
			}
		}
	}
	// Real groups, all pairs over {0,1,order-1} for n=1,2.
	for _, g := range Curves() {
		al := []*big.Int{B(0), B(1), sub(g.N(), B(1))}
		tuples(2, al, func(t []*big.Int) { do("real/"+g.Name(), g, t[:1], t[1:], true) })
		tuples(4, al[:2], func(t []*big.Int) { do("real/"+g.Name(), g, t[:2], t[2:], c.Thorough()) })
		a, b := make([]*big.Int, 8), make([]*big.Int, 8)
		for i := range a {
			a[i], b[i] = sub(g.N(), B(int64(i+1))), B(int64(i*i))
		}
		do("real/"+g.Name(), g, a, b, true)
	}
}

// trueIPP reads the vectors committed in P and compares their product with the claim.
func trueIPP(g *vk.IGroup, p bulletproofs.InnerProductProof) error {
	n := len(p.Params.Gg)
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	for i := 0; i < n; i++ {
		a[i] = El(p.P).Coef(El(p.Params.Gg[i]).BasisIndex())
		b[i] = El(p.P).Coef(El(p.Params.Hh[i]).BasisIndex())
	}
	if ip(a, b, g.Q).Cmp(mod(p.Cc, g.Q)) != 0 {
		return vk.Errf("accepted: the vectors in P have product %v, claimed %v", ip(a, b, g.Q), p.Cc)
	}
	return nil
}

func forgeIPP(g *vk.IGroup, rounds, seed, sign int, st string) (p bulletproofs.InnerProductProof, ok bool) {
	q := g.Q
	n := 1 << uint(rounds)
	params := ipp(g, n)
	rnd := func(i int) *big.Int {
		b := make([]byte, 32)
		vk.FillBytes(b, uint64(seed+100), i)
		return mod(new(big.Int).SetBytes(b), q)
	}
	p.Params = params
	for i := 0; i < rounds; i++ {
		mk := func(k int) group.Element {
			args := []any{}
			for j := 0; j < n; j++ {
				args = append(args, params.Gg[j], rnd(k+2*j), params.Hh[j], rnd(k+2*j+1))
			}
			if st == "c-last" {
				args = append(args, params.Uu, rnd(k+999))
			}
			return g.Lin(args...)
		}
		p.L = append(p.L, mk(1000*(2*i+1)))
		p.R = append(p.R, mk(1000*(2*i+2)))
	}
	p.A, p.B = rnd(1), rnd(2)
	p.Cc = mod(mul(p.A, p.B), q)
	p.P = g.Lin(params.Gg[0], B(1), params.Hh[0], B(1))
	observe := func() (xs []*big.Int, ux *big.Int) {
		xs = make([]*big.Int, rounds)
		g.OnScale = func(e *vk.IElem, s *big.Int) {
			t := e.Text()
			for i := range p.L {
				if t == El(p.L[i]).Text() && xs[i] == nil {
					if r := new(big.Int).ModSqrt(mod(s, q), q); r != nil {
						if sign>>uint(i)&1 == 1 {
							r.Sub(q, r)
						}
						xs[i] = r
					}
				}
			}
			if t == El(params.Uu).Text() && ux == nil {
				ux = mod(s, q)
			}
		}
		vk.Guard(func() error { ippOK(p); return nil })
		g.OnScale = nil
		return
	}
	xs, _ := observe()
	for _, x := range xs {
		if x == nil {
			return p, false
		}
	}
	// Fold the generators.
	gg, hh := append([]group.Element(nil), params.Gg...), append([]group.Element(nil), params.Hh...)
	acc := g.Lin()
	for i, x := range xs {
		xi := new(big.Int).ModInverse(x, q)
		h := len(gg) / 2
		var ng, nh []group.Element
		for j := 0; j < h; j++ {
			ng = append(ng, g.Lin(gg[j], xi, gg[j+h], x))
			nh = append(nh, g.Lin(hh[j], x, hh[j+h], xi))
		}
		gg, hh = ng, nh
		acc = g.Lin(acc, B(1), p.L[i], mod(mul(x, x), q), p.R[i], mod(mul(xi, xi), q))
	}
	u := El(params.Uu).BasisIndex()
	kappa := acc.Coef(u)
	noU := g.Lin(acc, B(1), params.Uu, new(big.Int).Neg(kappa))
	p.P = g.Lin(gg[0], p.A, hh[0], p.B, noU, B(-1))
	if st == "c-last" {
		_, ux := observe()
		if ux == nil || ux.Sign() == 0 {
			return p, false
		}
		p.Cc = mod(sub(mul(p.A, p.B), mul(kappa, new(big.Int).ModInverse(ux, q))), q)
	}
	return p, true
}
