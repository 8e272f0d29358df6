package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C13"] = c13
	vk.Describe("C13", "one case = a first operation on a 3-register machine (all receivers, operands and aliasings, arithmetic, copying and decoding) followed by every second operation (thorough: third), every register compared after every step with reference arithmetic on discrete logarithms w.r.t. the generator and a hashed element; plus every scalar of an alphabet on every kind of operand; small safe-prime groups completely",
		"the reference arithmetic (own affine Weierstrass, edwards25519/RFC 9496 and modular arithmetic) is right; it is checked against the standard generators")
}

// vec is a discrete logarithm with respect to (G, H).
type vec struct{ a, b *big.Int }

func (v vec) key() string { return v.a.Text(36) + "/" + v.b.Text(36) }

// mach is the register machine over a real group together with its model.
type mach struct {
	rg  RG
	h   string // text of H
	r   [3]group.Element
	m   [3]vec
	hJS []byte
}

// mop is one operation of the machine.
type mop struct {
	kind    string
	d, a, b int
	s       *big.Int
	sn      string
}

func (o mop) String() string {
	switch o.kind {
	case "Add", "Sub":
		return fmt.Sprintf("r%d.%s(r%d,r%d)", o.d, o.kind, o.a, o.b)
	case "Scale":
		return fmt.Sprintf("r%d.Scale(r%d,%s)", o.d, o.a, o.sn)
	case "BaseScale":
		return fmt.Sprintf("r%d.BaseScale(%s)", o.d, o.sn)
	}
	return fmt.Sprintf("r%d.%s(r%d)", o.d, o.kind, o.a)
}

func mops(n *big.Int, regs int, scal map[string]*big.Int, dec bool) []mop {
	var out []mop
	for d := 0; d < regs; d++ {
		for a := 0; a < regs; a++ {
			for b := 0; b < regs; b++ {
				out = append(out, mop{kind: "Add", d: d, a: a, b: b}, mop{kind: "Sub", d: d, a: a, b: b})
			}
			out = append(out, mop{kind: "Neg", d: d, a: a}, mop{kind: "Set", d: d, a: a})
			if dec {
				out = append(out, mop{kind: "DecBin", d: d, a: a}, mop{kind: "DecJSON", d: d, a: a}, mop{kind: "SetBytes", d: d, a: a})
			}
			for _, k := range sortedKeys(scal) {
				out = append(out, mop{kind: "Scale", d: d, a: a, s: scal[k], sn: k})
			}
		}
		for _, k := range sortedKeys(scal) {
			out = append(out, mop{kind: "BaseScale", d: d, s: scal[k], sn: k})
		}
	}
	return out
}

// step executes one operation on the code and on the model.
func (m *mach) step(o mop) error {
	n := m.rg.R.Order()
	var ret group.Element
	var want vec
	e := m.r[o.d]
	switch o.kind {
	case "Add":
		want = vec{mod(add(m.m[o.a].a, m.m[o.b].a), n), mod(add(m.m[o.a].b, m.m[o.b].b), n)}
		ret = e.Add(m.r[o.a], m.r[o.b])
	case "Sub":
		want = vec{mod(sub(m.m[o.a].a, m.m[o.b].a), n), mod(sub(m.m[o.a].b, m.m[o.b].b), n)}
		ret = e.Subtract(m.r[o.a], m.r[o.b])
	case "Neg":
		want = vec{mod(new(big.Int).Neg(m.m[o.a].a), n), mod(new(big.Int).Neg(m.m[o.a].b), n)}
		ret = e.Negate(m.r[o.a])
	case "Set":
		want = m.m[o.a]
		ret = e.Set(m.r[o.a])
	case "Scale", "BaseScale":
		s := new(big.Int).Set(o.s)
		if o.kind == "Scale" {
			want = vec{mod(mul(m.m[o.a].a, o.s), n), mod(mul(m.m[o.a].b, o.s), n)}
			ret = e.Scale(m.r[o.a], s)
		} else {
			want = vec{mod(o.s, n), B(0)}
			ret = e.BaseScale(s)
		}
		if s.Cmp(o.s) != 0 {
			return vk.Errf("%v modified its scalar operand", o)
		}
	case "DecBin":
		want = m.m[o.a]
		b, err := m.r[o.a].MarshalBinary()
		if err != nil {
			return vk.Errf("%v: %v", o, err)
		}
		b0 := bytes.Clone(b)
		if err := e.UnmarshalBinary(b); err != nil {
			return vk.Errf("%v: %v", o, err)
		}
		if !bytes.Equal(b, b0) {
			return vk.Errf("%v modified its input", o)
		}
		for i := range b { // the element must not share the buffer
			b[i] ^= 0x55
		}
		ret = e
	case "DecJSON":
		want = m.m[o.a]
		b, err := m.r[o.a].MarshalJSON()
		if err != nil {
			return vk.Errf("%v: %v", o, err)
		}
		if err := e.UnmarshalJSON(b); err != nil {
			return vk.Errf("%v: %v", o, err)
		}
		ret = e
	case "SetBytes":
		want = m.m[o.a]
		b, err := m.r[o.a].MarshalBinary()
		if err != nil {
			return vk.Errf("%v: %v", o, err)
		}
		ret = e.SetBytes(b)
	}
	if ret != e {
		return vk.Errf("%v does not return its receiver", o)
	}
	m.m[o.d] = want
	return m.look(o.String())
}

// look compares all registers and observers with the model.
func (m *mach) look(after string) error {
	for i := range m.r {
		got, err := m.rg.R.Text(m.r[i])
		if err != nil {
			return vk.Errf("after %s: r%d: %v", after, i, err)
		}
		if want := m.rg.R.Comb(m.m[i].a, m.m[i].b, m.h); got != want {
			return vk.Errf("after %s: r%d is %s, want %s (%s)", after, i, short(got), short(want), m.m[i].key())
		}
		if id := m.m[i].a.Sign() == 0 && m.m[i].b.Sign() == 0; m.r[i].IsIdentity() != id {
			return vk.Errf("after %s: r%d.IsIdentity()=%v", after, i, !id)
		}
		for j := range m.r {
			if eq := m.m[i].key() == m.m[j].key(); m.r[i].IsEqual(m.r[j]) != eq {
				return vk.Errf("after %s: r%d.IsEqual(r%d)=%v", after, i, j, !eq)
			}
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 40 {
		return s[:40] + ".."
	}
	return s
}

// reset puts the registers into an initial configuration.
func (m *mach) reset(init string) {
	n := m.rg.R.Order()
	g := m.rg.G
	zero, one := vec{B(0), B(0)}, vec{B(1), B(0)}
	hv := vec{B(0), B(1)}
	hEl := func() group.Element {
		e := g.Element()
		if err := e.UnmarshalJSON(m.hJS); err != nil {
			panic(err)
		}
		return e
	}
	switch init {
	case "G,H,0":
		m.r = [3]group.Element{g.Generator(), hEl(), g.Identity()}
		m.m = [3]vec{one, hv, zero}
	case "G,-G,2G":
		m.r = [3]group.Element{g.Generator(), g.Element().BaseScale(B(-1)), g.Element().BaseScale(B(2))}
		m.m = [3]vec{one, {sub(n, B(1)), B(0)}, {mod(B(2), n), B(0)}}
	case "H,H,G":
		m.r = [3]group.Element{hEl(), hEl(), g.Generator()}
		m.m = [3]vec{hv, hv, one}
	case "0,0,G":
		m.r = [3]group.Element{g.Identity(), g.Element().BaseScale(B(0)), g.Generator()}
		m.m = [3]vec{zero, zero, one}
	}
}

func newMach(rg RG) (*mach, error) {
	m := &mach{rg: rg}
	var e group.Element
	if rg.Curve {
		x, err := rg.G.Element().MapToGroup("register machine")
		if err != nil {
			return nil, err
		}
		e = x
	} else {
		e = rg.G.Element().BaseScale(B(29))
	}
	t, err := rg.R.Text(e)
	if err != nil {
		return nil, err
	}
	if !rg.R.Member(t) {
		return nil, vk.Errf("hashed element is not in the group")
	}
	m.h = t
	m.hJS, err = e.MarshalJSON()
	return m, err
}

// constants checks the group's description and that it has not been altered.
func constants(rg RG) error {
	g := rg.G
	if g.N().Cmp(rg.R.Order()) != 0 || g.P().Cmp(rg.R.Field()) != 0 {
		return vk.Errf("order or field of %s is wrong", rg.Name)
	}
	for name, e := range map[string]group.Element{"Generator": g.Generator(), "Identity": g.Identity(), "BaseScale(1)": g.Element().BaseScale(B(1))} {
		k := B(1)
		if name == "Identity" {
			k = B(0)
		}
		t, err := rg.R.Text(e)
		if err != nil || t != rg.R.Comb(k, B(0), "") {
			return vk.Errf("%s is %s (%v)", name, short(t), err)
		}
		if e.GroupOrder().Cmp(rg.R.Order()) != 0 || e.FieldOrder().Cmp(rg.R.Field()) != 0 {
			return vk.Errf("GroupOrder/FieldOrder of %s differ from the group's", name)
		}
	}
	return nil
}

// scalarAlphabet is the large set of scalars.
func scalarAlphabet(n *big.Int, thorough bool) map[string]*big.Int {
	out := map[string]*big.Int{}
	for i := int64(-17); i <= 17; i++ {
		out[fmt.Sprint(i)] = B(i)
		out[fmt.Sprintf("N%+d", i)] = add(n, B(i))
		out[fmt.Sprintf("-N%+d", i)] = sub(B(i), n)
	}
	for i := int64(-2); i <= 2; i++ {
		out[fmt.Sprintf("2N%+d", i)] = add(mul(B(2), n), B(i))
		out[fmt.Sprintf("-2N%+d", i)] = sub(B(i), mul(B(2), n))
		out[fmt.Sprintf("NN%+d", i)] = add(mul(n, n), B(i))
		out[fmt.Sprintf("-NN%+d", i)] = sub(B(i), mul(n, n))
		out[fmt.Sprintf("N/2%+d", i)] = add(new(big.Int).Rsh(n, 1), B(i))
		out[fmt.Sprintf("N/3%+d", i)] = add(new(big.Int).Div(n, B(3)), B(i))
	}
	step := 8
	if thorough {
		step = 1
	}
	bits := n.BitLen()
	if bits > 600 {
		step = bits / 16
	}
	for k := step; k <= bits+16; k += step {
		for i := int64(-1); i <= 1; i++ {
			out[fmt.Sprintf("2^%d%+d", k, i)] = add(Pow2(k), B(i))
		}
		out[fmt.Sprintf("-2^%d", k)] = new(big.Int).Neg(Pow2(k))
	}
	p := make([]byte, (bits+7)/8)
	for i, b := range []byte{0xaa, 0x55, 0xff, 0x01, 0x80} {
		for j := range p {
			p[j] = b
		}
		out[fmt.Sprintf("pat%d", i)] = new(big.Int).SetBytes(p)
	}
	for i := 0; i < 6; i++ {
		vk.FillBytes(p, 77, i)
		out[fmt.Sprintf("big%d", i)] = new(big.Int).SetBytes(p)
	}
	// Far beyond the order.
	for _, k := range []int{3*bits/2 + 1, 2*bits - 1, 2 * bits, 2*bits + 8, 3*bits + 1, 1024, 4*bits + 5} {
		x := new(big.Int).Div(mul(Pow2(k), B(7)), B(5))
		out[fmt.Sprintf("7/5*2^%d", k)] = x
		out[fmt.Sprintf("-7/5*2^%d", k)] = new(big.Int).Neg(x)
	}
	return out
}

func c13(c *vk.Ctx) {
	for _, rg := range AllRefs() {
		rg := rg
		n := rg.R.Order()
		c.Case("constants/"+rg.Name, func() (string, error) {
			if !n.ProbablyPrime(20) || !rg.R.Field().ProbablyPrime(20) {
				return "", vk.Errf("reference order or field not prime")
			}
			if !rg.G.Generator().Scale(rg.G.Generator(), rg.G.N()).IsIdentity() {
				return "", vk.Errf("N*G is not the identity")
			}
			return "constants right", constants(rg)
		})
		c.Case("neighbours/"+rg.Name, func() (string, error) {
			for _, k := range neighbourBases(rg.G) {
				e := rg.G.Element().BaseScale(k)
				one := rg.G.Identity()
				for name, f := range neighbours(rg.G, e) {
					c.Trans(1)
					c.State(rg.Name + k.String() + name)
					if e.IsEqual(f) || f.IsEqual(e) {
						return "", vk.Errf("%v*G equals the element that differs from it in %s", k, name)
					}
				}
				for name, f := range neighbours(rg.G, one) {
					if name != "sign" && !strings.HasPrefix(name, "abscissa") && (f.IsIdentity() || f.IsEqual(one)) {
						return "", vk.Errf("the identity is equal to the element that differs from it in %s", name)
					}
				}
			}
			return "neighbours differ", nil
		})
		// Members from hashing and from random draws.
		c.Case("members/"+rg.Name, func() (string, error) {
			seen := map[string]string{}
			put := func(name string, e group.Element, fresh bool) error {
				t, err := rg.R.Text(e)
				if err != nil || !rg.R.Member(t) {
					return vk.Errf("%s gives %s, not an element (%v)", name, short(t), err)
				}
				if o, ok := seen[t]; ok && fresh {
					return vk.Errf("%s and %s give the same element", name, o)
				}
				seen[t] = name
				c.Trans(1)
				return nil
			}
			for i := 0; i < 40; i++ {
				vk.Fresh(uint64(i) + 1)
				if err := put(fmt.Sprintf("Random/%d", i), rg.G.Random(), true); err != nil {
					return "", err
				}
				if rg.Curve {
					s := fmt.Sprintf("%x", i)
					e, err := rg.G.Element().MapToGroup(s)
					if err != nil {
						return "", err
					}
					if err := put("MapToGroup/"+s, e, true); err != nil {
						return "", err
					}
					used := rg.G.Generator()
					e2, err := used.MapToGroup(s)
					if err != nil || e2 != used || !used.IsEqual(e) {
						return "", vk.Errf("MapToGroup(%q) into a used receiver differs (%v)", s, err)
					}
				}
			}
			return "members", constants(rg)
		})
		small := map[string]*big.Int{"0": B(0), "-1": B(-1), "2": B(2), "N": n, "-N-3": sub(B(-3), n)}
		if !c.Thorough() {
			delete(small, "N")
		}
		ops := mops(n, 3, small, true)
		inits := []string{"G,H,0", "G,-G,2G", "H,H,G", "0,0,G"}
		if !rg.Curve {
			inits = inits[:2]
		}
		for _, in := range inits {
			for _, o1 := range ops {
				in, o1 := in, o1
				c.Case(fmt.Sprintf("seq/%s/%s/%v", rg.Name, in, o1), func() (string, error) {
					m, err := newMach(rg)
					if err != nil {
						return "", err
					}
					m.reset(in)
					if err := m.look("init"); err != nil {
						return "", err
					}
					if err := m.step(o1); err != nil {
						return "", err
					}
					c.Validated(1)
					if rg.Name == "MODP3072" {
						return "sequences agree", constants(rg)
					}
					for _, o2 := range ops {
						if !c.Thorough() && rg.Name == "P-384" && in != "G,H,0" && o2.d != o1.d {
							// quick: P-384 shares its shape with P-256
							continue
						}
						m.reset(in)
						if err := m.step(o1); err != nil {
							return "", err
						}
						if err := m.step(o2); err != nil {
							return "", vk.Errf("%v; %v", o1, err)
						}
						c.Trans(2)
						c.State(rg.Name + m.m[0].key() + "," + m.m[1].key() + "," + m.m[2].key())
					}
					return "sequences agree", constants(rg)
				})
			}
		}
		// Deeper sequences on two registers.
		if c.Thorough() && rg.Name != "MODP3072" {
			ops := mops(n, 2, map[string]*big.Int{"-1": B(-1), "2": B(2)}, true)
			for _, in := range inits {
				for _, o1 := range ops {
					for _, o2 := range ops {
						in, o1, o2 := in, o1, o2
						c.Case(fmt.Sprintf("seq3/%s/%s/%v;%v", rg.Name, in, o1, o2), func() (string, error) {
							m, err := newMach(rg)
							if err != nil {
								return "", err
							}
							for _, o3 := range ops {
								m.reset(in)
								for _, o := range []mop{o1, o2, o3} {
									if err := m.step(o); err != nil {
										return "", vk.Errf("%v; %v; %v: %v", o1, o2, o3, err)
									}
								}
								c.Trans(3)
								c.State(rg.Name + m.m[0].key() + "," + m.m[1].key() + "," + m.m[2].key())
							}
							return "sequences agree", nil
						})
					}
				}
			}
		}
		// Every scalar of the alphabet.
		sc := scalarAlphabet(n, c.Thorough())
		for _, k := range sortedKeys(sc) {
			k := k
			c.Case(fmt.Sprintf("scalar/%s/%s", rg.Name, k), func() (string, error) {
				m, err := newMach(rg)
				if err != nil {
					return "", err
				}
				for _, in := range inits[:2] {
					for a := 0; a < 3; a++ {
						if rg.Name == "MODP3072" && (in != "G,H,0" || a == 2) {
							continue
						}
						for _, o := range []mop{{kind: "Scale", d: a, a: a, s: sc[k], sn: k}, {kind: "Scale", d: (a + 1) % 3, a: a, s: sc[k], sn: k},
							{kind: "BaseScale", d: a, s: sc[k], sn: k}} {
							m.reset(in)
							if err := m.step(o); err != nil {
								return "", err
							}
							c.Trans(1)
							c.State(rg.Name + k + o.String() + in)
						}
					}
				}
				// s*G + (-s)*G = 0 and s*G - s*G = 0, also through equal objects.
				e := rg.G.Element().BaseScale(sc[k])
				f := rg.G.Element().BaseScale(new(big.Int).Neg(sc[k]))
				if !rg.G.Element().Add(e, f).IsIdentity() || !rg.G.Element().Subtract(e, rg.G.Element().BaseScale(sc[k])).IsIdentity() {
					return "", vk.Errf("s*G and -s*G do not cancel for s=%s", k)
				}
				if t := new(big.Int).Set(sc[k]); t.Cmp(sc[k]) != 0 {
					return "", vk.Errf("scalar modified")
				}
				c.Validated(1)
				return "scalar agrees", constants(rg)
			})
		}
	}
	c13digits(c)
	// Complete: small safe-prime groups.
	for _, p := range []string{Safe6, Safe8} {
		rg := SafeRef(p)
		n := int(rg.R.Order().Int64())
		for a := 0; a < n; a++ {
			a := a
			c.Case(fmt.Sprintf("complete/%s/%d", rg.Name, a), func() (string, error) {
				g := rg.G
				at := func(e group.Element) string {
					t, err := rg.R.Text(e)
					if err != nil {
						return err.Error()
					}
					return t
				}
				ref := func(k int) string { return rg.R.Comb(B(int64(k)), B(0), "") }
				el := func(k int) group.Element {
					e := g.Element()
					if err := e.UnmarshalJSON([]byte(ref(k))); err != nil {
						panic(err)
					}
					return e
				}
				for b := 0; b < n; b++ {
					x, y := el(a), el(b)
					if at(g.Element().Add(x, y)) != ref(a+b) || at(g.Element().Subtract(x, y)) != ref(a-b) {
						return "", vk.Errf("sum or difference of %d and %d", a, b)
					}
					if x.IsEqual(y) != (a == b) || at(x) != ref(a) || at(y) != ref(b) {
						return "", vk.Errf("equality of %d and %d, or an operand changed", a, b)
					}
					if at(el(a).Set(y)) != ref(b) || at(el(b).Negate(x)) != ref(-a) {
						return "", vk.Errf("copy or negation of %d, %d", a, b)
					}
					c.Trans(5)
					c.State(fmt.Sprintf("%s/%d/%d", rg.Name, a, b))
				}
				if el(a).IsIdentity() != (a == 0) {
					return "", vk.Errf("IsIdentity of %d", a)
				}
				for s := -2*n - 1; s <= 3*n+1; s++ {
					if at(g.Element().Scale(el(a), B(int64(s)))) != ref(a*s) {
						return "", vk.Errf("scaling %d by %d", a, s)
					}
					if a == 0 && at(g.Element().BaseScale(B(int64(s)))) != ref(s) {
						return "", vk.Errf("scaling the generator by %d", s)
					}
					c.Trans(1)
				}
				return "complete", constants(rg)
			})
		}
	}
	// Every generator of the squares modulo small safe primes: order, generator, multiples.
	for _, p := range SafePrimes {
		q := (p - 1) / 2
		for g := int64(2); g < p; g++ {
			if big.Jacobi(B(g), B(p)) != 1 || p > 60 && g > 16 && g != p-3 && !c.Thorough() {
				continue
			}
			p, g := p, g
			c.Case(fmt.Sprintf("generator/%d/%d", p, g), func() (string, error) {
				gr := SafeGroupGen(p, g)
				rg := RG{gr, NewResid(B(p), B(g)), gr.Name(), false}
				for s := -2*q - 1; s <= 3*q+1; s++ {
					got, err := rg.R.Text(gr.Element().BaseScale(B(s)))
					if err != nil || got != rg.R.Comb(B(s), B(0), "") {
						return "", vk.Errf("%d times %d modulo %d is %s (%v)", s, g, p, got, err)
					}
					c.Trans(1)
					c.State(fmt.Sprintf("gen/%d/%d/%d", p, g, mod(B(s), B(q))))
				}
				return "complete", constants(rg)
			})
		}
	}
	// The first multiples of the generator and their inverses: consecutive sums agree with
	// scaling, no two of them are equal, opposite ones cancel. Leading zeros and other
	// shapes of coordinates that occur once in a few hundred elements are reached here.
	span := int64(768)
	if c.Thorough() {
		span = 20000
	}
	for _, g := range append(Curves(), SafeGroup(Safe64), SafeGroup(Safe320)) {
		for from := int64(1); from <= span; from += 64 {
			g, from := g, from
			c.Case(fmt.Sprintf("multiples/%s/%d", g.Name(), from), func() (string, error) {
				e := g.Element().BaseScale(B(from))
				var prev group.Element
				for k := from; k < from+64; k++ {
					b := g.Element().BaseScale(B(k))
					n := g.Element().Negate(e)
					d := g.Element().Subtract(g.Identity(), e)
					c.Trans(8)
					c.State(fmt.Sprintf("mult/%s/%d", g.Name(), k))
					if !b.IsEqual(e) || !e.IsEqual(b) || b.String() != e.String() {
						return "", vk.Errf("%d*G by addition and by scaling differ", k)
					}
					if e.IsEqual(n) || n.IsEqual(e) || e.IsEqual(d) || d.IsEqual(e) || e.IsIdentity() || n.IsIdentity() || n.String() == e.String() {
						return "", vk.Errf("%d*G equals its inverse or the identity", k)
					}
					if !n.IsEqual(d) || !d.IsEqual(n) || !n.IsEqual(g.Element().BaseScale(B(-k))) {
						return "", vk.Errf("inverses of %d*G differ", k)
					}
					if s := g.Element().Add(e, n); !s.IsIdentity() || !s.IsEqual(g.Identity()) {
						return "", vk.Errf("%d*G and its inverse do not cancel", k)
					}
					if s := g.Element().Subtract(e, n); !s.IsEqual(g.Element().Add(e, e)) || !s.IsEqual(g.Element().BaseScale(B(2*k))) {
						return "", vk.Errf("doubles of %d*G differ", k)
					}
					if prev != nil && (prev.IsEqual(e) || e.IsEqual(prev) || prev.IsEqual(n) || n.IsEqual(prev)) {
						return "", vk.Errf("%d*G equals a neighbour", k)
					}
					prev = e
					e = g.Element().Add(e, g.Generator())
				}
				return "multiples agree", nil
			})
		}
	}
	// Different routes to the same element: equal, and one rendering.
	for _, g := range append(Curves(), SafeGroup(Safe64), MODP3072()) {
		g := g
		for _, k := range []int64{0, 1, 2, -1, -2, 7, 255, 256} {
			k := k
			c.Case(fmt.Sprintf("routes/%s/%d", g.Name(), k), func() (string, error) {
				w := ways(g, k)
				base := g.Element().BaseScale(B(k))
				for name, f := range w {
					e := f()
					if !e.IsEqual(base) || !base.IsEqual(e) || e.IsIdentity() != (k == 0) {
						return "", vk.Errf("%d*G by %s is not equal to BaseScale", k, name)
					}
					if e.String() != base.String() {
						return "", vk.Errf("%d*G by %s has another rendering", k, name)
					}
					c.Trans(1)
				}
				return "routes agree", nil
			})
		}
	}
}

// c13digits scales by every digit at every position, from nothing and inside a dense scalar:
// going from one value of a digit to the next must always add the same element.
func c13digits(c *vk.Ctx) {
	for _, rg := range AllRefs() {
		rg := rg
		n := rg.R.Order()
		size := (n.BitLen() + 7) / 8
		for pos := 0; pos < size; pos++ {
			pos := pos
			vals := 256
			if rg.Name == "MODP3072" && pos%64 != 17 {
				vals = 0 // single bits only
			}
			for _, base := range []string{"BaseScale", "Scale"} {
				base := base
				if rg.Name == "MODP3072" && base == "Scale" && pos%8 != 0 {
					continue
				}
				c.Case(fmt.Sprintf("digits/%s/%s/byte=%d", rg.Name, base, pos), func() (string, error) {
					p := rg.G.Generator()
					if base == "Scale" {
						p = rg.G.Element().BaseScale(B(7))
					}
					do := func(k *big.Int) group.Element {
						if base == "BaseScale" {
							return rg.G.Element().BaseScale(k)
						}
						return rg.G.Element().Scale(p, k)
					}
					unit := Pow2(8 * pos)
					step := do(unit)
					for _, fill := range []byte{0, 0xb6} {
						buf := make([]byte, size)
						for i := range buf {
							buf[i] = fill
						}
						buf[size-1-pos] = 0
						bg := new(big.Int).SetBytes(buf)
						// Anchored once by the reference.
						at := do(bg)
						f := B(1)
						if base == "Scale" {
							f = B(7)
						}
						if t, err := rg.R.Text(at); err != nil || t != rg.R.Comb(mul(f, bg), B(0), "") {
							return "", vk.Errf("%s by %s gives %s (%v)", base, bg.Text(16), short(t), err)
						}
						for v := 1; v < vals; v++ {
							k := add(bg, mul(unit, B(int64(v))))
							at = rg.G.Element().Add(at, step)
							if !do(k).IsEqual(at) {
								return "", vk.Errf("%s by %s differs from the one before plus the step", base, k.Text(16))
							}
							c.Trans(1)
						}
						if vals == 0 {
							d := step
							for bit := 0; bit < 8; bit++ {
								k := add(bg, Pow2(8*pos+bit))
								if !do(k).IsEqual(rg.G.Element().Add(at, d)) {
									return "", vk.Errf("%s by %s differs from the one without the bit plus the step", base, k.Text(16))
								}
								d = rg.G.Element().Add(d, d)
								c.Trans(1)
							}
						}
						c.State(fmt.Sprintf("%s/%s/%d/%d", rg.Name, base, pos, fill))
					}
					c.Validated(1)
					return "digits agree", nil
				})
			}
		}
	}
}
