package checks

import (
	"fmt"
	"math"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/util"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C18"] = c18
	vk.Describe("C18", "one case = one first operand vector with every second operand vector of the bound and every helper, compared with reference arithmetic, operands compared before and after; decompositions of every x below 4096 and of boundary integers",
		"integers from the listed alphabet; all vectors up to length 3, base vectors with single deviations up to length 128")
}

func alphaFor(m *big.Int) []*big.Int {
	return []*big.Int{sub(B(-1), m), new(big.Int).Neg(m), B(-1), B(0), B(1), B(2), sub(m, B(1)), new(big.Int).Set(m), add(m, B(1)), add(Pow2(64), B(3)), sub(mul(m, m), B(1))}
}

// vectors enumerates all vectors of a length over an alphabet.
func vectors(a []*big.Int, n int) [][]*big.Int {
	if n == 0 {
		return [][]*big.Int{{}}
	}
	var out [][]*big.Int
	for _, v := range vectors(a, n-1) {
		for _, x := range a {
			out = append(out, append(append([]*big.Int(nil), v...), x))
		}
	}
	return out
}

func cpVec(v []*big.Int) []*big.Int {
	o := make([]*big.Int, len(v))
	for i := range v {
		o[i] = new(big.Int).Set(v[i])
	}
	return o
}

func eqVec(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func c18(c *vk.Ctx) {
	mods := []*big.Int{B(1), B(2), B(7), Q16, Q61, Q256}
	for _, m := range mods {
		m := m
		var g group.Group
		if m.Cmp(B(1)) > 0 {
			g = vk.NewIdeal("i", m)
		}
		full := alphaFor(m)
		short := []*big.Int{B(-1), B(0), sub(m, B(1)), add(Pow2(64), B(3))}
		for n := 0; n <= 3; n++ {
			n := n
			al := full
			if n == 3 && !c.Thorough() {
				al = short
			}
			if n == 3 && c.Thorough() {
				al = full[:7]
			}
			vs := vectors(al, n)
			for i := range vs {
				i := i
				c.Case(fmt.Sprintf("vec/%v/%d/%d", m, n, i), func() (string, error) {
					for j := range vs {
						if err := vecPair(m, g, vs[i], vs[j]); err != nil {
							return "", vk.Errf("a=%v b=%v mod %v: %v", vs[i], vs[j], m, err)
						}
						c.Trans(6)
					}
					c.State(fmt.Sprint(m, vs[i]))
					return "agree", vecOne(m, g, vs[i], al)
				})
			}
		}
		// Long vectors: base vectors and single deviations at every position.
		for _, n := range []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128} {
			n := n
			c.Case(fmt.Sprintf("long/%v/%d", m, n), func() (string, error) {
				base := make([]*big.Int, n)
				ramp := make([]*big.Int, n)
				for i := range base {
					base[i] = full[i%len(full)]
					ramp[i] = B(int64(i*i + 1))
				}
				top := make([]*big.Int, n)
				for i := range top {
					top[i] = sub(m, B(1))
				}
				for _, a := range [][]*big.Int{base, ramp, top} {
					for _, b := range [][]*big.Int{base, ramp, top} {
						for i := -1; i < n; i++ {
							d := cpVec(b)
							if i >= 0 {
								d[i] = full[(i+3)%len(full)]
							}
							if err := vecPair(m, g, a, d); err != nil {
								return "", vk.Errf("length %d, deviation at %d, mod %v: %v", n, i, m, err)
							}
							c.Trans(6)
						}
					}
					if err := vecOne(m, g, a, full); err != nil {
						return "", err
					}
					if g == nil {
						continue
					}
					for _, s := range full {
						p := bulletproofs.ZPowerOf(s, int64(n), g)
						cur := mod(B(1), m)
						for i := range p {
							if mod(p[i], m).Cmp(cur) != 0 {
								return "", vk.Errf("power %d of %v is %v, want %v", i, s, p[i], cur)
							}
							cur = mod(mul(cur, s), m)
						}
					}
				}
				c.State(fmt.Sprint("long", m, n))
				return "agree", nil
			})
		}
		// Operands of different length.
		c.Case(fmt.Sprintf("mismatch/%v", m), func() (string, error) {
			for la := 0; la <= 4; la++ {
				for lb := 0; lb <= 4; lb++ {
					if la == lb {
						continue
					}
					a, b := make([]*big.Int, la), make([]*big.Int, lb)
					for i := range a {
						a[i] = B(int64(i))
					}
					for i := range b {
						b[i] = B(int64(i))
					}
					for _, f := range []func([]*big.Int, []*big.Int, *big.Int) ([]*big.Int, error){bulletproofs.VectorAdd, bulletproofs.VectorSub, bulletproofs.VectorMul} {
						if _, err := f(a, b, m); err == nil {
							return "", vk.Errf("lengths %d and %d accepted", la, lb)
						}
					}
					if g == nil {
						continue
					}
					ea, eb := make([]group.Element, la), make([]group.Element, lb)
					for i := range ea {
						ea[i] = g.Generator()
					}
					for i := range eb {
						eb[i] = g.Generator()
					}
					if _, err := bulletproofs.ScalarProduct(a, b, g); err == nil {
						return "", vk.Errf("ScalarProduct accepts lengths %d and %d", la, lb)
					}
					if _, err := bulletproofs.VectorExp(ea, b, g); err == nil {
						return "", vk.Errf("VectorExp accepts lengths %d and %d", la, lb)
					}
					if _, err := bulletproofs.VectorECAdd(ea, eb, g); err == nil {
						return "", vk.Errf("VectorECAdd accepts lengths %d and %d", la, lb)
					}
					c.Trans(6)
				}
			}
			return "error reported", nil
		})
	}
	c18Int(c)
	c18Group(c)
}

func vecPair(m *big.Int, g group.Group, a, b []*big.Int) error {
	a0, b0, m0 := cpVec(a), cpVec(b), new(big.Int).Set(m)
	type f2 = func([]*big.Int, []*big.Int, *big.Int) ([]*big.Int, error)
	for _, t := range []struct {
		name string
		f    f2
		r    func(x, y *big.Int) *big.Int
	}{{"VectorAdd", bulletproofs.VectorAdd, add}, {"VectorSub", bulletproofs.VectorSub, sub}, {"VectorMul", bulletproofs.VectorMul, mul}} {
		got, err := t.f(a, b, m)
		if err != nil {
			return vk.Errf("%s: %v", t.name, err)
		}
		want := make([]*big.Int, len(a))
		for i := range a {
			want[i] = mod(t.r(a0[i], b0[i]), m0)
		}
		if !eqVec(got, want) {
			return vk.Errf("%s gives %v, want %v", t.name, got, want)
		}
	}
	ipWant := B(0)
	for i := range a {
		ipWant = add(ipWant, mul(a0[i], b0[i]))
	}
	ipWant = mod(ipWant, m0)
	if got := bulletproofs.VectorInnerProduct(a, b, m); got.Cmp(ipWant) != 0 {
		return vk.Errf("VectorInnerProduct gives %v, want %v", got, ipWant)
	}
	if g != nil {
		got, err := bulletproofs.ScalarProduct(a, b, g)
		if err != nil || got.Cmp(ipWant) != 0 {
			return vk.Errf("ScalarProduct gives %v, want %v (%v)", got, ipWant, err)
		}
	}
	if !eqVec(a, a0) || !eqVec(b, b0) || m.Cmp(m0) != 0 {
		return vk.Errf("operands modified")
	}
	return nil
}

func vecOne(m *big.Int, g group.Group, a []*big.Int, al []*big.Int) error {
	a0, m0 := cpVec(a), new(big.Int).Set(m)
	for _, s := range al {
		s0 := new(big.Int).Set(s)
		got := bulletproofs.VectorAddConst(a, s, m)
		want := make([]*big.Int, len(a))
		for i := range a {
			want[i] = mod(add(a0[i], s0), m0)
		}
		if !eqVec(got, want) {
			return vk.Errf("VectorAddConst(%v,%v) gives %v, want %v", a0, s0, got, want)
		}
		got, err := bulletproofs.VectorScalarMul(a, s, m)
		for i := range a {
			want[i] = mod(mul(a0[i], s0), m0)
		}
		if err != nil || !eqVec(got, want) {
			return vk.Errf("VectorScalarMul(%v,%v) gives %v, want %v", a0, s0, got, want)
		}
		cp, err := bulletproofs.VectorCopy(s, int64(len(a)))
		if err != nil || len(cp) != len(a) {
			return vk.Errf("VectorCopy gives %d entries (%v)", len(cp), err)
		}
		for i := range cp {
			if cp[i].Cmp(s0) != 0 {
				return vk.Errf("VectorCopy entry %d is %v", i, cp[i])
			}
		}
		if s.Cmp(s0) != 0 || !eqVec(a, a0) || m.Cmp(m0) != 0 {
			return vk.Errf("operands modified")
		}
		if g != nil {
			for n := int64(0); n <= 5; n++ {
				p := bulletproofs.ZPowerOf(s, n, g)
				cur := mod(B(1), m0)
				if int64(len(p)) != n {
					return vk.Errf("powers: %d entries for %d", len(p), n)
				}
				for i := range p {
					if mod(p[i], m0).Cmp(cur) != 0 || i > 0 && p[i].Cmp(cur) != 0 {
						return vk.Errf("power %d of %v is %v, want %v", i, s0, p[i], cur)
					}
					cur = mod(mul(cur, s0), m0)
				}
			}
			if s.Cmp(s0) != 0 || g.N().Cmp(m0) != 0 {
				return vk.Errf("powers modified their operand")
			}
		}
	}
	return nil
}

func c18Int(c *vk.Ctx) {
	pow := func(x int64) bool {
		if x <= 0 {
			return false
		}
		for x%2 == 0 {
			x /= 2
		}
		return x == 1
	}
	for at := int64(-70000); at < 70000; at += 10000 {
		at := at
		c.Case(fmt.Sprintf("pow2/%d", at), func() (string, error) {
			for x := at; x < at+10000; x++ {
				if bulletproofs.IsPowerOfTwo(x) != pow(x) {
					return "", vk.Errf("IsPowerOfTwo(%d)=%v", x, !pow(x))
				}
			}
			c.Trans(10000)
			return "agree", nil
		})
	}
	c.Case("pow2/boundary", func() (string, error) {
		xs := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1}
		for k := 0; k < 63; k++ {
			for d := int64(-2); d <= 2; d++ {
				xs = append(xs, int64(1)<<uint(k)+d, -(int64(1)<<uint(k))+d)
			}
			for j := 0; j < k; j++ {
				xs = append(xs, int64(1)<<uint(k)|int64(1)<<uint(j))
			}
		}
		for _, x := range xs {
			if bulletproofs.IsPowerOfTwo(x) != pow(x) {
				return "", vk.Errf("IsPowerOfTwo(%d)=%v", x, !pow(x))
			}
			c.Trans(1)
		}
		return "agree", nil
	})
	dec := func(x *big.Int, u, l int64) error {
		x0 := new(big.Int).Set(x)
		d := util.Decompose(x, u, l)
		c.Trans(1)
		if x.Cmp(x0) != 0 {
			return vk.Errf("Decompose modified its operand %v", x0)
		}
		if int64(len(d)) != l {
			return vk.Errf("Decompose(%v,%d,%d) has %d digits", x0, u, l, len(d))
		}
		acc, w := B(0), B(1)
		for i := range d {
			if d[i] < 0 || d[i] >= u {
				return vk.Errf("Decompose(%v,%d,%d): digit %d is %d", x0, u, l, i, d[i])
			}
			acc = add(acc, mul(w, B(d[i])))
			w = mul(w, B(u))
		}
		if acc.Cmp(mod(x0, w)) != 0 {
			return vk.Errf("Decompose(%v,%d,%d) recombines to %v", x0, u, l, acc)
		}
		big1, err := bulletproofs.VectorConvertToBig(d, l)
		if err != nil || int64(len(big1)) != l {
			return vk.Errf("VectorConvertToBig: %d entries (%v)", len(big1), err)
		}
		for i := range d {
			if big1[i].Cmp(B(d[i])) != 0 {
				return vk.Errf("VectorConvertToBig[%d]=%v, want %d", i, big1[i], d[i])
			}
		}
		return nil
	}
	us := []int64{2, 3, 4, 5, 7, 8, 10, 16, 255, 256, 65536}
	for at := int64(0); at < 4096; at += 128 {
		at := at
		c.Case(fmt.Sprintf("decompose/%d", at), func() (string, error) {
			for x := at; x < at+128; x++ {
				for _, u := range us {
					for l := int64(0); l <= 13; l++ {
						if err := dec(B(x), u, l); err != nil {
							return "", err
						}
					}
				}
				c.State(fmt.Sprint("x", x))
			}
			return "recombines", nil
		})
	}
	for k := 12; k <= 130; k += 2 {
		k := k
		c.Case(fmt.Sprintf("decompose/2^%d", k), func() (string, error) {
			for d := int64(-2); d <= 2; d++ {
				x := add(Pow2(k), B(d))
				for _, u := range append([]int64{1 << 31, 1 << 32, 1<<62 - 1, math.MaxInt64}, us...) {
					for _, l := range []int64{1, 2, 8, 16, 31, 32, 33, 63, 64, 65, int64(k), int64(k) + 1} {
						if err := dec(x, u, l); err != nil {
							return "", err
						}
					}
				}
			}
			return "recombines", nil
		})
	}
	c.Case("convert/extremes", func() (string, error) {
		in := []int64{math.MinInt64, -1, 0, 1, math.MaxInt64, 1 << 32}
		for n := int64(0); n <= int64(len(in)); n++ {
			out, err := bulletproofs.VectorConvertToBig(in[:n], n)
			if err != nil || int64(len(out)) != n {
				return "", vk.Errf("%d entries (%v)", len(out), err)
			}
			for i := range out {
				if out[i].Cmp(B(in[i])) != 0 {
					return "", vk.Errf("entry %d is %v", i, out[i])
				}
			}
			c.Trans(1)
		}
		return "agree", nil
	})
}

func c18Group(c *vk.Ctx) {
	gs := []group.Group{vk.NewIdeal("i7", B(7)), vk.NewIdeal("i256", Q256), SafeGroup(Safe64)}
	gs = append(gs, Curves()...)
	for _, g := range gs {
		g := g
		_, ideal := g.(*vk.IGroup)
		n := g.N()
		sc := []*big.Int{B(-1), B(0), B(1), B(2), sub(n, B(1)), new(big.Int).Set(n), add(n, B(5)), sub(mul(n, n), B(3))}
		// Elements with known logarithms.
		lg := []*big.Int{B(0), B(1), sub(n, B(1)), B(5)}
		max := 2
		if ideal {
			max = 3
			sc = sc[:6]
		}
		mk := func(v []*big.Int) []group.Element {
			o := make([]group.Element, len(v))
			for i := range v {
				o[i] = g.Element().BaseScale(v[i])
			}
			return o
		}
		for l := 0; l <= max; l++ {
			for vi, v := range vectors(lg, l) {
				v := v
				c.Case(fmt.Sprintf("elements/%s/%v/%d/%d", g.Name(), g.N().BitLen(), l, vi), func() (string, error) {
					if !ideal {
						c.Validated(1)
					}
					for _, s := range vectors(sc, l) {
						els := mk(v)
						s0 := cpVec(s)
						r, err := bulletproofs.VectorExp(els, s, g)
						if err != nil {
							return "", err
						}
						if want := g.Element().BaseScale(ip(v, s0, n)); !r.IsEqual(want) {
							return "", vk.Errf("VectorExp(%v,%v) is wrong", v, s0)
						}
						if !eqVec(s, s0) || sameEls("operands", els, mk(v)) != nil {
							return "", vk.Errf("VectorExp modified its operands")
						}
						c.Trans(1)
					}
					for _, w := range vectors(lg, l) {
						a, b := mk(v), mk(w)
						r, err := bulletproofs.VectorECAdd(a, b, g)
						if err != nil || len(r) != l {
							return "", vk.Errf("VectorECAdd: %d entries (%v)", len(r), err)
						}
						for i := range r {
							if !r[i].IsEqual(g.Element().BaseScale(add(v[i], w[i]))) {
								return "", vk.Errf("VectorECAdd(%v,%v)[%d] is wrong", v, w, i)
							}
						}
						if sameEls("a", a, mk(v)) != nil || sameEls("b", b, mk(w)) != nil {
							return "", vk.Errf("VectorECAdd modified its operands")
						}
						c.Trans(1)
					}
					c.State(fmt.Sprint(g.Name(), v))
					return "agree", nil
				})
			}
		}
		// Every length, and single deviations at every position.
		for part := 0; part < 8; part++ {
			part := part
			c.Case(fmt.Sprintf("long-elements/%s/%d/%d", g.Name(), g.N().BitLen(), part), func() (string, error) {
				for l := part; l <= 136; l += 8 {
					if !ideal && !c.Thorough() && l > 40 && l%3 != part%3 {
						continue
					}
					lgs, ex := make([]*big.Int, l), make([]*big.Int, l)
					for i := range lgs {
						lgs[i], ex[i] = B(int64(3*i+1)), B(int64(i*i+1))
					}
					els := mk(lgs)
					check := func(ex []*big.Int, what string) error {
						c.Trans(1)
						r, err := bulletproofs.VectorExp(els, ex, g)
						if err != nil {
							return err
						}
						if !r.IsEqual(g.Element().BaseScale(ip(lgs, ex, n))) {
							return vk.Errf("VectorExp of %d elements (%s) is wrong", l, what)
						}
						return nil
					}
					if err := check(ex, "ramp"); err != nil {
						return "", err
					}
					for i := 0; i < l; i++ {
						if !ideal && i != 0 && i != l-1 && i != l/2 {
							continue
						}
						one := make([]*big.Int, l)
						for j := range one {
							one[j] = B(0)
						}
						one[i] = sub(n, B(2))
						if err := check(one, fmt.Sprintf("only number %d", i)); err != nil {
							return "", err
						}
						d := cpVec(ex)
						d[i] = B(0)
						if err := check(d, fmt.Sprintf("without number %d", i)); err != nil {
							return "", err
						}
					}
					r, err := bulletproofs.VectorECAdd(els, els, g)
					if err != nil || len(r) != l {
						return "", vk.Errf("VectorECAdd of %d elements: %d entries (%v)", l, len(r), err)
					}
					for i := range r {
						if !r[i].IsEqual(g.Element().BaseScale(mul(B(2), lgs[i]))) {
							return "", vk.Errf("VectorECAdd of %d elements: entry %d is wrong", l, i)
						}
					}
					if err := sameEls("operands", els, mk(lgs)); err != nil {
						return "", err
					}
					c.State(fmt.Sprint("long-elements", g.Name(), l))
				}
				return "agree", nil
			})
		}
		// One object at several positions, of the elements and of the scalars.
		for l := 2; l <= 4; l++ {
			for as := 0; as < 1<<l; as++ {
				l, as := l, as
				c.Case(fmt.Sprintf("shared/%s/%d/%d/%b", g.Name(), g.N().BitLen(), l, as), func() (string, error) {
					for bs := 0; bs < 1<<l; bs++ {
						if !ideal && !c.Thorough() && l == 4 && bs != 0 && bs != as && bs != 5 && bs != 3 {
							continue
						}
						for _, ks := range [][2]int64{{2, 3}, {1, -1}, {0, 5}, {7, 7}} {
							pe := []group.Element{g.Element().BaseScale(B(5)), g.Element().BaseScale(B(11))}
							pk := []*big.Int{B(ks[0]), B(ks[1])}
							els, ex, lgs := make([]group.Element, l), make([]*big.Int, l), make([]*big.Int, l)
							for i := range els {
								els[i], ex[i] = pe[as>>i&1], pk[bs>>i&1]
								lgs[i] = []*big.Int{B(5), B(11)}[as>>i&1]
							}
							want := ip(lgs, ex, n)
							r, err := bulletproofs.VectorExp(els, ex, g)
							c.Trans(1)
							if err != nil || !r.IsEqual(g.Element().BaseScale(want)) {
								return "", vk.Errf("VectorExp is wrong for elements %v and exponents %v that share objects (%b) (%v)", lgs, ex, bs, err)
							}
							p, err := bulletproofs.ScalarProduct(ex, ex, g)
							if err != nil || p.Cmp(ip(ex, ex, n)) != 0 {
								return "", vk.Errf("ScalarProduct of %v with itself is %v (%v)", ex, p, err)
							}
							e, err := bulletproofs.VectorECAdd(els, els, g)
							if err != nil {
								return "", err
							}
							for i := range e {
								if !e[i].IsEqual(g.Element().BaseScale(mul(B(2), lgs[i]))) {
									return "", vk.Errf("VectorECAdd of %v with itself: entry %d is wrong", lgs, i)
								}
							}
							for _, f := range []struct {
								f func([]*big.Int, []*big.Int, *big.Int) ([]*big.Int, error)
								r func(x, y *big.Int) *big.Int
							}{{bulletproofs.VectorAdd, add}, {bulletproofs.VectorSub, sub}, {bulletproofs.VectorMul, mul}} {
								v, err := f.f(ex, ex, n)
								if err != nil || len(v) != l {
									return "", vk.Errf("a helper refuses %v with itself (%v)", ex, err)
								}
								for i := range v {
									if v[i].Cmp(mod(f.r(ex[i], ex[i]), n)) != 0 {
										return "", vk.Errf("a helper on %v with itself gives %v", ex, v)
									}
								}
							}
							if pk[0].Cmp(B(ks[0])) != 0 || pk[1].Cmp(B(ks[1])) != 0 || sameEls("operands", els, mk(lgs)) != nil {
								return "", vk.Errf("a helper modified its operands")
							}
						}
						c.State(fmt.Sprint("shared", g.Name(), l, as, bs))
					}
					return "agree", nil
				})
			}
		}
		c.Case(fmt.Sprintf("commit/%s/%d", g.Name(), g.N().BitLen()), func() (string, error) {
			for _, hl := range lg {
				for _, x := range sc {
					for _, r := range sc {
						h := g.Element().BaseScale(hl)
						x1, r1 := new(big.Int).Set(x), new(big.Int).Set(r)
						got := util.PedersenCommit(x1, r1, h, g)
						if want := g.Element().BaseScale(add(x, mul(r, hl))); !got.IsEqual(want) {
							return "", vk.Errf("commitment to %v with %v under %v*G is wrong", x, r, hl)
						}
						if x1.Cmp(x) != 0 || r1.Cmp(r) != 0 || !h.IsEqual(g.Element().BaseScale(hl)) {
							return "", vk.Errf("PedersenCommit modified its operands")
						}
						c.Trans(1)
					}
				}
			}
			return "agree", nil
		})
	}
}
