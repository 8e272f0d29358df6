package checks

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

// Dishonest range provers. The challenges are not recomputed here but observed: the
// verifier of the code under test is run on the partial transcript in the ideal group and
// the scalars it applies to T1 (x), Hh[1] (1/y) and Gg[0]/V (z) are read. So the
// strategies follow whatever hashing convention the code has; a calibration with an
// honest witness tells whether the observation worked.

// Chal are the observed challenges.
type Chal struct{ X, Y, Z *big.Int }

// Observe runs the verifier on p and reads the challenges. n must be >= 2.
func Observe(p AnyProof) (ch Chal, ok bool) {
	g := p.Params.GP.(*vk.IGroup)
	q := g.Q
	t1 := El(p.T1).Text()
	h1 := El(p.Params.Hh[1]).Text()
	g0 := El(p.Params.Gg[0]).Text()
	v0 := El(p.Vs[0]).Text()
	t2, s1 := El(p.T2).Text(), El(p.S).Text()
	var xs, ys, zs, z2, x2 []*big.Int
	g.OnScale = func(e *vk.IElem, s *big.Int) {
		switch e.Text() {
		case t1:
			xs = append(xs, mod(s, q))
		case h1:
			ys = append(ys, mod(s, q))
		case g0:
			zs = append(zs, mod(new(big.Int).Neg(s), q))
		case v0:
			z2 = append(z2, mod(s, q))
		}
		// T1, T2 and S may be the same element (the identity).
		if tx := e.Text(); tx == t1 || tx == t2 || tx == s1 {
			x2 = append(x2, mod(s, q))
		}
	}
	err := vk.Guard(func() error { p.Verify(); return nil })
	g.OnScale = nil
	_ = err
	if len(xs) == 0 || len(ys) == 0 || len(zs) == 0 || len(z2) == 0 {
		return ch, false
	}
	ch.X = xs[0]
	for _, x := range x2 {
		for _, xx := range x2 {
			if mod(mul(x, x), q).Cmp(xx) == 0 && x.Cmp(B(1)) > 0 {
				ch.X = x
			}
		}
	}
	ch.Y = new(big.Int).ModInverse(ys[0], q)
	for _, z := range zs {
		for _, w := range z2 {
			if ch.Z == nil && mod(mul(z, z), q).Cmp(w) == 0 {
				ch.Z = z
			}
		}
	}
	return ch, ch.Z != nil && ch.Y != nil
}

// Mal describes a dishonest run.
type Mal struct {
	Params bulletproofs.BulletProofSetupParams
	Multi  bool
	Vs     []*big.Int // committed values
	AL, AR []*big.Int // bit vectors
	Seed   uint64
	Strat  string
	Pos    int // position of the dishonest value
	Deg    int // bits: S, T1, T2 are the identity; gamma, alpha are zero
}

// derived scalars of a run
type run struct {
	m                *Mal
	g                *vk.IGroup
	q                *big.Int
	n, k             int
	gam              []*big.Int
	alpha, rho       *big.Int
	tau1, tau2       *big.Int
	sL, sR           []*big.Int
	p                AnyProof
	dummyIPP         bulletproofs.InnerProductProof
	l, r             []*big.Int
	t0, t1, t2, that *big.Int
	ch               Chal
}

func (r *run) rnd(i int) *big.Int {
	b := make([]byte, 32)
	vk.FillBytes(b, r.m.Seed, i)
	return mod(new(big.Int).SetBytes(b), r.q)
}

func newRun(m *Mal) *run {
	r := &run{m: m, g: m.Params.GP.(*vk.IGroup), n: int(m.Params.N)}
	r.q = r.g.Q
	r.k = r.n / len(m.Vs)
	c := 0
	next := func() *big.Int { c++; return r.rnd(c) }
	for range m.Vs {
		r.gam = append(r.gam, next())
	}
	r.alpha, r.rho, r.tau1, r.tau2 = next(), next(), next(), next()
	for i := 0; i < r.n; i++ {
		r.sL = append(r.sL, next())
		r.sR = append(r.sR, next())
	}
	if m.Deg&1 != 0 {
		r.rho = B(0)
		for i := range r.sL {
			r.sL[i], r.sR[i] = B(0), B(0)
		}
	}
	if m.Deg&2 != 0 {
		r.tau1 = B(0)
	}
	if m.Deg&4 != 0 {
		r.tau2 = B(0)
	}
	if m.Deg&8 != 0 {
		for j := range r.gam {
			r.gam[j] = B(0)
		}
	}
	if m.Deg&16 != 0 {
		r.alpha = B(0)
	}
	r.p.Params = m.Params
	r.p.Multi = m.Multi
	for i, v := range m.Vs {
		r.p.Vs = append(r.p.Vs, r.g.Lin(r.g.Generator(), v, m.Params.H, r.gam[i]))
	}
	r.p.A = r.vecCommit(r.alpha, m.AL, m.AR)
	r.p.S = r.vecCommit(r.rho, r.sL, r.sR)
	// Dummy tail so that the verifier runs.
	r.p.T1 = r.g.Lin(m.Params.H, B(7))
	r.p.T2 = r.g.Lin(m.Params.H, B(9))
	r.p.Taux, r.p.Mu, r.p.Tprime = B(1), B(2), B(3)
	z := make([]*big.Int, r.n)
	for i := range z {
		z[i] = B(int64(i + 1))
	}
	ipp, _ := bulletproofs.ZSetupIP(m.Params.Gg, m.Params.Hh, m.Params.N, r.g)
	r.dummyIPP, _ = bulletproofs.ZProveIP(z, z, bulletproofs.ZCommitIP(m.Params.Gg, m.Params.Hh, z, z, r.g), B(3), ipp)
	r.p.IPP = r.dummyIPP
	return r
}

func (r *run) vecCommit(h *big.Int, a, b []*big.Int) group.Element {
	args := []any{r.m.Params.H, h}
	for i := range a {
		args = append(args, r.m.Params.Gg[i], a[i], r.m.Params.Hh[i], b[i])
	}
	return r.g.Lin(args...)
}

// polys computes l, r, t0..t2 for the current challenges.
func (r *run) polys() {
	q, z, y := r.q, r.ch.Z, r.ch.Y
	yp := B(1)
	zero := func() *big.Int { return new(big.Int) }
	l0, r0, r1 := make([]*big.Int, r.n), make([]*big.Int, r.n), make([]*big.Int, r.n)
	for i := 0; i < r.n; i++ {
		j := i / r.k
		zz := new(big.Int).Exp(z, B(int64(2+j)), q)
		l0[i] = mod(sub(r.m.AL[i], z), q)
		r0[i] = mod(add(mul(yp, add(r.m.AR[i], z)), mul(zz, Pow2(i%r.k))), q)
		r1[i] = mod(mul(yp, r.sR[i]), q)
		yp = mod(mul(yp, y), q)
	}
	r.t0, r.t1, r.t2 = zero(), zero(), zero()
	for i := 0; i < r.n; i++ {
		r.t0.Add(r.t0, mul(l0[i], r0[i]))
		r.t1.Add(r.t1, add(mul(r.sL[i], r0[i]), mul(l0[i], r1[i])))
		r.t2.Add(r.t2, mul(r.sL[i], r1[i]))
	}
	r.t0.Mod(r.t0, q)
	r.t1.Mod(r.t1, q)
	r.t2.Mod(r.t2, q)
	if r.ch.X != nil {
		r.l, r.r = nil, nil
		for i := 0; i < r.n; i++ {
			r.l = append(r.l, mod(add(l0[i], mul(r.sL[i], r.ch.X)), q))
			r.r = append(r.r, mod(add(r0[i], mul(r1[i], r.ch.X)), q))
		}
		r.that = ip(r.l, r.r, q)
	}
}

func ip(a, b []*big.Int, q *big.Int) *big.Int {
	s := new(big.Int)
	for i := range a {
		s.Add(s, mul(a[i], b[i]))
	}
	return s.Mod(s, q)
}

// delta is the public constant of the polynomial identity.
func (r *run) delta() *big.Int {
	q, z, y := r.q, r.ch.Z, r.ch.Y
	sy, yp := B(0), B(1)
	for i := 0; i < r.n; i++ {
		sy.Add(sy, yp)
		yp = mod(mul(yp, y), q)
	}
	d := mul(sub(z, mul(z, z)), sy)
	for j := range r.m.Vs {
		d.Sub(d, mul(new(big.Int).Exp(z, B(int64(3+j)), q), sub(Pow2(r.k), B(1))))
	}
	return d.Mod(d, q)
}

// want is the value the polynomial identity demands of t(x).
func (r *run) want(t1, t2 *big.Int) *big.Int {
	w := r.delta()
	for j, v := range r.m.Vs {
		w.Add(w, mul(new(big.Int).Exp(r.ch.Z, B(int64(2+j)), r.q), v))
	}
	w.Add(w, mul(t1, r.ch.X))
	w.Add(w, mul(t2, mul(r.ch.X, r.ch.X)))
	return w.Mod(w, r.q)
}

func (r *run) setT(t1, t2 *big.Int) {
	r.p.T1 = r.g.Lin(r.g.Generator(), t1, r.m.Params.H, r.tau1)
	r.p.T2 = r.g.Lin(r.g.Generator(), t2, r.m.Params.H, r.tau2)
}

func (r *run) taux() *big.Int {
	x := r.ch.X
	t := add(mul(r.tau2, mul(x, x)), mul(r.tau1, x))
	for j := range r.m.Vs {
		t.Add(t, mul(new(big.Int).Exp(r.ch.Z, B(int64(2+j)), r.q), r.gam[j]))
	}
	return t.Mod(t, r.q)
}

func (r *run) hp() []group.Element {
	yi := new(big.Int).ModInverse(r.ch.Y, r.q)
	e := B(1)
	var out []group.Element
	for i := 0; i < r.n; i++ {
		out = append(out, r.g.Lin(r.m.Params.Hh[i], e))
		e = mod(mul(e, yi), r.q)
	}
	return out
}

func (r *run) ipp(l, rr []*big.Int, p group.Element, c *big.Int) bulletproofs.InnerProductProof {
	params, _ := bulletproofs.ZSetupIP(r.m.Params.Gg, r.hp(), r.m.Params.N, r.g)
	if p == nil {
		p = bulletproofs.ZCommitIP(r.m.Params.Gg, r.hp(), l, rr, r.g)
	}
	pr, _ := bulletproofs.ZProveIP(l, rr, p, c, params)
	return pr
}

// Strategies lists the dishonest strategies; "plain" follows the protocol.
var Strategies = []string{"plain", "tprime-decoupled", "wrong-cc", "fake-ipp", "other-vectors", "chosen-uu", "chosen-gens", "zero-ip", "zero-ip-t", "zero-ip-cc", "t-fixup", "v-last", "x-first",
	"low8", "low32", "low64", "low128", "low256", "cc-low32", "cc-low64", "cc-low128"}

// Forge executes a strategy. ok is false when the challenges could not be observed.
func Forge(m *Mal) (p AnyProof, ok bool) {
	r := newRun(m)
	g := r.g
	if m.Strat == "x-first" {
		// T1, T2 first: if x ignores A and S, the bits can absorb the error. Needs n>=2.
		ch, ok := Observe(r.p)
		if !ok {
			return r.p, false
		}
		q := r.q
		t1, t2 := B(5), B(0)
		var w *big.Int
		for w == nil {
			t1 = add(t1, B(1))
			r.setT(t1, t2)
			if ch, ok = Observe(r.p); !ok {
				return r.p, false
			}
			// w^2 - w - x t1 = 0
			disc := mod(add(B(1), mul(B(4), mul(ch.X, t1))), q)
			if s := new(big.Int).ModSqrt(disc, q); s != nil {
				w = mod(mul(add(B(1), s), new(big.Int).ModInverse(B(2), q)), q)
			}
		}
		for i := range m.AL {
			m.AL[i], m.AR[i] = B(0), B(-1)
			r.sL[i], r.sR[i] = B(0), B(0)
		}
		m.AL[0], m.AR[0] = w, sub(w, B(1))
		m.Vs[0] = w
		for j := 1; j < len(m.Vs); j++ {
			m.Vs[j] = B(0)
		}
		for j := range m.Vs {
			r.p.Vs[j] = g.Lin(g.Generator(), m.Vs[j], m.Params.H, r.gam[j])
		}
		r.p.A = r.vecCommit(r.alpha, m.AL, m.AR)
		r.p.S = r.vecCommit(r.rho, r.sL, r.sR)
		if r.ch, ok = Observe(r.p); !ok {
			return r.p, false
		}
		r.polys()
		r.p.Taux, r.p.Mu, r.p.Tprime = r.taux(), mod(add(r.alpha, mul(r.rho, r.ch.X)), q), r.that
		r.p.IPP = r.ipp(r.l, r.r, nil, r.that)
		return r.p, true
	}
	if r.ch, ok = Observe(r.p); !ok {
		return r.p, false
	}
	r.ch.X = nil
	r.polys()
	t1, t2 := r.t1, r.t2
	if m.Strat == "t-fixup" {
		// Make the identity hold at one guessed x (=1) by shifting t1.
		r.ch.X = B(1)
		r.polys()
		d := sub(r.that, r.want(t1, t2))
		t1 = mod(add(t1, d), r.q)
	}
	if m.Deg&2 != 0 {
		t1 = B(0)
	}
	if m.Deg&4 != 0 {
		t2 = B(0)
	}
	r.setT(t1, t2)
	ch, ok := Observe(r.p)
	if !ok {
		return r.p, false
	}
	r.ch = ch
	r.polys()
	r.p.Taux = r.taux()
	r.p.Mu = mod(add(r.alpha, mul(r.rho, r.ch.X)), r.q)
	want := r.want(t1, t2)
	honestP := bulletproofs.ZCommitIP(m.Params.Gg, r.hp(), r.l, r.r, g)
	switch m.Strat {
	case "plain", "t-fixup":
		r.p.Tprime = r.that
		r.p.IPP = r.ipp(r.l, r.r, nil, r.that)
	case "tprime-decoupled":
		r.p.Tprime = want
		r.p.IPP = r.ipp(r.l, r.r, nil, r.that)
	case "low8", "low32", "low64", "low128", "low256", "cc-low32", "cc-low64", "cc-low128":
		// As before, with representatives that agree in their low bits.
		var w int
		fmt.Sscanf(m.Strat[strings.Index(m.Strat, "low")+3:], "%d", &w)
		r.p.Tprime = want
		r.p.IPP = r.ipp(r.l, r.r, nil, r.that)
		inv := new(big.Int).ModInverse(r.q, Pow2(w))
		if m.Strat[0] == 'c' {
			k := mod(mul(sub(want, r.that), inv), Pow2(w))
			cc := add(r.that, mul(k, r.q))
			r.p.IPP = r.ipp(r.l, r.r, nil, cc)
		} else {
			k := mod(mul(sub(r.that, want), inv), Pow2(w))
			r.p.Tprime = add(want, mul(k, r.q))
		}
	case "wrong-cc":
		r.p.Tprime = want
		r.p.IPP = r.ipp(r.l, r.r, honestP, want)
	case "fake-ipp":
		r.p.Tprime = want
		r.p.IPP = r.dummyIPP
		r.p.IPP.P = honestP
		r.p.IPP.Cc = want
	case "other-vectors":
		// Inner product about other vectors with the demanded product.
		l, rr := make([]*big.Int, r.n), make([]*big.Int, r.n)
		for i := range l {
			l[i], rr[i] = B(0), B(0)
		}
		l[0], rr[0] = want, B(1)
		r.p.Tprime = want
		r.p.IPP = r.ipp(l, rr, nil, want)
	case "zero-ip", "zero-ip-t", "zero-ip-cc":
		// All vectors zero: the inner-product commitment and all rounds are the identity.
		zero := make([]*big.Int, r.n)
		for i := range zero {
			zero[i] = B(0)
		}
		r.p.Tprime = B(0)
		cc := B(0)
		if m.Strat != "zero-ip" {
			r.p.Tprime = want
		}
		if m.Strat == "zero-ip-cc" {
			cc = want
		}
		r.p.IPP = r.ipp(zero, zero, nil, cc)
	case "chosen-uu":
		// Inner-product parameters carried by the proof with Uu = identity: any c goes.
		params, _ := bulletproofs.ZSetupIP(m.Params.Gg, r.hp(), m.Params.N, g)
		params.Uu = g.Identity()
		r.p.Tprime = want
		r.p.IPP, _ = bulletproofs.ZProveIP(r.l, r.r, honestP, want, params)
	case "chosen-gens":
		// Gg[0] carried by the proof replaced so that other vectors open P:
		// sum of (l_i g_i + r_i h'_i) = 1*g0* + ..., with product = want.
		l := append([]*big.Int(nil), r.l...)
		rest := mod(sub(want, sub(r.that, mul(r.l[0], r.r[0]))), r.q)
		if r.r[0].Sign() == 0 {
			return r.p, false
		}
		l[0] = mod(mul(rest, new(big.Int).ModInverse(r.r[0], r.q)), r.q)
		if l[0].Sign() == 0 {
			return r.p, false
		}
		// g0' = (r.l[0]/l[0]) g0
		gg := append([]group.Element(nil), m.Params.Gg...)
		gg[0] = g.Lin(m.Params.Gg[0], mod(mul(r.l[0], new(big.Int).ModInverse(l[0], r.q)), r.q))
		params, _ := bulletproofs.ZSetupIP(gg, r.hp(), m.Params.N, g)
		r.p.Tprime = want
		r.p.IPP, _ = bulletproofs.ZProveIP(l, r.r, honestP, want, params)
	case "v-last":
		// Keep everything of an honest-looking run, then choose V to satisfy the identity
		// with a shifted Tprime-consistent proof: V_pos += (that-want)/z^(2+pos).
		r.p.Tprime = r.that
		r.p.IPP = r.ipp(r.l, r.r, nil, r.that)
		d := mod(mul(sub(r.that, want), new(big.Int).ModInverse(new(big.Int).Exp(r.ch.Z, B(int64(2+m.Pos)), r.q), r.q)), r.q)
		r.p.Vs[m.Pos] = g.Lin(r.p.Vs[m.Pos], B(1), g.Generator(), d)
	}
	return r.p, true
}

// Bits returns the k-bit vector of v (mod 2^k) and the matching aR.
func Bits(v *big.Int, k int) (a, b []*big.Int) {
	x := mod(v, Pow2(k))
	for i := 0; i < k; i++ {
		bit := int64(x.Bit(i))
		a = append(a, B(bit))
		b = append(b, B(bit-1))
	}
	return a, b
}

// Witness shapes for a value v in position 0 of m values (the others honest zeros).
// Each returns aL, aR for the k bits of that value.
var Shapes = []string{"bits", "yz", "heavy0", "heavyLast", "and-broken", "minus-broken", "aR-zero"}

// DegShapes and DegStrategies are combined with unusual elements.
var (
	DegShapes     = []string{"bits", "and-broken", "zero"}
	DegStrategies = []string{"plain", "tprime-decoupled", "wrong-cc", "fake-ipp", "other-vectors", "zero-ip", "zero-ip-t", "zero-ip-cc", "v-last"}
)

func Shape(s string, v *big.Int, k int) (a, b []*big.Int) {
	a, b = Bits(v, k)
	switch s {
	case "yz": // exploits equal challenges y and z
		for i := range a {
			a[i], b[i] = B(0), B(-1)
		}
		b[1%k] = sub(v, B(1))
	case "heavy0": // digit 0 carries the excess, aR = aL-1 kept
		hi := sub(v, mod(v, Pow2(k)))
		a[0] = add(a[0], hi)
		b[0] = sub(a[0], B(1))
	case "heavyLast": // the top digit carries the excess (v-excess must divide)
		hi := new(big.Int).Rsh(sub(v, mod(v, Pow2(k))), uint(k-1))
		a[k-1] = add(a[k-1], hi)
		b[k-1] = sub(a[k-1], B(1))
	case "and-broken": // all in digit 0 with aR = aL - 1
		for i := range a {
			a[i], b[i] = B(0), B(-1)
		}
		a[0], b[0] = v, sub(v, B(1))
	case "minus-broken": // aL∘aR = 0 kept, aL-aR=1 broken at digit 0
		for i := range a {
			a[i], b[i] = B(0), B(-1)
		}
		a[0], b[0] = v, B(0)
	case "zero": // A is a multiple of H only
		for i := range a {
			a[i], b[i] = B(0), B(0)
		}
	case "aR-zero":
		for i := range a {
			b[i] = B(0)
		}
		a[0] = add(a[0], sub(v, mod(v, Pow2(k))))
	}
	return a, b
}
