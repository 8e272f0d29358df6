package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C08"] = c08
	vk.Describe("C08", "one case = one aggregated prove+verify run (value tuple), one altered aggregated proof, or one forgery strategy",
		"tuples are complete for n<=8 bits in total and boundary tuples beyond; adversaries outside the enumerated families are not covered")
}

func divisors(n int) []int {
	var out []int
	for m := 1; m <= n; m++ {
		if n%m == 0 {
			out = append(out, m)
		}
	}
	return out
}

// multiRun proves a tuple and checks verdict and openings against the range predicate.
func multiRun(c *vk.Ctx, g group.Group, n int, vs []*big.Int, dev map[int]vk.Deviation, seed uint64) error {
	params := Params(g, n)
	w := n / len(vs)
	good := true
	for _, v := range vs {
		if mod(v, g.N()).Cmp(Pow2(w)) >= 0 {
			good = false
		}
	}
	vk.With(seed, dev)
	in := make([]*big.Int, len(vs))
	for i, v := range vs {
		in[i] = new(big.Int).Set(v)
	}
	p, gammas, err := bulletproofs.MultiProve(in, params)
	c.Trans(2)
	if err != nil {
		if good {
			return vk.Errf("prove refused values in range: %v", err)
		}
		return nil
	}
	for i := range in {
		if in[i].Cmp(vs[i]) != 0 {
			return vk.Errf("prove changed its argument %d", i)
		}
	}
	ok, err := p.Verify()
	if good {
		if err != nil || !ok {
			return vk.Errf("honest aggregate rejected (err=%v)", err)
		}
		if len(p.Vs) != len(vs) || len(gammas) != len(vs) {
			return vk.Errf("wrong number of commitments or blindings")
		}
		for i := range vs {
			if !p.Vs[i].IsEqual(Commit(g, params.H, vs[i], gammas[i])) {
				return vk.Errf("commitment %d does not open to %v", i, vs[i])
			}
		}
	} else if ok && err == nil {
		return vk.Errf("aggregate with a value outside [0,2^%d) accepted", w)
	}
	return nil
}

func c08(c *vk.Ctx) {
	ig := vk.NewIdeal("ideal256", Q256)
	run := func(tag string, g group.Group, n int, vs []*big.Int) {
		key := fmt.Sprintf("%s/n=%d/m=%d/%s", tag, n, len(vs), vecKey(vs))
		vs = append([]*big.Int(nil), vs...)
		c.Case(key, func() (string, error) {
			c.State(key)
			if _, ideal := g.(*vk.IGroup); !ideal {
				c.Validated(1)
			}
			return "verdict matches the range predicate", multiRun(c, g, n, vs, nil, Seed(key))
		})
	}
	// Complete tuples.
	maxN := 8
	for _, n := range []int{1, 2, 4, 8} {
		if n > maxN {
			continue
		}
		for _, m := range divisors(n) {
			w := n / m
			var al []*big.Int
			for v := int64(0); v < 1<<uint(w); v++ {
				al = append(al, B(v))
			}
			tuples(m, al, func(t []*big.Int) { run("all", ig, n, t) })
		}
	}
	// Boundary tuples for 16 and 32: every position takes each boundary value, others from two bases.
	for _, n := range []int{16, 32} {
		for _, m := range divisors(n) {
			w := n / m
			top := sub(Pow2(w), B(1))
			for _, base := range []*big.Int{B(0), top} {
				for i := 0; i < m; i++ {
					for _, v := range []*big.Int{B(0), B(1), Pow2(w - 1), sub(top, B(1)), top} {
						if v.Sign() < 0 || v.Cmp(top) > 0 {
							continue
						}
						t := make([]*big.Int, m)
						for j := range t {
							t[j] = base
						}
						t[i] = v
						run(fmt.Sprintf("edge%d-%d-%v", i, n, base.BitLen()), ig, n, t)
					}
				}
			}
		}
	}
	// One value out of range at each position.
	for _, n := range Ranges {
		for _, m := range divisors(n) {
			w := n / m
			for i := 0; i < m; i++ {
				for vi, v := range OutOfRange(w, Q256, w <= 2) {
					t := make([]*big.Int, m)
					for j := range t {
						t[j] = B(int64(j % 2))
					}
					t[i] = v
					run(fmt.Sprintf("out%d.%d", i, vi), ig, n, t)
				}
			}
		}
	}
	// Two values out of range whose excesses cancel, at each pair of positions, both ways
	// around (values that shared a weight in the aggregate would hide each other).
	for _, n := range Ranges {
		for _, m := range divisors(n) {
			w := n / m
			for i := 0; i < m; i++ {
				for j := 0; j < m; j++ {
					if i == j {
						continue
					}
					for k, d := range []*big.Int{Pow2(w), mul(Pow2(w), B(3))} {
						if n == 32 && k > 0 && !c.Thorough() {
							continue
						}
						t := make([]*big.Int, m)
						for l := range t {
							t[l] = B(int64(l % 2))
						}
						t[i], t[j] = add(t[i], d), sub(t[j], d)
						run(fmt.Sprintf("cancel%d,%d.%d", i, j, k), ig, n, t)
					}
				}
			}
		}
	}
	// Draw deviations.
	for _, nm := range [][2]int{{2, 2}, {4, 2}, {8, 4}} {
		n, m := nm[0], nm[1]
		vs := make([]*big.Int, m)
		for j := range vs {
			vs[j] = B(1)
		}
		s := vk.Fresh(9)
		draws := 0
		if _, _, err := bulletproofs.MultiProve(vs, Params(ig, n)); err == nil {
			draws = s.N
		}
		for d := 0; d < draws; d++ {
			for xi, x := range []*big.Int{B(0), B(1), sub(Q256, B(1))} {
				d, x := d, x
				c.Case(fmt.Sprintf("dev/n=%d/m=%d/draw=%d/to=%d", n, m, d, xi), func() (string, error) {
					return "accepted under deviation", multiRun(c, ig, n, vs, map[int]vk.Deviation{d: {Kind: "value", Val: x}}, 9)
				})
			}
		}
	}
	// Numbers of values that do not divide n.
	for _, n := range Ranges {
		for m := 0; m <= 2*n+1; m++ {
			if m > 0 && n%m == 0 {
				continue
			}
			n, m := n, m
			c.Case(fmt.Sprintf("indivisible/n=%d/m=%d", n, m), func() (string, error) {
				vs := make([]*big.Int, m)
				for j := range vs {
					vs[j] = B(0)
				}
				vk.Fresh(1)
				p, _, err := bulletproofs.MultiProve(vs, Params(ig, n))
				c.Trans(1)
				if err == nil {
					return "", vk.Errf("%d values for %d bits not refused", m, n)
				}
				_ = p
				// The verifier must not crash or accept either.
				q := proveMulti(ig, n, []*big.Int{B(1)}, 3)
				q.Vs = nil
				for j := 0; j < m; j++ {
					q.Vs = append(q.Vs, ig.Generator())
				}
				if q.Verify() {
					return "", vk.Errf("verifier accepted %d commitments for %d bits", m, n)
				}
				return "refused", nil
			})
		}
	}
	// Mutations.
	mutate := func(tag string, g group.Group, n, m int) {
		logn := 0
		for 1<<uint(logn) < n {
			logn++
		}
		sk := AnyProof{Vs: make([]group.Element, m)}
		sk.IPP.L = make([]group.Element, logn)
		var base *AnyProof
		get := func() AnyProof {
			if base == nil {
				vs := make([]*big.Int, m)
				for j := range vs {
					vs[j] = mod(B(int64(j*3+1)), Pow2(n/m))
				}
				p := proveMulti(g, n, vs, 77)
				base = &p
			}
			return *base
		}
		for _, cm := range Comps(sk) {
			cm := cm
			key := fmt.Sprintf("%s/n=%d/m=%d/%s", tag, n, m, cm.Name)
			c.Case(key, func() (string, error) {
				p := get()
				if !p.Verify() {
					return "", vk.Errf("base proof does not verify")
				}
				for _, r := range Repls(p, cm) {
					c.State(key + r.Name)
					if _, ideal := g.(*vk.IGroup); !ideal {
						c.Validated(1)
					}
					if err := mustReject(c, Apply(p, cm, r), fmt.Sprintf("component %s replaced (%s)", cm.Name, r.Name)); err != nil {
						return "", err
					}
				}
				return "all replacements rejected", nil
			})
		}
		c.Case(fmt.Sprintf("%s/n=%d/m=%d/lists", tag, n, m), func() (string, error) {
			p := get()
			for i := 0; i < m; i++ {
				for j := i + 1; j < m; j++ {
					q := p.Clone()
					q.Vs[i], q.Vs[j] = q.Vs[j], q.Vs[i]
					if err := mustReject(c, q, fmt.Sprintf("commitments %d and %d exchanged", i, j)); err != nil {
						return "", err
					}
				}
			}
			// Other commitment counts.
			for k := 1; k <= n; k++ {
				if k == m {
					continue
				}
				q := p.Clone()
				q.Vs = nil
				for j := 0; j < k; j++ {
					q.Vs = append(q.Vs, p.Vs[j%m])
				}
				if err := mustReject(c, q, fmt.Sprintf("%d commitments instead of %d", k, m)); err != nil {
					return "", err
				}
			}
			for _, f := range ListFaults(g, p.IPP.L, p.IPP.R) {
				q := p.Clone()
				q.IPP.L, q.IPP.R = f.L, f.R
				if err := mustReject(c, q, f.Name); err != nil {
					return "", err
				}
			}
			return "all list faults rejected", nil
		})
	}
	for _, n := range Ranges {
		for _, m := range divisors(n) {
			mutate("mutate/ideal", ig, n, m)
		}
	}
	for _, g := range Curves() {
		mutate("mutate/"+g.Name(), g, 2, 2)
	}
	// Forgeries with the excess in each position.
	deep := map[[2]int]bool{{2, 1}: true, {2, 2}: true, {4, 2}: true, {8, 2}: true, {8, 4}: true, {16, 2}: true, {32, 4}: true}
	var pairs [][2]int
	for _, n := range Ranges[1:] {
		for _, m := range divisors(n) {
			pairs = append(pairs, [2]int{n, m})
		}
	}
	for _, nm := range pairs {
		n, m := nm[0], nm[1]
		w := n / m
		c.Case(fmt.Sprintf("calibrate/n=%d/m=%d", n, m), func() (string, error) {
			mal := aggMal(ig, n, m, 0, B(1), "bits", "plain", 5)
			p, ok := Forge(mal)
			if !ok || !p.Verify() {
				c.Note("forgery strategies not applicable (calibration failed)", 1)
				return "not calibrated", nil
			}
			return "calibrated: harness prover accepted on an honest witness", nil
		})
		for pos := 0; pos < m; pos++ {
			vals := []*big.Int{Pow2(w), add(Pow2(w), B(1)), B(-1), mul(Pow2(w), B(6)), new(big.Int).Rsh(Q256, 1)}
			if !deep[nm] && !c.Thorough() {
				if pos != 0 && pos != m-1 {
					continue
				}
				vals = []*big.Int{Pow2(w), B(-1)}
			}
			for _, v := range vals {
				for _, sh := range Shapes {
					for _, st := range Strategies {
						pos, v, sh, st := pos, v, sh, st
						key := fmt.Sprintf("forge/n=%d/m=%d/pos=%d/v=%v/%s/%s", n, m, pos, v, sh, st)
						c.Case(key, func() (string, error) {
							p, ok := Forge(aggMal(ig, n, m, pos, v, sh, st, Seed(key)))
							if !ok {
								return "not applicable", nil
							}
							c.Trans(1)
							c.State(key)
							if !p.Verify() {
								return "rejected", nil
							}
							return "accepted, in range", InRange(p)
						})
					}
				}
			}
		}
	}
	// With elements of the proof at the identity, in every combination.
	for _, nm := range [][2]int{{4, 2}, {8, 4}} {
		n, m := nm[0], nm[1]
		for deg := 0; deg < 32; deg++ {
			for _, sh := range DegShapes {
				for _, st := range DegStrategies {
					for pos := 0; pos < m; pos += m - 1 {
						n, deg, sh, st, pos := n, deg, sh, st, pos
						key := fmt.Sprintf("forge-identity/n=%d/m=%d/pos=%d/%s/%s/%d", n, m, pos, sh, st, deg)
						c.Case(key, func() (string, error) {
							mal := aggMal(ig, n, m, pos, add(Pow2(n/m), B(2)), sh, st, Seed(key))
							mal.Deg = deg
							p, ok := Forge(mal)
							if !ok {
								return "not applicable", nil
							}
							c.Trans(1)
							c.State(key)
							if !p.Verify() {
								return "rejected", nil
							}
							return "accepted, in range", InRange(p)
						})
					}
				}
			}
		}
	}
	// A commitment that the challenges do not see could be chosen last, at any position.
	for _, nm := range [][2]int{{2, 2}, {4, 4}, {8, 8}, {16, 4}, {16, 16}, {32, 8}, {32, 16}, {32, 32}} {
		n, m := nm[0], nm[1]
		for pos := 0; pos < m; pos++ {
			for _, sh := range []string{"and-broken", "minus-broken"} {
				pos, sh := pos, sh
				key := fmt.Sprintf("forge-late/n=%d/m=%d/pos=%d/%s", n, m, pos, sh)
				c.Case(key, func() (string, error) {
					p, ok := Forge(aggMal(ig, n, m, pos, add(Pow2(n/m), B(3)), sh, "v-last", Seed(key)))
					if !ok {
						return "not applicable", nil
					}
					c.Trans(1)
					c.State(key)
					if !p.Verify() {
						return "rejected", nil
					}
					return "accepted, in range", InRange(p)
				})
			}
		}
	}
	// Real groups.
	for _, g := range Curves() {
		for _, nm := range [][2]int{{2, 1}, {2, 2}, {4, 2}, {8, 4}, {32, 2}} {
			n, m := nm[0], nm[1]
			if n == 32 && g.Name() != "P-256" && !c.Thorough() {
				continue
			}
			w := n / m
			for pos := 0; pos < m; pos++ {
				for _, v := range []*big.Int{B(0), sub(Pow2(w), B(1)), Pow2(w), B(-1)} {
					t := make([]*big.Int, m)
					for j := range t {
						t[j] = B(1)
					}
					t[pos] = v
					run(fmt.Sprintf("real/%s/%d", g.Name(), pos), g, n, t)
				}
			}
		}
	}
}

func proveMulti(g group.Group, n int, vs []*big.Int, seed uint64) AnyProof {
	vk.Fresh(seed)
	p, _, err := bulletproofs.MultiProve(vs, Params(g, n))
	if err != nil {
		panic(err)
	}
	return FromMulti(p)
}

func aggMal(g *vk.IGroup, n, m, pos int, v *big.Int, sh, st string, seed uint64) *Mal {
	w := n / m
	mal := &Mal{Params: Params(g, n), Multi: true, Seed: seed, Strat: st, Pos: pos}
	for j := 0; j < m; j++ {
		x := B(int64(j % 2))
		var a, b []*big.Int
		if j == pos {
			x = v
			a, b = Shape(sh, v, w)
		} else {
			a, b = Bits(x, w)
		}
		mal.Vs = append(mal.Vs, x)
		mal.AL = append(mal.AL, a...)
		mal.AR = append(mal.AR, b...)
	}
	return mal
}
