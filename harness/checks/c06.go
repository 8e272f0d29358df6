package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C06"] = c06
	vk.Describe("C06", "one case = one verifier run on a dishonest or altered proof (out-of-range secret, component mutation, crossover or forgery strategy); the committed value is read in the ideal group; a forgery family counts only if its honest calibration is accepted",
		"adversaries outside the enumerated families (witness shapes x strategies x mutations) are not covered")
}

// Prove1 makes an honest proof of v.
func Prove1(g group.Group, n int, v *big.Int, seed uint64) AnyProof {
	vk.Fresh(seed)
	p, _, err := bulletproofs.Prove(v, Params(g, n))
	if err != nil {
		panic(err)
	}
	return FromSingle(p)
}

// OutOfRange is the alphabet of values just and far outside [0,2^n) modulo q.
func OutOfRange(n int, q *big.Int, dense bool) []*big.Int {
	var out []*big.Int
	w := int64(1)
	if dense {
		w = int64(1) << uint(n)
	}
	top := Pow2(n)
	for d := int64(0); d <= w; d++ {
		out = append(out, add(top, B(d)))
		out = append(out, B(-1-d))
	}
	half := new(big.Int).Rsh(q, 1)
	out = append(out, mul(top, B(2)), mul(top, top), add(mul(top, B(3)), B(1)), half, add(half, B(1)), sub(q, top))
	return uniq(out, func(v *big.Int) bool { return mod(v, q).Cmp(top) >= 0 })
}

func uniq(in []*big.Int, keep func(*big.Int) bool) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	for _, v := range in {
		if !seen[v.String()] && keep(v) {
			seen[v.String()] = true
			out = append(out, v)
		}
	}
	return out
}

// mustReject judges a verdict on an altered proof. In the ideal group the committed value
// is also consulted for the message.
func mustReject(c *vk.Ctx, p AnyProof, what string) error {
	c.Trans(1)
	if p.Verify() {
		return vk.Errf("accepted: %s", what)
	}
	return nil
}

func c06(c *vk.Ctx) {
	ig := vk.NewIdeal("ideal256", Q256)
	// 1. The library's own prover on values outside the range.
	for _, n := range Ranges {
		for _, v := range OutOfRange(n, Q256, n <= 8) {
			n, v := n, v
			key := fmt.Sprintf("honest-prover/n=%d/v=%v", n, v)
			c.Case(key, func() (string, error) {
				vk.Fresh(Seed(key))
				p, _, err := bulletproofs.Prove(new(big.Int).Set(v), Params(ig, n))
				if err != nil {
					return "refused by prover", nil
				}
				a := FromSingle(p)
				c.State(key)
				return "rejected", mustReject(c, a, fmt.Sprintf("proof of %v for [0,2^%d)", v, n))
			})
		}
	}
	if c.Thorough() {
		for v := int64(65536); v < 131072; v++ {
			v := v
			key := fmt.Sprintf("honest-prover/n=16/v=%v", v)
			c.Case(key+"/all", func() (string, error) {
				a := Prove1(ig, 16, B(v), Seed(key))
				return "rejected", mustReject(c, a, fmt.Sprintf("proof of %v for [0,2^16)", v))
			})
		}
	}
	// 2. Forgery strategies x witness shapes x values.
	for _, n := range []int{2, 4, 8, 16, 32} {
		calKey := fmt.Sprintf("calibrate/n=%d", n)
		c.Case(calKey, func() (string, error) {
			a, b := Bits(B(2), n)
			p, ok := Forge(&Mal{Params: Params(ig, n), Vs: []*big.Int{B(2)}, AL: a, AR: b, Seed: 5, Strat: "plain"})
			if !ok || !p.Verify() {
				c.Note("forgery strategies not applicable (calibration failed) n="+fmt.Sprint(n), 1)
				return "not calibrated", nil
			}
			return "calibrated: harness prover accepted on an honest witness", nil
		})
		vals := []*big.Int{Pow2(n), add(Pow2(n), B(1)), B(-1), mul(Pow2(n), B(2)), sub(mul(Pow2(n), B(2)), B(1)), new(big.Int).Rsh(Q256, 1), add(mul(Pow2(n), B(6)), B(3))}
		if n <= 4 || c.Thorough() {
			vals = OutOfRange(n, Q256, n <= 4)
		}
		for _, v := range vals {
			for _, sh := range Shapes {
				for _, st := range Strategies {
					n, v, sh, st := n, v, sh, st
					key := fmt.Sprintf("forge/n=%d/v=%v/%s/%s", n, v, sh, st)
					c.Case(key, func() (string, error) {
						a, b := Shape(sh, v, n)
						p, ok := Forge(&Mal{Params: Params(ig, n), Vs: []*big.Int{v}, AL: a, AR: b, Seed: Seed(key), Strat: st})
						if !ok {
							return "not applicable", nil
						}
						c.Trans(1)
						c.State(key)
						if !p.Verify() {
							return "rejected", nil
						}
						if err := InRange(p); err != nil {
							return "", err
						}
						return "accepted, in range", nil
					})
				}
			}
		}
	}
	// 2b. The same with elements of the proof at the identity, in every combination.
	for _, n := range []int{2, 8} {
		for deg := 0; deg < 32; deg++ {
			for _, sh := range DegShapes {
				for _, st := range DegStrategies {
					for _, v := range []*big.Int{Pow2(n), B(-1)} {
						n, deg, sh, st, v := n, deg, sh, st, v
						key := fmt.Sprintf("forge-identity/n=%d/v=%v/%s/%s/%d", n, v, sh, st, deg)
						c.Case(key, func() (string, error) {
							a, b := Shape(sh, v, n)
							p, ok := Forge(&Mal{Params: Params(ig, n), Vs: []*big.Int{v}, AL: a, AR: b, Seed: Seed(key), Strat: st, Deg: deg})
							if !ok {
								return "not applicable", nil
							}
							c.Trans(1)
							c.State(key)
							if !p.Verify() {
								return "rejected", nil
							}
							return "accepted, in range", InRange(p)
						})
					}
				}
			}
		}
	}
	// 3. Component mutations of honest proofs, in the ideal and the real groups.
	mutate := func(g group.Group, n int, v *big.Int, tag string) {
		var base *AnyProof
		get := func() AnyProof {
			if base == nil {
				p := Prove1(g, n, v, 1234)
				base = &p
			}
			return *base
		}
		// The component list depends only on n.
		logn := 0
		for 1<<uint(logn) < n {
			logn++
		}
		sk := AnyProof{Vs: make([]group.Element, 1)}
		sk.IPP.L = make([]group.Element, logn)
		for _, cm := range Comps(sk) {
			cm := cm
			key := fmt.Sprintf("%s/n=%d/v=%v/%s", tag, n, v, cm.Name)
			c.Case(key, func() (string, error) {
				p := get()
				if !p.Verify() {
					return "", vk.Errf("base proof does not verify")
				}
				for _, r := range Repls(p, cm) {
					m := Apply(p, cm, r)
					c.State(key + r.Name)
					if err := mustReject(c, m, fmt.Sprintf("component %s replaced (%s)", cm.Name, r.Name)); err != nil {
						return "", err
					}
					if _, real := g.(*vk.IGroup); !real {
						c.Validated(1)
					}
				}
				return "all replacements rejected", nil
			})
		}
		// List faults: dropped, repeated, exchanged rounds.
		key := fmt.Sprintf("%s/n=%d/v=%v/lists", tag, n, v)
		c.Case(key, func() (string, error) {
			p := get()
			for _, f := range ListFaults(g, p.IPP.L, p.IPP.R) {
				q := p.Clone()
				q.IPP.L, q.IPP.R = f.L, f.R
				c.State(key + f.Name)
				if err := mustReject(c, q, f.Name); err != nil {
					return "", err
				}
			}
			return "all list faults rejected", nil
		})
	}
	for _, n := range []int{1, 2, 4, 8, 16, 32} {
		for _, v := range []*big.Int{B(0), sub(Pow2(n), B(1)), Pow2(n - 1)} {
			mutate(ig, n, v, "mutate/ideal")
		}
	}
	for _, g := range Curves() {
		mutate(g, 2, B(2), "mutate/"+g.Name())
		if c.Thorough() {
			mutate(g, 8, B(77), "mutate/"+g.Name())
		}
	}
	// 4. Crossovers: every way of taking the component groups from two honest proofs.
	groups := [][]string{{"V0"}, {"A"}, {"S"}, {"T1"}, {"T2"}, {"Taux"}, {"Mu"}, {"Tprime"}, {"P", "Cc", "a", "b", "L", "R"}}
	cross := func(g group.Group, n int, v, w *big.Int, tag string) {
		for mask := 1; mask < 1<<uint(len(groups))-1; mask++ {
			mask := mask
			key := fmt.Sprintf("%s/n=%d/v=%v,%v/mask=%d", tag, n, v, w, mask)
			c.Case(key, func() (string, error) {
				a, b := Prove1(g, n, v, 1), Prove1(g, n, w, 2)
				m := a.Clone()
				diff := false
				for _, cm := range Comps(a) {
					for gi, names := range groups {
						if mask>>uint(gi)&1 == 0 {
							continue
						}
						for _, nm := range names {
							if cm.Name == nm || (len(nm) == 1 && (nm == "L" || nm == "R") && cm.Name[:1] == nm && len(cm.Name) > 1) {
								if cm.E != nil {
									*cm.E(&m) = *cm.E(&b)
								} else {
									*cm.S(&m) = *cm.S(&b)
								}
							}
						}
					}
				}
				eqA, eqB := true, true
				for _, cm := range Comps(a) {
					eqA = eqA && Same(m, a, cm)
					eqB = eqB && Same(m, b, cm)
				}
				diff = !eqA && !eqB
				if !diff {
					return "equal to an original", nil
				}
				c.State(key)
				return "rejected", mustReject(c, m, "mixture of two proofs")
			})
		}
	}
	cross(ig, 4, B(5), B(5), "cross/ideal")
	cross(ig, 4, B(5), B(10), "cross/ideal")
	cross(ig, 1, B(0), B(1), "cross/ideal")
	if c.Thorough() {
		cross(ig, 16, B(5), B(10), "cross/ideal")
		for _, g := range Curves() {
			cross(g, 2, B(1), B(2), "cross/"+g.Name())
		}
	}
	// 5. Out-of-range with the library prover on the real groups.
	for _, g := range Curves() {
		for _, n := range []int{1, 2, 8} {
			for _, v := range OutOfRange(n, g.N(), false) {
				g, n, v := g, n, v
				key := fmt.Sprintf("real/%s/n=%d/v=%v", g.Name(), n, v)
				c.Case(key, func() (string, error) {
					vk.Fresh(Seed(key))
					p, _, err := bulletproofs.Prove(new(big.Int).Set(v), Params(g, n))
					if err != nil {
						return "refused by prover", nil
					}
					c.Validated(1)
					return "rejected (real group)", mustReject(c, FromSingle(p), "out-of-range value on "+g.Name())
				})
			}
		}
	}
}
