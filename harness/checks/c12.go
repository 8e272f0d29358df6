package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	vk.Describe("C12", "one case = the runs that differ in one draw of the randomness (flipped, forced through its range, or failing) of a proof, a pair of proofs or a ballot; the blinding values are read from the ideal group",
		"a draw is one read of crypto/rand.Reader")
}

// Blinds maps names of blinding values to their values.
type Blinds map[string]*big.Int

// RangeBlinds reads the blinding values of an ideal-group range proof.
func RangeBlinds(prefix string, p AnyProof, out Blinds) {
	h := El(p.Params.H).BasisIndex()
	for i, v := range p.Vs {
		out[fmt.Sprintf("%sgamma%d", prefix, i)] = El(v).Coef(h)
	}
	out[prefix+"alpha"] = El(p.A).Coef(h)
	out[prefix+"rho"] = El(p.S).Coef(h)
	out[prefix+"tau1"] = El(p.T1).Coef(h)
	out[prefix+"tau2"] = El(p.T2).Coef(h)
	for i := range p.Params.Gg {
		out[fmt.Sprintf("%ssL%d", prefix, i)] = El(p.S).Coef(El(p.Params.Gg[i]).BasisIndex())
		out[fmt.Sprintf("%ssR%d", prefix, i)] = El(p.S).Coef(El(p.Params.Hh[i]).BasisIndex())
	}
}

// SigmaBlinds reads the nonces of an ideal-group equality proof.
func SigmaBlinds(prefix string, p voteproof.SigmaProof, out Blinds) {
	hf, he := El(p.Params.GFF.H).BasisIndex(), El(p.Params.GEC.H).BasisIndex()
	out[prefix+"k"] = El(p.Kp).Coef(0)
	out[prefix+"tp"] = El(p.Kp).Coef(hf)
	out[prefix+"tq1"] = El(p.Kq1).Coef(he)
	out[prefix+"tq2"] = El(p.Kq2).Coef(he)
}

// Blinder is one procedure whose blinding values are examined.
type Blinder struct {
	Name string
	// Run executes the procedure; an error means that it reported failure.
	Run func() (Blinds, error)
	// Exempt names values that a draw may change in addition (the choice, say).
	Exempt map[string]bool
	// Bits gives the bit length that a value's range spans.
	Bits func(name string) int
	// SkipRange drops the range case (repeated elsewhere).
	SkipRange bool
}

// CheckBlinder enumerates the draws of one procedure.
func CheckBlinder(c *vk.Ctx, b Blinder) {
	run := func(dev map[int]vk.Deviation) (Blinds, *vk.Stream, error) {
		s := vk.With(9001, dev)
		s.Limit = 100000
		o, err := b.Run()
		c.Trans(1)
		return o, s, err
	}
	var base Blinds
	var n int
	err := vk.Guard(func() error {
		o, s, err := run(nil)
		base, n = o, s.N
		return err
	})
	c.Case(b.Name+"/distinct", func() (string, error) {
		if err != nil {
			return "", err
		}
		seen := map[string]string{}
		for _, k := range sortedKeys(base) {
			v := base[k]
			if b.Exempt[k] {
				continue
			}
			if v.Sign() == 0 || v.BitLen() < b.Bits(k)-40 {
				return "", vk.Errf("%s is %v: not drawn from its full range", k, v)
			}
			if o, ok := seen[v.String()]; ok {
				return "", vk.Errf("%s and %s are equal", o, k)
			}
			seen[v.String()] = k
			c.State(b.Name + k + v.String())
		}
		return "values distinct", nil
	})
	if err != nil {
		return
	}
	changed := func(o Blinds) []string {
		var out []string
		for _, k := range sortedKeys(base) {
			if !b.Exempt[k] && (o[k] == nil || o[k].Cmp(base[k]) != 0) {
				out = append(out, k)
			}
		}
		return out
	}
	// own: every value has a draw of its own.
	c.Case(b.Name+"/own", func() (string, error) {
		cover := map[string]int{}
		for d := 0; d < n; d++ {
			o, _, err := run(map[int]vk.Deviation{d: {Kind: "flip"}})
			if err != nil {
				return "", err
			}
			ch := changed(o)
			if len(ch) > 1 {
				return "", vk.Errf("draw %d determines several values: %v", d, ch)
			}
			for _, k := range ch {
				cover[k]++
			}
		}
		for k := range base {
			if !b.Exempt[k] && cover[k] == 0 {
				return "", vk.Errf("%s does not depend on any draw", k)
			}
		}
		return "each value has its own draw", nil
	})
	// range: every bit of the draw reaches the value.
	for d := 0; d < n && !b.SkipRange; d++ {
		d := d
		c.Case(fmt.Sprintf("%s/range/draw=%d", b.Name, d), func() (string, error) {
			o, _, err := run(map[int]vk.Deviation{d: {Kind: "flip"}})
			if err != nil {
				return "", err
			}
			ch := changed(o)
			if len(ch) == 0 {
				return "draw is not a blinding value", nil
			}
			name := ch[0]
			seen := map[string]int{}
			top := 0
			for j := 0; j < b.Bits(name); j++ {
				if j > 2 && j%8 > 1 && j < b.Bits(name)-3 && !c.Thorough() {
					continue
				}
				v := Pow2(j)
				if j < b.Bits(name)-2 {
					v.Add(v, Pow2(b.Bits(name)-2)) // keep aborts away
				}
				var o Blinds
				if err := vk.Guard(func() error {
					var e error
					o, _, e = run(map[int]vk.Deviation{d: {Kind: "value", Val: v}})
					return e
				}); err != nil {
					return "", vk.Errf("draw %d forced to %v: %v", d, v, err)
				}
				w := o[name]
				if w.BitLen() > top {
					top = w.BitLen()
				}
				if old, ok := seen[w.String()]; ok {
					return "", vk.Errf("%s is the same (%v) for draws with bit %d and bit %d set", name, w, old, j)
				}
				seen[w.String()] = j
				c.State(b.Name + name + w.String())
			}
			if top < b.Bits(name)-1 {
				return "", vk.Errf("%s never exceeds %d bits of %d", name, top, b.Bits(name))
			}
			return "every bit of the draw counts", nil
		})
	}
	// A source that delivers a few bytes per read: the values are still full-size.
	for _, chunk := range []int{1, 3, 31} {
		chunk := chunk
		c.Case(fmt.Sprintf("%s/short-reads=%d", b.Name, chunk), func() (string, error) {
			s := vk.NewStream(9001)
			s.Chunk = chunk
			s.Limit = 10000000
			vk.Use(s)
			c.Trans(1)
			o, err := b.Run()
			if err != nil {
				return "", err
			}
			seen := map[string]string{}
			for _, k := range sortedKeys(o) {
				if b.Exempt[k] {
					continue
				}
				if o[k].BitLen() < b.Bits(k)-40 || TrailingZeros(o[k]) > 40 {
					return "", vk.Errf("%s is %v: not drawn from its full range when the source delivers %d bytes per read", k, o[k], chunk)
				}
				if w, ok := seen[o[k].String()]; ok {
					return "", vk.Errf("%s and %s are equal", w, k)
				}
				seen[o[k].String()] = k
			}
			return "values full-size with short reads", nil
		})
	}
	CheckEntropy(c, b.Name, n, func() error { _, err := b.Run(); return err })
}

// CheckEntropy lets the randomness fail from each draw on, or at that draw only (with or
// without some bytes delivered); run must not succeed.
func CheckEntropy(c *vk.Ctx, name string, n int, run func() error) {
	for d := 0; d < n; d++ {
		for _, how := range []string{"on", "once", "partial"} {
			d, how := d, how
			c.Case(fmt.Sprintf("%s/fail-%s/draw=%d", name, how, d), func() (string, error) {
				s := vk.NewStream(9001)
				if how == "on" {
					s.FailAt = d
				} else {
					s.Dev[d] = vk.Deviation{Kind: map[string]string{"once": "fail", "partial": "failpart"}[how]}
				}
				s.Limit = 100000
				vk.Use(s)
				c.Trans(1)
				c.State(fmt.Sprintf("%s|fail|%s|%d", name, how, d))
				panicked, err := false, error(nil)
				func() {
					defer func() {
						if recover() != nil {
							panicked = true
						}
					}()
					err = run()
				}()
				switch {
				case panicked:
					return "refused (panic)", nil
				case err != nil:
					return "refused (error)", nil
				case s.N <= d:
					return "failure not reached", nil
				}
				return "", vk.Errf("randomness failed at draw %d (%s), yet a result was produced", d, how)
			})
		}
	}
}

// C12 is the part on the importable packages.
func C12(c *vk.Ctx) {
	g := vk.NewIdeal("ideal256", Q256)
	full := func(string) int { return 256 }
	for _, n := range Ranges {
		ps := Params(g, n)
		for _, sec := range []int64{0, 1} {
			sec := sec
			CheckBlinder(c, Blinder{Name: fmt.Sprintf("range/n=%d/v=%d", n, sec), Bits: full, SkipRange: sec > 0 || n > 4, Run: func() (Blinds, error) {
				o := Blinds{}
				p, gamma, err := bulletproofs.Prove(B(sec), ps)
				if err != nil {
					return nil, err
				}
				RangeBlinds("", FromSingle(p), o)
				if mod(gamma, Q256).Cmp(o["gamma0"]) != 0 {
					return nil, vk.Errf("returned blinding value is not the one used")
				}
				return o, nil
			}})
		}
		for m := 1; m <= n; m *= 2 {
			m := m
			CheckBlinder(c, Blinder{Name: fmt.Sprintf("multi/n=%d/m=%d", n, m), Bits: full, SkipRange: n != 2 && n != 4, Run: func() (Blinds, error) {
				o := Blinds{}
				var vs []*big.Int
				for j := 0; j < m; j++ {
					vs = append(vs, B(int64(j%2)))
				}
				p, _, err := bulletproofs.MultiProve(vs, ps)
				if err != nil {
					return nil, err
				}
				RangeBlinds("", FromMulti(p), o)
				return o, nil
			}})
		}
		// Two proofs in a row: nothing carries over.
		CheckBlinder(c, Blinder{Name: fmt.Sprintf("pair/n=%d", n), Bits: full, SkipRange: true, Run: func() (Blinds, error) {
			o := Blinds{}
			for i := 0; i < 2; i++ {
				p, _, err := bulletproofs.Prove(B(1), ps)
				if err != nil {
					return nil, err
				}
				RangeBlinds(fmt.Sprintf("%d.", i), FromSingle(p), o)
			}
			p, _, err := bulletproofs.MultiProve([]*big.Int{B(0)}, ps)
			if err != nil {
				return nil, err
			}
			RangeBlinds("m.", FromMulti(p), o)
			return o, nil
		}})
	}
	ff := vk.NewIdeal("idealff", NFF)
	vp := VPParams(ff, g, 16, 224, 256, 101, 2000)
	_, hi := Window(vp)
	sb := func(name string) int {
		switch name[len(name)-1] {
		case 'k':
			return hi.BitLen() - 1
		case 'p':
			return NFF.BitLen() - 1
		}
		return 256
	}
	for _, x := range []int64{0, 1, 65535} {
		x := x
		CheckBlinder(c, Blinder{Name: fmt.Sprintf("sigma/x=%d", x), Bits: sb, Run: func() (Blinds, error) {
			o := Blinds{}
			SigmaBlinds("", Stmt{B(x), B(1), B(2), B(3)}.Prove(vp), o)
			return o, nil
		}})
	}
	CheckBlinder(c, Blinder{Name: "sigma/pair", Bits: sb, SkipRange: true, Run: func() (Blinds, error) {
		o := Blinds{}
		for i := 0; i < 2; i++ {
			SigmaBlinds(fmt.Sprintf("%d.", i), Stmt{B(7), B(1), B(2), B(3)}.Prove(vp), o)
		}
		return o, nil
	}})
	// Groups of larger order (the widest curve; the ElGamal group's size).
	wg, wf := vk.NewIdeal("wide", Wide), vk.NewIdeal("wideff", WideFF)
	wb := func(name string) int {
		switch name[len(name)-1] {
		case 'k':
			return hi.BitLen() - 1
		case 'p':
			return WideFF.BitLen() - 1
		}
		return Wide.BitLen() - 1
	}
	CheckBlinder(c, Blinder{Name: "wide/range", Bits: wb, Run: func() (Blinds, error) {
		o := Blinds{}
		p, _, err := bulletproofs.Prove(B(2), Params(wg, 2))
		if err != nil {
			return nil, err
		}
		RangeBlinds("", FromSingle(p), o)
		return o, nil
	}})
	CheckBlinder(c, Blinder{Name: "wide/multi", Bits: wb, Run: func() (Blinds, error) {
		o := Blinds{}
		p, _, err := bulletproofs.MultiProve([]*big.Int{B(1), B(0)}, Params(wg, 2))
		if err != nil {
			return nil, err
		}
		RangeBlinds("", FromMulti(p), o)
		return o, nil
	}})
	wp := VPParams(wf, wg, 16, 224, 256, 101, 2000)
	CheckBlinder(c, Blinder{Name: "wide/sigma", Bits: wb, Run: func() (Blinds, error) {
		o := Blinds{}
		SigmaBlinds("", Stmt{B(101), B(1), B(2), B(3)}.Prove(wp), o)
		return o, nil
	}})
	// Complete toy: all values of each draw in a group of order 251 (thorough: 65521).
	orders := []*big.Int{B(251)}
	if c.Thorough() {
		orders = append(orders, Q16)
	}
	for _, q := range orders {
		q := q
		t := vk.NewIdeal("toy"+q.String(), q)
		ps := Params(t, 1)
		// A challenge of so small an order is zero now and then, and the prover
		// may then give up: such a run says nothing and is replaced by one with
		// other values for the remaining draws.
		run := func(seed uint64, dev map[int]vk.Deviation) (o Blinds, s *vk.Stream) {
			s = vk.With(seed, dev)
			defer func() {
				if recover() != nil {
					o = nil
				}
			}()
			p, _, err := bulletproofs.Prove(B(1), ps)
			if err != nil {
				return nil, s
			}
			o = Blinds{}
			RangeBlinds("", FromSingle(p), o)
			return o, s
		}
		top := int64(1) << uint(8*((q.BitLen()+7)/8))
		// Seeds whose plain run completes with the fewest reads.
		var seeds []uint64
		least := 0
		for seed := uint64(9); seed < 109; seed++ {
			o, s := run(seed, nil)
			if o == nil || least != 0 && s.N > least {
				continue
			}
			if s.N < least || least == 0 {
				least, seeds = s.N, nil
			}
			seeds = append(seeds, seed)
		}
		if len(seeds) == 0 {
			c.Case(fmt.Sprintf("complete/q=%v", q), func() (string, error) {
				return "", vk.Errf("no run completes")
			})
		}
		for d := 0; d < least; d++ {
			d := d
			c.Case(fmt.Sprintf("complete/q=%v/draw=%d", q, d), func() (string, error) {
				base, _ := run(seeds[0], nil)
				hits := map[string]map[string]int{}
				var again []int64
				for v := int64(0); v < top; v++ {
					o, s := run(seeds[0], map[int]vk.Deviation{d: {Kind: "value", Val: B(v)}})
					c.Trans(1)
					if s.N != least && o != nil {
						continue // the draw was refused and repeated
					}
					if o == nil {
						again = append(again, v)
						continue
					}
					for k, x := range o {
						if hits[k] == nil {
							hits[k] = map[string]int{}
						}
						hits[k][x.String()]++
						c.State(fmt.Sprintf("complete|%v|%s|%v", q, k, x))
					}
				}
				at := ""
				for _, k := range sortedKeys(base) {
					if len(hits[k]) > 1 {
						if at != "" {
							return "", vk.Errf("draw %d moves both %s and %s", d, at, k)
						}
						at = k
					}
				}
				if at == "" {
					return "draw was refused in the base run", nil
				}
				h := hits[at]
				for _, v := range again {
					for _, seed := range seeds[1:] {
						o, s := run(seed, map[int]vk.Deviation{d: {Kind: "value", Val: B(v)}})
						c.Trans(1)
						if o == nil {
							continue
						}
						if s.N == least {
							h[o[at].String()]++
						}
						break
					}
				}
				cnt := 0
				for x := int64(1); x < q.Int64(); x++ {
					m := h[fmt.Sprint(x)]
					if m == 0 {
						return "", vk.Errf("%s never takes the value %d", at, x)
					}
					if cnt == 0 {
						cnt = m
					}
					if m != cnt {
						return "", vk.Errf("%s takes the value %d %d times, others %d times", at, x, m, cnt)
					}
				}
				return "uniform over the whole range", nil
			})
		}
	}
	// Entropy failures on the real groups.
	for _, rg := range append(Curves(), group.Group(nil)) {
		rg := rg
		if rg == nil {
			continue
		}
		ps := Params(rg, 2)
		s := vk.Fresh(9001)
		if _, _, err := bulletproofs.Prove(B(1), ps); err != nil {
			panic(err)
		}
		CheckEntropy(c, "real/range/"+rg.Name(), s.N, func() error {
			c.Validated(1)
			_, _, err := bulletproofs.Prove(B(1), ps)
			return err
		})
		s = vk.Fresh(9001)
		if _, _, err := bulletproofs.MultiProve([]*big.Int{B(1), B(0)}, ps); err != nil {
			panic(err)
		}
		CheckEntropy(c, "real/multi/"+rg.Name(), s.N, func() error {
			c.Validated(1)
			_, _, err := bulletproofs.MultiProve([]*big.Int{B(1), B(0)}, ps)
			return err
		})
		vp := VPParams(SafeGroup(Safe320), rg, 16, 224, capBits(rg), 101, 2000)
		s = vk.Fresh(9001)
		st := Stmt{B(200), B(1), B(2), B(3)}
		st.Prove(vp)
		CheckEntropy(c, "real/sigma/"+rg.Name(), s.N, func() error {
			c.Validated(1)
			st.Prove(vp)
			return nil
		})
	}
}

// TrailingZeros counts the low zero bits.
func TrailingZeros(x *big.Int) int { return int(x.TrailingZeroBits()) }

// Wide and WideFF are orders of the size of the largest curve and of the ElGamal group.
var Wide, WideFF = primeBelow(384), primeBelow(3071)
