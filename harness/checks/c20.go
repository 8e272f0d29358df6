package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	vk.Describe("C20", "one case = all random tapes of the prover for all secrets that fit the same statement, over a cyclic group of tiny prime order: the multisets of published transcripts are compared; or one ballot whose published numbers and elements are compared with the secrets they hide",
		"transcripts whose challenge is zero modulo the tiny order are left out (they have negligible probability at full size); the tiny orders stand for the full-size ones, the code executed is the same")
}

// Tape serves enumerated draws; Size gives the number of values of a draw of so many
// bytes (0: not enumerable).
type Tape struct {
	Digits, Sizes []int64
	At, Cap       int
	Size          func(bytes int) int64
	Pin           map[int]int64
	Seed          uint64 // != 0: unlisted draws are pseudo-random instead of 0
}

type tapeEnd struct{}
type tapeOdd struct{}

func (t *Tape) Read(p []byte) (int, error) {
	if t.At >= t.Cap {
		panic(tapeEnd{})
	}
	n := t.Size(len(p))
	if n == 0 {
		panic(tapeOdd{})
	}
	if t.At == len(t.Digits) {
		d := int64(0)
		if t.Seed != 0 {
			d = int64(Seed(fmt.Sprint(t.Seed, "draw", t.At)) >> 23 % uint64(n))
		}
		t.Digits = append(t.Digits, d)
		t.Sizes = append(t.Sizes, n)
	}
	d := t.Digits[t.At]
	if v, ok := t.Pin[t.At]; ok {
		d = v
		t.Digits[t.At], t.Sizes[t.At] = 0, 1
	}
	big.NewInt(d).FillBytes(p)
	t.At++
	return len(p), nil
}

// next moves to the next tape; false when all have been visited.
func (t *Tape) next() bool {
	for i := len(t.Digits) - 1; i >= 0; i-- {
		if t.Digits[i]++; t.Digits[i] < t.Sizes[i] {
			t.Digits, t.Sizes = t.Digits[:i+1], t.Sizes[:i+1]
			return true
		}
	}
	return false
}

// Cyclic is a cyclic group of prime order q whose elements remember their coefficients.
func Cyclic(name string, q int64) *vk.IGroup {
	g := vk.NewIdeal("cyclic-"+name, B(q))
	g.Logs = func(basis string) *big.Int {
		if q == 2 {
			return B(1)
		}
		return B(1 + int64(Seed(basis)>>23%uint64(q-1)))
	}
	return g
}

// Pub is what a prover publishes.
type Pub struct {
	Text   []byte
	Stmt   string // the statement, where a draw decides it
	Err    error  // a response that is not reduced
	Exempt bool   // a challenge was (or may have been) zero modulo the tiny order
}

// Leak compares, for several witnesses of one statement, the multisets of what the
// prover publishes over all tapes.
type Leak struct {
	Wits []string
	Run  func(w int) Pub
	Size func(bytes int) int64
	// Large runs the same prover over a large group and returns the statement.
	Large func() string
}

// once runs the prover; ok is false when there is no transcript (tape used up, or a
// challenge that cannot be inverted modulo the tiny order).
func (l Leak) once(w int, t *Tape) (p Pub, ok bool) {
	vk.Use(t)
	t.At = 0
	defer func() {
		if r := recover(); r != nil {
			if _, odd := r.(tapeOdd); odd {
				panic(r)
			}
			ok = false
		}
	}()
	return l.Run(w), true
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// draws is the number of draws of one attempt (0: no complete run found).
func (l Leak) draws() int {
	n := 0
	for s := uint64(1); s < 60; s++ {
		t := &Tape{Cap: 200, Size: l.Size, Seed: s}
		if _, ok := l.once(0, t); ok && (n == 0 || t.At < n) {
			n = t.At
		}
	}
	return n
}

// stmtDraws finds the draws that the statement depends on, on a large group (where every
// run is complete).
func (l Leak) stmtDraws() []int {
	if l.Large == nil {
		return nil
	}
	s := vk.Fresh(5)
	base := l.Large()
	var out []int
	for i, n := 0, s.N; i < n; i++ {
		vk.With(5, map[int]vk.Deviation{i: {Kind: "flip"}})
		if l.Large() != base {
			out = append(out, i)
		}
	}
	return out
}

// Check enumerates all tapes for all witnesses; where the statement depends on draws,
// the part-th of the values it takes (with the first witness) is the one compared.
func (l Leak) Check(c *vk.Ctx, tag string, part int) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, odd := r.(tapeOdd); !odd {
				panic(r)
			}
			out, err = "draws of another form", nil
		}
	}()
	n := l.draws()
	if n == 0 {
		return "no complete run", nil
	}
	pins := l.stmtDraws()
	// stmt maps the values of the pinned draws to the statement, per witness
	byStmt := func(w int) map[string][]map[int]int64 {
		m := map[string][]map[int]int64{}
		dig := make([]int64, len(pins))
		for {
			pin := map[int]int64{}
			for k, i := range pins {
				pin[i] = dig[k]
			}
			for u := (&Tape{Cap: n, Size: l.Size, Pin: pin}); ; {
				if p, ok := l.once(w, u); ok {
					m[p.Stmt] = append(m[p.Stmt], pin)
					break
				}
				if !u.next() {
					break
				}
			}
			k := len(dig) - 1
			for ; k >= 0; k-- {
				if dig[k]++; dig[k] < l.Size(1) {
					break
				}
				dig[k] = 0
			}
			if k < 0 {
				return m
			}
		}
	}
	first := byStmt(0)
	var stmts []string
	for s := range first {
		stmts = append(stmts, s)
	}
	sort.Strings(stmts)
	if part >= len(stmts) {
		return "no such statement", nil
	}
	target := stmts[part]
	type seen struct {
		n  int
		by string
		ex bool
	}
	var base map[uint64]*seen
	strict := 0
	for w := range l.Wits {
		cur := map[uint64]*seen{}
		for _, pin := range byStmt(w)[target] {
			t := &Tape{Cap: n, Size: l.Size, Pin: pin}
			for {
				p, ok := l.once(w, t)
				c.Trans(1)
				if ok && p.Err != nil {
					return "", vk.Errf("%s, draws %v: %v", l.Wits[w], t.Digits, p.Err)
				}
				if ok {
					if p.Stmt != target {
						return "statement not decided by its draws", nil
					}
					h := hash64(p.Text)
					e := cur[h]
					if e == nil {
						e = &seen{by: fmt.Sprint(t.Digits)}
						cur[h] = e
						if w == 0 {
							c.State(fmt.Sprint(tag, part, h))
						}
					}
					e.n++
					e.ex = e.ex || p.Exempt
					if !p.Exempt {
						strict++
					}
				}
				if !t.next() {
					break
				}
			}
		}
		if w == 0 {
			base = cur
			continue
		}
		cmp := func(a, b map[uint64]*seen, x, y string) error {
			for h, e := range a {
				o := b[h]
				if e.ex || o != nil && (o.ex || o.n == e.n) {
					continue
				}
				m := 0
				if o != nil {
					m = o.n
				}
				return vk.Errf("statement %s: the transcript of draws %s occurs %d times with %s and %d times with %s", target, e.by, e.n, x, m, y)
			}
			return nil
		}
		if err := cmp(base, cur, l.Wits[0], l.Wits[w]); err != nil {
			return "", err
		}
		if err := cmp(cur, base, l.Wits[w], l.Wits[0]); err != nil {
			return "", err
		}
	}
	c.Note("transcripts compared", strict)
	if strict == 0 {
		return "nothing to compare", nil
	}
	return "same transcripts", nil
}

// rangeExempt tells whether a challenge of an honest range proof is (or may be) zero.
func rangeExempt(p AnyProof) bool {
	q := p.Params.GP.N()
	h := El(p.Params.H).BasisIndex()
	rinv := new(big.Int).ModInverse(El(p.S).Coef(h), q)
	if rinv == nil {
		return true
	}
	if mod(mul(sub(p.Mu, El(p.A).Coef(h)), rinv), q).Sign() == 0 {
		return true
	}
	return len(p.Params.Hh) > 1 && El(p.IPP.P).Coef(El(p.Params.Hh[1]).BasisIndex()).Sign() == 0
}

// reduced checks that a response is a residue: what is not reduced gives away its terms.
func reduced(name string, v, n *big.Int) error {
	if v == nil || v.Sign() < 0 || v.Cmp(n) >= 0 {
		return vk.Errf("%s is published without reduction: %v (order %v)", name, v, n)
	}
	return nil
}

func reducedRange(p AnyProof) error {
	n := p.Params.GP.N()
	for _, x := range []struct {
		name string
		v    *big.Int
	}{{"taux", p.Taux}, {"mu", p.Mu}, {"t'", p.Tprime}, {"a", p.IPP.A}, {"b", p.IPP.B}, {"c", p.IPP.Cc}} {
		if err := reduced(x.name, x.v, n); err != nil {
			return err
		}
	}
	return nil
}

func reducedSigma(p voteproof.SigmaProof) error {
	if err := reduced("sp", p.Sp, p.Params.GFF.N); err != nil {
		return err
	}
	if err := reduced("sq1", p.Sq1, p.Params.GEC.N); err != nil {
		return err
	}
	return reduced("sq2", p.Sq2, p.Params.GEC.N)
}

// ReducedAll looks at full-size proofs of every kind.
func ReducedAll(c *vk.Ctx) {
	gs := append([]group.Group{vk.NewIdeal("ideal256", Q256)}, Curves()...)
	for _, g := range gs {
		for _, n := range Ranges {
			if _, ideal := g.(*vk.IGroup); !ideal && n > 8 && !c.Thorough() {
				continue
			}
			for m := 0; m <= n; m = max(1, 2*m) {
				g, n, m := g, n, m
				tag := fmt.Sprintf("reduced/%s/n=%d/m=%d", g.Name(), n, m)
				c.Case(tag, func() (string, error) {
					for _, v := range []int64{0, 1} {
						var p AnyProof
						if m == 0 {
							p = Prove1(g, n, sub(Pow2(n*int(v)), B(1)), Seed(tag))
						} else {
							var vs []*big.Int
							for j := 0; j < m; j++ {
								vs = append(vs, B(v))
							}
							p = proveMulti(g, n, vs, Seed(tag))
						}
						c.Trans(1)
						c.Validated(1)
						if err := reducedRange(p); err != nil {
							return "", err
						}
					}
					return "responses reduced", nil
				})
			}
		}
	}
	for _, g := range gs {
		g := g
		c.Case("reduced/equality/"+g.Name(), func() (string, error) {
			p := VPParams(SafeGroup(Safe320), g, 16, 224, capBits(g), 101, 2000)
			for i := int64(0); i < 8; i++ {
				vk.Fresh(uint64(i))
				st := Stmt{B(101 + i*i*i), sub(p.GFF.N, B(1+i)), sub(p.GEC.N, B(1+i)), sub(p.GEC.N, B(2*i+1))}
				c.Trans(1)
				c.Validated(1)
				if err := reducedSigma(st.Prove(p)); err != nil {
					return "", err
				}
			}
			return "responses reduced", nil
		})
	}
}

// Leaks enumerates the range proofs and equality proofs.
func Leaks(c *vk.Ctx) {
	byteSize := func(q int64) func(int) int64 {
		return func(n int) int64 {
			if n == 1 {
				return q
			}
			return 0
		}
	}
	type rc struct {
		n, m  int // m = 0: single proof
		q     int64
		wits  []int64
		parts int
	}
	all := func(n int) (out []int64) {
		for v := int64(0); v < 1<<uint(n); v++ {
			out = append(out, v)
		}
		return
	}
	cfgs := []rc{
		{1, 0, 2, all(1), 2}, {1, 0, 3, all(1), 3}, {1, 0, 5, all(1), 5}, {2, 0, 2, all(2), 2}, {2, 0, 3, all(2), 3}, {4, 0, 2, all(4), 2},
		{1, 1, 3, all(1), 3}, {1, 1, 5, all(1), 5}, {2, 1, 3, all(2), 3}, {2, 2, 2, all(2), 4}, {2, 2, 3, all(2), 9}, {4, 1, 2, all(4), 2}, {4, 2, 2, all(4), 4}, {4, 4, 2, all(4), 3},
	}
	if c.Thorough() {
		cfgs = append(cfgs, rc{1, 0, 7, all(1), 7}, rc{2, 0, 5, all(2), 5}, rc{2, 1, 5, all(2), 5}, rc{2, 2, 5, []int64{0, 1, 2, 3}, 25}, rc{4, 0, 3, []int64{0, 5, 10, 15}, 3},
			rc{4, 2, 3, []int64{0, 6, 15}, 9}, rc{8, 0, 2, []int64{0, 170, 255}, 2}, rc{8, 8, 2, []int64{0, 85}, 4})
	}
	for _, cf := range cfgs {
		cf := cf
		g := Cyclic("rp", cf.q)
		l := Leak{Size: byteSize(cf.q)}
		for _, v := range cf.wits {
			l.Wits = append(l.Wits, fmt.Sprintf("secret %d", v))
		}
		run := func(g *vk.IGroup, v int64) Pub {
			if cf.m == 0 {
				p, _, err := bulletproofs.Prove(B(v), Params(g, cf.n))
				if err != nil {
					panic(err)
				}
				return Pub{stripSingle(p), El(p.V).Text(), reducedRange(FromSingle(p)), rangeExempt(FromSingle(p))}
			}
			var vs []*big.Int
			k := uint(cf.n / cf.m)
			for j := 0; j < cf.m; j++ {
				vs = append(vs, B(v>>(uint(j)*k)&(1<<k-1)))
			}
			p, _, err := bulletproofs.MultiProve(vs, Params(g, cf.n))
			if err != nil {
				panic(err)
			}
			st := ""
			for _, e := range p.Vs {
				st += El(e).Text()
			}
			return Pub{stripMulti(p), st, reducedRange(FromMulti(p)), rangeExempt(FromMulti(p))}
		}
		l.Run = func(w int) Pub { return run(g, cf.wits[w]) }
		large := vk.NewIdeal("ideal256", Q256)
		l.Large = func() string { return run(large, cf.wits[0]).Stmt }
		for part := 0; part < cf.parts; part++ {
			part := part
			tag := fmt.Sprintf("range/n=%d/m=%d/order=%d/statement=%d", cf.n, cf.m, cf.q, part)
			c.Case(tag, func() (string, error) { return l.Check(c, tag, part) })
		}
	}
	type sc struct {
		qf, qe int64
		bx     uint8
		bb     int
		real   bool // the repository's safe-prime group as ElGamal group
	}
	scs := []sc{{2, 2, 2, 1, false}, {3, 3, 3, 1, false}, {2, 3, 3, 1, false}, {3, 3, 2, 1, true}}
	if c.Thorough() {
		scs = append(scs, sc{3, 2, 3, 2, false}, sc{5, 5, 3, 1, false}, sc{3, 5, 4, 1, false}, sc{5, 3, 5, 2, false}, sc{3, 3, 8, 3, false}, sc{3, 3, 3, 1, true}, sc{5, 5, 3, 1, true})
	}
	for _, s := range scs {
		s := s
		var ff group.Group = Cyclic("vf", s.qf)
		if s.real {
			ff = group.NewModPGroup(fmt.Sprint("toy", s.qf), fmt.Sprintf("%x", 2*s.qf+1), "4")
		}
		p := VPParams(ff, Cyclic("ve", s.qe), s.bx, 8, uint16(1+int(s.bx)+8+s.bb), 0, 1)
		wide := int64(1) << uint(int(s.bx)+8+s.bb)
		// both groups fix the secret modulo their order
		step := s.qf
		if s.qe != s.qf {
			step *= s.qe
		}
		for x := int64(0); x < step && x+step < 1<<s.bx; x++ {
			for _, r := range [][3]int64{{0, 0, 0}, {1, 1, 1}, {1, 0, s.qe - 1}} {
				x, r := x, r
				if s.qf == s.qe && s.qf == 5 && r[0] == 0 {
					continue
				}
				l := Leak{Size: func(n int) int64 {
					// which of the two orders a draw is for is not known: all bit patterns (the
					// refused ones use up the tape)
					if n == 1 {
						return int64(1) << uint(max(B(s.qf-1).BitLen(), B(s.qe-1).BitLen()))
					}
					return wide
				}}
				var xs []int64
				for v := x; v < 1<<s.bx; v += step {
					xs = append(xs, v)
				}
				if len(xs) > 3 {
					xs = []int64{xs[0], xs[1], xs[len(xs)-1]}
				}
				for _, v := range xs {
					l.Wits = append(l.Wits, fmt.Sprintf("secret %d", v))
				}
				l.Run = func(w int) Pub {
					st := Stmt{B(xs[w]), B(r[0]), B(r[1]), B(r[2])}
					pr := st.Prove(p)
					return Pub{Text: stripSigma(pr), Err: reducedSigma(pr)}
				}
				if s.qf == s.qe {
					l.Size = func(n int) int64 {
						if n == 1 {
							return s.qf
						}
						return wide
					}
				}
				tag := fmt.Sprintf("equality/orders=%d,%d,%v/lengths=%d,8,%d/secret=%d/blinding=%v", s.qf, s.qe, s.real, s.bx, s.bb, x, r)
				c.Case(tag, func() (string, error) {
					if s.real {
						c.Validated(1)
					}
					return l.Check(c, tag, 0)
				})
			}
		}
	}
}

func stripSingle(p bulletproofs.BulletProof) []byte {
	p.Params = bulletproofs.BulletProofSetupParams{}
	p.InnerProductProof.Params = bulletproofs.InnerProductParams{}
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

func stripMulti(p bulletproofs.MultiBulletProof) []byte {
	p.Params = bulletproofs.BulletProofSetupParams{}
	p.InnerProductProof.Params = bulletproofs.InnerProductParams{}
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}

func stripSigma(p voteproof.SigmaProof) []byte {
	p.Params = voteproof.ProofParams{}
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return b
}
