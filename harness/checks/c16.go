package checks

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	vk.Describe("C16", "one case = a block of set-up inputs, each accepted or refused as specified; or all generators of one group and size, compared pairwise, with the identity, with small multiples of the generator and with scalings by common digests; ideal group: every generator is its own basis element (rank = number of generators)")
}

// gens lists all generators in use for n bits, inner-product generator included.
func gens(g group.Group, n int) (names []string, els []group.Element, err error) {
	pr, err := bulletproofs.Setup(int64(1)<<uint(n), g)
	if err != nil {
		return nil, nil, err
	}
	if pr.N != int64(n) || len(pr.Gg) != n || len(pr.Hh) != n || pr.GP != g {
		return nil, nil, vk.Errf("parameters for 2^%d: N=%d with %d and %d generators", n, pr.N, len(pr.Gg), len(pr.Hh))
	}
	put := func(s string, e group.Element) { names, els = append(names, s), append(els, e) }
	put("G", pr.G)
	put("H", pr.H)
	for i := range pr.Gg {
		put(fmt.Sprintf("Gg%d", i), pr.Gg[i])
		put(fmt.Sprintf("Hh%d", i), pr.Hh[i])
	}
	vk.Fresh(5)
	p, _, err := bulletproofs.Prove(B(1), pr)
	if err != nil {
		return nil, nil, err
	}
	put("U", p.InnerProductProof.Params.Uu)
	if err := sameEls("inner-product Gg", pr.Gg, p.InnerProductProof.Params.Gg); err != nil {
		return nil, nil, err
	}
	return names, els, nil
}

func C16(c *vk.Ctx) {
	okB := map[int64]bool{2: true, 4: true, 16: true, 256: true, 65536: true, 1 << 32: true}
	ideal := vk.NewIdeal("ideal", Q256)
	try := func(g group.Group, b int64) error {
		pr, err := bulletproofs.Setup(b, g)
		c.Trans(1)
		if okB[b] && err != nil {
			return vk.Errf("range end %d refused: %v", b, err)
		}
		if !okB[b] && err == nil {
			return vk.Errf("range end %d accepted (N=%d)", b, pr.N)
		}
		if okB[b] && (Pow2(int(pr.N)).Cmp(B(b)) != 0 || len(pr.Gg) != int(pr.N) || len(pr.Hh) != int(pr.N)) {
			return vk.Errf("range end %d gives N=%d with %d and %d generators", b, pr.N, len(pr.Gg), len(pr.Hh))
		}
		return nil
	}
	for at := int64(-70000); at <= 70000; at += 2000 {
		at := at
		c.Case(fmt.Sprintf("range-ends/%d", at), func() (string, error) {
			for b := at; b < at+2000; b++ {
				if err := try(ideal, b); err != nil {
					return "", err
				}
				c.State(fmt.Sprint("b", b))
			}
			return "decided", nil
		})
	}
	for _, g := range append([]group.Group{ideal}, Curves()...) {
		g := g
		c.Case("range-ends/powers/"+g.Name(), func() (string, error) {
			bs := []int64{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, math.MaxInt64 - 1, -1, 0, 1, 3}
			for k := 1; k <= 62; k++ {
				for d := int64(-2); d <= 2; d++ {
					bs = append(bs, int64(1)<<uint(k)+d, -(int64(1)<<uint(k) + d))
				}
				for j := 0; j < k; j++ {
					bs = append(bs, int64(1)<<uint(k)+int64(1)<<uint(j))
				}
			}
			for _, b := range bs {
				if err := try(g, b); err != nil {
					return "", err
				}
				c.State(fmt.Sprint(g.Name(), b))
			}
			return "decided", nil
		})
		for _, n := range Ranges {
			n := n
			c.Case(fmt.Sprintf("generators/%s/%d", g.Name(), n), func() (string, error) {
				names, els, err := gens(g, n)
				if err != nil {
					return "", err
				}
				names2, els2, err := gens(g, n)
				if err != nil || len(names2) != len(names) {
					return "", vk.Errf("second set-up differs (%v)", err)
				}
				texts := map[string]string{}
				for i := range els {
					c.Trans(1)
					c.State(g.Name() + names[i])
					if !els[i].IsEqual(els2[i]) {
						return "", vk.Errf("%s differs between two set-ups", names[i])
					}
					if els[i].IsIdentity() {
						return "", vk.Errf("%s is the identity", names[i])
					}
					if o, dup := texts[els[i].String()]; dup {
						return "", vk.Errf("%s and %s are the same", names[i], o)
					}
					texts[els[i].String()] = names[i]
					for j := range els[:i] {
						if els[i].IsEqual(els[j]) {
							return "", vk.Errf("%s and %s are the same", names[i], names[j])
						}
					}
				}
				if g == group.Group(ideal) {
					at := map[int]string{}
					for i, e := range els {
						b := El(e).BasisIndex()
						if b < 0 || (b == 0) != (names[i] == "G") {
							return "", vk.Errf("%s is not an independent hashed element", names[i])
						}
						if o, dup := at[b]; dup {
							return "", vk.Errf("%s and %s are the same", names[i], o)
						}
						at[b] = names[i]
					}
					return "independent", nil
				}
				c.Validated(1)
				if !els[0].IsEqual(g.Generator()) {
					return "", vk.Errf("base is not the group's generator")
				}
				// Known relations: small multiples of G or of one another.
				small := map[string]int64{}
				e := g.Identity()
				for k := int64(0); k <= 64; k++ {
					if k != 1 {
						small[e.String()] = k
					}
					small[g.Element().Negate(e).String()] = -k
					e = g.Element().Add(e, g.Generator())
				}
				delete(small, els[0].String())
				for i, x := range els {
					if k, hit := small[x.String()]; hit {
						return "", vk.Errf("%s = %d*G", names[i], k)
					}
					for j, y := range els {
						if i == j {
							continue
						}
						for _, k := range []int64{-1, 2, -2, 3} {
							if x.IsEqual(g.Element().Scale(y, B(k))) {
								return "", vk.Errf("%s = %d*%s", names[i], k, names[j])
							}
						}
						if n > 4 {
							break
						}
					}
				}
				return "distinct", nil
			})
		}
		if g == group.Group(ideal) {
			continue
		}
		c.Case("hash-to-group/"+g.Name(), func() (string, error) {
			var strs []string
			for i := 0; i < 12; i++ {
				strs = append(strs, fmt.Sprintf("independence%d", i))
			}
			strs = append(strs, "", "a", bulletproofs.SEEDH, bulletproofs.SEEDU, bulletproofs.SEEDH+"g0", bulletproofs.SEEDH+"h1")
			for _, s := range strs {
				e, err := g.Element().MapToGroup(s)
				if err != nil {
					return "", vk.Errf("MapToGroup(%q): %v", s, err)
				}
				e2, err := g.Element().MapToGroup(s)
				if err != nil || !e.IsEqual(e2) || e.IsIdentity() {
					return "", vk.Errf("MapToGroup(%q) is not a fixed non-identity element", s)
				}
				h1, h256, h384, h512, hm := sha1.Sum([]byte(s)), sha256.Sum256([]byte(s)), sha512.Sum384([]byte(s)), sha512.Sum512([]byte(s)), md5.Sum([]byte(s))
				for _, d := range [][]byte{h1[:], h256[:], h384[:], h512[:], hm[:], []byte(s), {byte(len(s))}} {
					rev := make([]byte, len(d))
					for i := range d {
						rev[len(d)-1-i] = d[i]
					}
					for _, x := range [][]byte{d, rev} {
						for _, off := range []int64{0, 1} {
							k := add(new(big.Int).SetBytes(x), B(off))
							if e.IsEqual(g.Element().BaseScale(k)) {
								return "", vk.Errf("discrete logarithm of MapToGroup(%q) is known: %v", s, k)
							}
						}
					}
					c.Trans(1)
				}
			}
			return "no known logarithm", nil
		})
	}
	c.Case("same-in-new-group", func() (string, error) {
		for i, g := range Curves() {
			h := Curves()[i]
			for _, n := range []int{1, 8, 16} {
				a, err := bulletproofs.Setup(int64(1)<<uint(n), g)
				if err != nil {
					return "", err
				}
				vk.Fresh(uint64(n) + 1000)
				b, err := bulletproofs.Setup(int64(1)<<uint(n), h)
				if err != nil {
					return "", err
				}
				if err := sameBPParams(a, b); err != nil {
					return "", err
				}
				c.Trans(1)
			}
		}
		return "deterministic", nil
	})
	// Equality-proof lengths: a full grid.
	ap := voteproof.AlgebraicParameters{GFF: gp(ideal, ideal.Generator()), GEC: gp(ideal, ideal.Generator())}
	var bcs, bgs []uint16
	for i := 0; i <= 272; i++ {
		bcs = append(bcs, uint16(i))
	}
	bcs = append(bcs, 320, 384, 512, 1024, 32768, 65528, 65535)
	for i := 0; i <= 560; i++ {
		bgs = append(bgs, uint16(i))
	}
	bgs = append(bgs, 1024, 3072, 32767, 32768, 65534, 65535)
	for bx := 0; bx < 256; bx++ {
		bx := bx
		c.Case(fmt.Sprintf("lengths/%d", bx), func() (string, error) {
			for _, bc := range bcs {
				for _, bg := range bgs {
					bb := int(bg) - 1 - bx - int(bc)
					want := bb >= 1 && bc > 0 && bc%8 == 0 && bc <= 256
					p, err := voteproof.Setup(uint8(bx), bc, bg, 3, 9, ap)
					if want != (err == nil) {
						return "", vk.Errf("secret %d, challenge %d, order %d bits: error %v", bx, bc, bg, err)
					}
					if want && (int(p.Bx) != bx || p.Bc != bc || p.Bg != bg || p.Bb != bb || p.RangeLo != 3 || p.RangeHi != 9 || p.GFF != ap.GFF || p.GEC != ap.GEC) {
						return "", vk.Errf("secret %d, challenge %d, order %d bits: parameters %v", bx, bc, bg, p)
					}
				}
				c.Trans(len(bgs))
			}
			c.State(fmt.Sprint("bx", bx))
			return "decided", nil
		})
	}
}
