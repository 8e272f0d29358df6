package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C09"] = c09
	vk.Describe("C09", "one case = one complete run of the prover (possibly through aborts) followed by verification; toy cases bundle all nonces of one secret and window residue",
		"toy parameters stand for the abort behaviour of the full-size ones; the same code is executed for both")
}

// runVP executes one proof and checks termination, window and verdict.
func runVP(c *vk.Ctx, p voteproof.ProofParams, st Stmt, dev map[int]vk.Deviation, seed uint64) (voteproof.SigmaProof, *vk.Stream, error) {
	s := vk.With(seed, dev)
	s.Limit = 100000
	pr := st.Prove(p)
	c.Trans(2)
	lo, hi := Window(p)
	if pr.Z == nil || pr.Z.Cmp(lo) < 0 || pr.Z.Cmp(hi) >= 0 {
		return pr, s, vk.Errf("emitted response %v outside [%v,%v)", pr.Z, lo, hi)
	}
	if !pr.Verify(st.Comm(p)) {
		return pr, s, vk.Errf("honest transcript rejected (secret %v)", st.X)
	}
	return pr, s, nil
}

// nonceUsed looks for the nonce draw of this very run and forces it again.
func nonceUsed(c *vk.Ctx, p voteproof.ProofParams, st Stmt, k *big.Int, seed uint64) error {
	at, _, err := probeNonceSeed(p, seed)
	if err != nil {
		return nil // the nonce is not one draw; nothing to compare
	}
	pr, _, err := runVP(c, p, st, map[int]vk.Deviation{at: {Kind: "value", Val: k}}, seed)
	if err != nil {
		return err
	}
	if pr.Z.Cmp(k) != 0 {
		return vk.Errf("nonce %v in the window not used (z=%v)", k, pr.Z)
	}
	return nil
}

func identified(err error) (string, error) {
	if err != nil {
		return "nonce is not a single draw", nil
	}
	return "nonce draw identified", nil
}

// chainLengths lists how many attempts in a row are forced out of the window: all small numbers
// and the neighbourhoods of round ones, at which an implementation might give up.
func chainLengths(thorough bool) []int {
	var l []int
	for j := 1; j <= 24; j++ {
		l = append(l, j)
	}
	for _, r := range []int{30, 32, 48, 50, 64, 100, 128, 200, 255, 500, 512, 1000, 1024} {
		l = append(l, r-1, r, r+1)
	}
	if thorough {
		l = append(l, 2000, 2048, 2049, 4096, 4097, 5000, 10001, 65536, 65537)
	}
	return l
}

func c09(c *vk.Ctx) {
	// Toy parameters: complete nonce x secret space. Two instances: ideal ElGamal group and
	// the real safe-prime code.
	type toy struct {
		name   string
		ff, ec group.Group
		bx     uint8
		bc, bg uint16
	}
	e16 := vk.NewIdeal("ideal16", Q16)
	toys := []toy{
		{"ideal", vk.NewIdeal("idealff", Q61), e16, 2, 8, 16},
		{"safe20", SafeGroup(Safe20), e16, 2, 8, 16},
		{"safe20b", SafeGroup(Safe20), e16, 1, 8, 14},
	}
	for _, t := range toys {
		t := t
		p := VPParams(t.ff, t.ec, t.bx, t.bc, t.bg, 0, 3)
		lo, hi := Window(p)
		at, per, perr := probeNonce(p)
		c.Case("toy/"+t.name+"/nonce-draw", func() (string, error) { return identified(perr) })
		if perr != nil {
			at, per = 0, 8
		}
		const chunk = 64
		for x := int64(0); x < 1<<t.bx; x++ {
			for k0 := int64(0); k0 < hi.Int64(); k0 += chunk {
				x, k0 := x, k0
				key := fmt.Sprintf("toy/%s/x=%d/k=%d+%d", t.name, x, k0, chunk)
				c.Case(key, func() (string, error) {
					for k := k0; k < k0+chunk && k < hi.Int64(); k++ {
						st := Stmt{B(x), B(k % 7), B(k%5 + 1), B(x + 2)}
						pr, _, err := runVP(c, p, st, map[int]vk.Deviation{at: {Kind: "value", Val: B(k)}}, uint64(k)+7)
						if err != nil {
							return "", vk.Errf("nonce %d: %v", k, err)
						}
						// An honest nonce whose response stays inside is used as is.
						z := pr.Z
						if x == 0 && k >= lo.Int64() && z.Cmp(B(k)) != 0 {
							if err := nonceUsed(c, p, st, B(k), uint64(k)+7); err != nil {
								return "", err
							}
						}
						c.State(fmt.Sprintf("%s|%d|%d|%v", t.name, x, k, z))
					}
					return "all nonces: transcript verifies, response in the window", nil
				})
			}
		}
		// Abort chains: the first j attempts are forced out of the window.
		for _, j := range chainLengths(c.Thorough()) {
			for x := int64(0); x < 1<<t.bx; x++ {
				for _, kk := range []int64{0, 1, lo.Int64() - 1, hi.Int64() - 1} {
					j, x, kk := j, x, kk
					if x > 0 && kk > 0 && kk < hi.Int64()-1 || x == 0 && kk == hi.Int64()-1 {
						continue
					}
					c.Case(fmt.Sprintf("toy/%s/chain=%d/x=%d/k=%d", t.name, j, x, kk), func() (string, error) {
						dev := map[int]vk.Deviation{}
						for a := 0; a < j; a++ {
							dev[at+a*per] = vk.Deviation{Kind: "value", Val: B(kk)}
						}
						_, s, err := runVP(c, p, Stmt{B(x), B(2), B(3), B(4)}, dev, 99)
						c.State(fmt.Sprintf("chain|%s|%d|%d|%d|%d", t.name, j, x, kk, s.N))
						return "chain of aborts ends in a verifying transcript", err
					})
				}
			}
		}
		// Blinding values and the other draws at extremes.
		al := []*big.Int{B(0), B(1), sub(t.ec.N(), B(1)), B(12345)}
		tuples(3, al, func(v []*big.Int) {
			v = append([]*big.Int(nil), v...)
			for x := int64(0); x < 1<<t.bx; x++ {
				x := x
				c.Case(fmt.Sprintf("toy/%s/blind/x=%d/%s", t.name, x, vecKey(v)), func() (string, error) {
					for d := 0; d < per; d++ {
						for _, dv := range []*big.Int{B(0), B(1), sub(t.ec.N(), B(1)), add(lo, B(0)), sub(hi, B(1))} {
							if _, _, err := runVP(c, p, Stmt{B(x), v[0], v[1], v[2]}, map[int]vk.Deviation{d: {Kind: "value", Val: dv}}, 3); err != nil {
								return "", vk.Errf("draw %d forced to %v: %v", d, dv, err)
							}
						}
					}
					return "blinding extremes accepted", nil
				})
			}
		})
	}
	// Full-size parameters.
	type full struct {
		name   string
		ff, ec group.Group
	}
	e256 := vk.NewIdeal("ideal256", Q256)
	fulls := []full{
		{"ideal", vk.NewIdeal("idealff", NFF), e256},
		{"safe320", SafeGroup(Safe320), e256},
	}
	for _, f := range fulls {
		f := f
		p := VPParams(f.ff, f.ec, 16, 224, uint16(f.ec.N().BitLen()), 101, 2000)
		lo, hi := Window(p)
		at, _, perr := probeNonce(p)
		c.Case("full/"+f.name+"/nonce-draw", func() (string, error) { return identified(perr) })
		if perr != nil {
			at = 0
		}
		step := int64(1)
		if f.name != "ideal" && !c.Thorough() {
			step = 61
		}
		for x0 := int64(0); x0 < 65536; x0 += 32 * step {
			x0 := x0
			key := fmt.Sprintf("full/%s/x=%d", f.name, x0)
			c.Case(key, func() (string, error) {
				for x := x0; x < x0+32*step && x < 65536; x += step {
					if _, _, err := runVP(c, p, Stmt{B(x), B(x + 1), sub(Q256, B(x+1)), mul(B(x+3), B(1<<40))}, nil, Seed(key)); err != nil {
						return "", vk.Errf("secret %d: %v", x, err)
					}
					c.State(fmt.Sprintf("full|%s|%d", f.name, x))
				}
				return "all secrets verify", nil
			})
		}
		var ks []*big.Int
		for d := int64(-3); d <= 3; d++ {
			ks = append(ks, add(lo, B(d)), add(hi, B(d-4)), add(Pow2(224), B(d)), add(new(big.Int).Rsh(hi, 1), B(d)))
		}
		ks = append(ks, B(0), B(1), B(2))
		_, per, _ := probeNonce(p)
		for _, j := range chainLengths(false) {
			for _, x := range []int64{0, 101, 65535} {
				k := B(0)
				if x == 65535 {
					k = sub(hi, B(1))
				}
				if per == 0 || f.name != "ideal" && j > 24 {
					continue
				}
				j, x := j, x
				c.Case(fmt.Sprintf("full/%s/chain=%d/x=%d", f.name, j, x), func() (string, error) {
					dev := map[int]vk.Deviation{}
					for a := 0; a < j; a++ {
						dev[at+a*per] = vk.Deviation{Kind: "value", Val: k}
					}
					_, s, err := runVP(c, p, Stmt{B(x), B(9), B(8), B(7)}, dev, 1)
					c.State(fmt.Sprintf("chain|%s|%d|%d|%d", f.name, j, x, s.N))
					return "chain of aborts ends in a verifying transcript", err
				})
			}
		}
		for ki, k := range ks {
			for _, x := range []int64{0, 1, 2, 101, 2000, 65534, 65535} {
				k, x := k, x
				c.Case(fmt.Sprintf("full/%s/edge%d/x=%d", f.name, ki, x), func() (string, error) {
					pr, _, err := runVP(c, p, Stmt{B(x), B(9), B(8), B(7)}, map[int]vk.Deviation{at: {Kind: "value", Val: k}}, 1)
					if err != nil {
						return "", err
					}
					if x == 0 && k.Cmp(lo) >= 0 && k.Cmp(hi) < 0 && pr.Z.Cmp(k) != 0 {
						if err := nonceUsed(c, p, Stmt{B(x), B(9), B(8), B(7)}, k, 1); err != nil {
							return "", err
						}
					}
					return "edge nonce handled", nil
				})
			}
		}
	}
	// All combinations of lengths.
	LenGrid(func(tag string, p voteproof.ProofParams) {
		c.Case("lengths/"+tag, func() (string, error) {
			lo, hi := Window(p)
			top := sub(Pow2(int(p.Bx)), B(1))
			at, _, perr := probeNonce(p)
			if perr != nil {
				at = 0
			}
			for _, x := range []*big.Int{B(0), B(1), top} {
				for ki, k := range []*big.Int{nil, B(0), sub(lo, B(1)), lo, sub(hi, B(1)), sub(hi, Pow2(int(p.Bc)))} {
					dev := map[int]vk.Deviation{}
					if k != nil {
						if k.Sign() < 0 {
							continue
						}
						dev[at] = vk.Deviation{Kind: "value", Val: k}
					}
					if _, _, err := runVP(c, p, Stmt{x, B(9), B(8), B(7)}, dev, uint64(ki)+5); err != nil {
						return "", vk.Errf("secret %v, nonce %v: %v", x, k, err)
					}
				}
			}
			c.State("lengths|" + tag)
			return "all lengths verify inside their window", nil
		})
	})
	// The same edges on the real groups.
	ff := MODP3072()
	for _, ec := range Curves() {
		ec := ec
		p := VPParams(ff, ec, 16, 224, uint16(ec.N().BitLen()), 101, 2000)
		lo, hi := Window(p)
		var at int
		var perr error
		c.Case("real/"+ec.Name()+"/nonce-draw", func() (string, error) {
			_, _, perr := probeNonce(p)
			return identified(perr)
		})
		at = -1
		edges := map[string]*big.Int{"lo-1": sub(lo, B(1)), "lo": lo, "hi-1": sub(hi, B(1)), "0": B(0), "free": nil}
		for _, en := range sortedKeys(edges) {
			for _, x := range []int64{0, 101, 65535} {
				en, x := en, x
				c.Case(fmt.Sprintf("real/%s/%s/x=%d", ec.Name(), en, x), func() (string, error) {
					if at < 0 {
						if at, _, perr = probeNonce(p); perr != nil {
							at = 0
						}
					}
					dev := map[int]vk.Deviation{}
					if edges[en] != nil {
						dev[at] = vk.Deviation{Kind: "value", Val: edges[en]}
					}
					c.Validated(1)
					_, _, err := runVP(c, p, Stmt{B(x), B(77), B(88), B(99)}, dev, 2)
					return "real-group transcript verifies", err
				})
			}
		}
	}
}
