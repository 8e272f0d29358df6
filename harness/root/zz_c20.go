package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C20"] = func(c *vk.Ctx) {
		zC20(c)
		checks.ReducedAll(c)
		checks.Leaks(c)
	}
}

// zPublished collects the numbers and the ideal-group elements of a document, outside
// the parameters it carries along.
func zPublished(v any, path string, nums, elems func(path, s string)) {
	switch x := v.(type) {
	case map[string]any:
		if e, ok := zElemText(x); ok {
			elems(path, e)
			return
		}
		for k, y := range x {
			if k != "Params" {
				zPublished(y, path+"."+k, nums, elems)
			}
		}
	case []any:
		for i, y := range x {
			zPublished(y, path+"["+strconv.Itoa(i)+"]", nums, elems)
		}
	case json.Number:
		nums(path, x.String())
	case string:
		nums(path, x)
	}
}

// zElemText recognises the encoding of an ideal-group element.
func zElemText(m map[string]any) (string, bool) {
	var parts []string
	for k, v := range m {
		s, ok := v.(string)
		if !ok || k != "G" && (len(k) != 12 || strings.Trim(k, "0123456789abcdef") != "") {
			return "", false
		}
		parts = append(parts, s)
	}
	sort.Strings(parts)
	return strings.Join(parts, " "), true
}

func zC20(c *vk.Ctx) {
	for _, r := range [][2]uint16{{101, 2000}, {0, 65535}, {4000, 4000}, {30000, 65535}} {
		for _, d := range []int{0, 1, 2, 3} {
			r, d := r, d
			e := zIdeal(r[0], r[1])
			choice := r[0] + uint16((int(r[1])-int(r[0]))*d/3)
			key := fmt.Sprintf("ballot/%d-%d/choice=%d", r[0], r[1], choice)
			if r[0] == r[1] && d > 0 {
				continue
			}
			c.Case(key, func() (string, error) {
				b, _ := zCast(e, choice, checks.Seed(key), nil)
				doc, err := json.Marshal(b)
				if err != nil {
					return "", err
				}
				c.Trans(2)
				secrets := checks.Blinds{}
				zBallotBlinds20(b, secrets)
				if choice == 0 {
					delete(secrets, "equality k") // the response is the nonce then
				}
				if choice > 999 {
					secrets["choice"] = big.NewInt(int64(choice))
				}
				for _, n := range []struct {
					s string
					v int64
				}{{"choice-min", int64(choice) - int64(r[0])}, {"max-choice", int64(r[1]) - int64(choice)}} {
					if n.v > 999 && n.v < 65535 {
						secrets[n.s] = big.NewInt(n.v)
					}
				}
				var tree any
				dec := json.NewDecoder(bytes.NewReader(doc))
				dec.UseNumber()
				if err := dec.Decode(&tree); err != nil {
					return "", err
				}
				var bad error
				zPublished(tree, "", func(path, s string) {
					var vs []*big.Int
					for _, base := range []int{10, 16} {
						if v, ok := new(big.Int).SetString(s, base); ok {
							vs = append(vs, v)
						}
					}
					c.State(key + path)
					for _, v := range vs {
						for name, x := range secrets {
							for _, m := range []*big.Int{checks.Q256, checks.NFF} {
								y := new(big.Int).Mod(v, m)
								if x.BitLen() > 9 && (y.Cmp(x) == 0 || y.Cmp(new(big.Int).Sub(m, x)) == 0) {
									bad = vk.Errf("%s publishes %s", path, name)
								}
							}
						}
					}
				}, func(path, s string) {
					c.State(key + path)
					for _, t := range strings.Fields(s) {
						if v, ok := new(big.Int).SetString(t, 10); ok && v.BitLen() > 40 {
							if w := new(big.Int).Sub(checks.Q256, v); w.BitLen() > 40 {
								return
							}
						}
					}
					bad = vk.Errf("%s publishes an element that is not blinded (%s)", path, s)
				})
				if bad != nil {
					return "", bad
				}
				return "no secret published", nil
			})
		}
	}
}

func zBallotBlinds20(b BallotData, out checks.Blinds) {
	out["r"] = checks.El(b.Ballot.U).Coef(0)
	checks.RangeBlinds("lower bound ", checks.FromSingle(b.BpLower), out)
	checks.RangeBlinds("upper bound ", checks.FromSingle(b.BpUpper), out)
	checks.SigmaBlinds("equality ", b.VoteProof, out)
}
