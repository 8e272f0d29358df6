package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C15"] = func(c *vk.Ctx) {
		checks.C15(c)
		zC15(c)
	}
}

// zNode is a parsed JSON document with numbers kept as text.
func zParse(b []byte) any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

// zPath addresses a node: object keys and list indices.
type zPath []any

func (p zPath) String() string {
	var s []string
	for _, x := range p {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, ".")
}

// carried tells whether the path lies in parameters carried along.
func (p zPath) carried() bool {
	for _, x := range p {
		if x == "Params" {
			return true
		}
	}
	return false
}

func zWalk(v any, at zPath, f func(p zPath, v any)) {
	f(at, v)
	sub := func(k any, v any) { zWalk(v, append(append(zPath{}, at...), k), f) }
	switch x := v.(type) {
	case map[string]any:
		for _, k := range zSorted(x) {
			sub(k, x[k])
		}
	case []any:
		for i := range x {
			sub(i, x[i])
		}
	}
}

type zDelete struct{}

// zReplace returns a copy of v with the node at p replaced (or deleted).
func zReplace(v any, p zPath, r any) any {
	if len(p) == 0 {
		return r
	}
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, y := range x {
			o[k] = y
		}
		k := p[0].(string)
		if _, del := r.(zDelete); del && len(p) == 1 {
			delete(o, k)
		} else {
			o[k] = zReplace(x[k], p[1:], r)
		}
		return o
	case []any:
		o := append([]any(nil), x...)
		i := p[0].(int)
		if _, del := r.(zDelete); del && len(p) == 1 {
			return append(o[:i], o[i+1:]...)
		}
		o[i] = zReplace(x[i], p[1:], r)
		return o
	}
	panic("bad path")
}

func zText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unencodable"
	}
	return string(b)
}

// zFaults is the replacement alphabet of a node.
func zFaults(v any, e zEnv) map[string]any {
	n := func(s string) any { return json.Number(s) }
	out := map[string]any{
		"delete": zDelete{}, "null": nil, "empty string": "", "string": "abc", "0": n("0"), "1": n("1"), "-1": n("-1"),
		"1.5": n("1.5"), "1e9": n("1e9"), "[]": []any{}, "[null]": []any{nil}, "{}": map[string]any{}, "true": true,
		"huge": n(checks.Pow2(3500).String()), "neg huge": n("-" + checks.Pow2(900).String()),
	}
	switch x := v.(type) {
	case json.Number:
		out["quoted"] = x.String()
		out["in list"] = []any{x}
		if b, ok := new(big.Int).SetString(x.String(), 10); ok {
			out["negated"] = n(new(big.Int).Neg(b).String())
			out["plus 1"] = n(new(big.Int).Add(b, big.NewInt(1)).String())
			out["shifted"] = n(new(big.Int).Lsh(b, 8).String())
			out["field"] = n(e.ff.P().String())
			out["minus field"] = n(new(big.Int).Sub(b, e.ff.P()).String())
			out["truncated"] = n(new(big.Int).Div(b, big.NewInt(10)).String())
		}
	case string:
		out["in list"] = []any{x}
		if len(x) > 4 {
			out["cut"] = x[:len(x)-4]
			out["cut1"] = x[:len(x)-1]
			out["longer"] = x + "AAAA"
			out["zeros"] = strings.Repeat("A", len(x)-1) + "="
			out["ones"] = strings.Repeat("/", len(x)-2) + "8="
		}
	case []any:
		out["in list"] = []any{x}
		if len(x) > 0 {
			out["drop last"] = append([]any(nil), x[:len(x)-1]...)
			out["drop first"] = append([]any(nil), x[1:]...)
			out["only first"] = x[:1]
			out["append last"] = append(append([]any(nil), x...), x[len(x)-1])
			out["twice"] = append(append([]any(nil), x...), x...)
			out["null last"] = append(append([]any(nil), x[:len(x)-1]...), nil)
			var many []any
			for i := 0; i < 200; i++ {
				many = append(many, x[0])
			}
			out["200"] = many
			if len(x) > 1 {
				rev := append([]any(nil), x...)
				for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
					rev[i], rev[j] = rev[j], rev[i]
				}
				out["reversed"] = rev
			}
		}
	case map[string]any:
		out["in list"] = []any{x}
		out["quoted"] = zText(x)
		if _, ok := x["x"]; ok && len(x) == 2 {
			out["swapped coordinates"] = map[string]any{"x": x["y"], "y": x["x"]}
			out["infinity"] = map[string]any{"x": n("0"), "y": n("0")}
			out["off curve"] = map[string]any{"x": n("5"), "y": n("5")}
			out["as list"] = []any{x["x"], x["y"]}
		}
	}
	return out
}

// zSubmit hands a document to the collector: "" if it was refused or rejected.
func zSubmit(c *vk.Ctx, doc []byte, e zEnv) string {
	b, err := BallotDataUnmarshalJSON(doc, e.pp)
	c.Trans(1)
	if err != nil {
		return "refused"
	}
	if !zVerify(b, e) {
		return "rejected"
	}
	return "accepted"
}

func zC15(c *vk.Ctx) {
	type cfg struct {
		g    group.Group
		full bool
	}
	cs := []cfg{{group.SecP256k1(), true}, {group.Ristretto255(), true}, {group.P256(), c.Thorough()}, {group.P384(), c.Thorough()}}
	for _, cf := range cs {
		cf := cf
		name := cf.g.Name()
		e := zReal(cf.g, 101, 2000, false)
		b, _ := zCast(e, 345, 7, nil)
		doc, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		tree := zParse(doc)
		c.Case("honest/"+name, func() (string, error) {
			if r := zSubmit(c, doc, e); r != "accepted" {
				return "", vk.Errf("honest ballot document is %s", r)
			}
			if r := zSubmit(c, []byte(zText(tree)), e); r != "accepted" {
				return "", vk.Errf("honest ballot document (re-ordered) is %s", r)
			}
			c.Validated(1)
			return "accepted", nil
		})
		// Every node x fault alphabet.
		zWalk(tree, zPath{}, func(p zPath, v any) {
			if p.carried() && !cf.full && len(p) > 4 {
				return
			}
			// Long lists of carried generators: first, second and last entry only.
			if p.carried() && !c.Thorough() {
				for i, x := range p {
					if k, ok := x.(int); ok && k > 1 && k != 15 && i > 0 {
						return
					}
				}
			}
			if !cf.full && len(p) > 1 {
				s, _ := p[len(p)-1].(string)
				if p[0] == "ubProof" || name == "P-384" && (s == "x" || s == "y") {
					return
				}
			}
			c.Case(fmt.Sprintf("node/%s/%v", name, p), func() (string, error) {
				fs := zFaults(v, e)
				for _, k := range zSorted(fs) {
					r := fs[k]
					if _, del := r.(zDelete); !del && zText(r) == zText(v) {
						continue
					}
					if _, del := r.(zDelete); del && len(p) == 0 {
						continue
					}
					d := []byte(zText(zReplace(tree, p, r)))
					got := zSubmit(c, d, e)
					c.State(name + p.String() + k + got)
					if got == "accepted" && !p.carried() {
						return "", vk.Errf("document with %v replaced by %s is accepted", p, k)
					}
				}
				return "refused or rejected", nil
			})
		})
		// Two nodes exchanged or copied over one another (same depth objects).
		var big []zPath
		zWalk(tree, zPath{}, func(p zPath, v any) {
			if len(p) > 0 && len(p) <= 3 && !p.carried() {
				big = append(big, p)
			}
		})
		for i := range big {
			i := i
			c.Case(fmt.Sprintf("copy/%s/%v", name, big[i]), func() (string, error) {
				for j := range big {
					a, b := zAt(tree, big[i]), zAt(tree, big[j])
					if zText(a) == zText(b) || zInside(big[i], big[j]) || zInside(big[j], big[i]) {
						continue
					}
					if !cf.full && (j+i)%16 != 0 {
						continue
					}
					d := []byte(zText(zReplace(tree, big[i], b)))
					if got := zSubmit(c, d, e); got == "accepted" {
						return "", vk.Errf("document with %v overwritten by %v is accepted", big[i], big[j])
					}
				}
				return "refused or rejected", nil
			})
		}
		// L and R changed together.
		for _, side := range []string{"lbProof", "ubProof"} {
			for k := 0; k <= 9; k++ {
				side, k := side, k
				c.Case(fmt.Sprintf("rounds/%s/%s/%d", name, side, k), func() (string, error) {
					if k == 4 {
						return "honest length", nil
					}
					d := tree
					for _, x := range []string{"L", "R"} {
						p := zPath{side, "InnerProductProof", x}
						l := zAt(tree, p).([]any)
						var nl []any
						for i := 0; i < k; i++ {
							nl = append(nl, l[i%len(l)])
						}
						if nl == nil {
							nl = []any{}
						}
						d = zReplace(d, p, nl)
					}
					if got := zSubmit(c, []byte(zText(d)), e); got == "accepted" {
						return "", vk.Errf("proof with %d rounds accepted", k)
					}
					for _, both := range [][]int{{0}, {1}} {
						_ = both
						for _, x := range []any{nil, zDelete{}} {
							d := zReplace(zReplace(tree, zPath{side, "InnerProductProof", "L"}, x), zPath{side, "InnerProductProof", "R"}, x)
							if got := zSubmit(c, []byte(zText(d)), e); got == "accepted" {
								return "", vk.Errf("proof without rounds accepted")
							}
						}
					}
					return "refused or rejected", nil
				})
			}
		}
		// Degenerate ballots: all elements of one kind set to one value, all scalars to one.
		id := map[bool]any{true: zParse(zMustJSON(e.ff.Identity())), false: zParse(zMustJSON(e.ec.Identity()))}
		gen := map[bool]any{true: zParse(zMustJSON(e.ff.Generator())), false: zParse(zMustJSON(e.ec.Generator()))}
		for _, el := range []string{"keep", "identity", "generator"} {
			for _, sc := range []string{"keep", "0", "1", "-1"} {
				for _, ls := range []string{"keep", "empty"} {
					for _, part := range []string{"all", "lbProof", "ubProof", "voteProof", "ballot"} {
						el, sc, ls, part := el, sc, ls, part
						if el == "keep" && sc == "keep" && ls == "keep" {
							continue
						}
						if part == "ballot" && el == "keep" || ls == "empty" && (part == "ballot" || part == "voteProof") {
							continue
						}
						c.Case(fmt.Sprintf("degenerate/%s/%s/%s/%s/%s", name, part, el, sc, ls), func() (string, error) {
							d := tree
							elem := func(p zPath, ff bool) {
								if el == "identity" {
									d = zReplace(d, p, id[ff])
								} else if el == "generator" {
									d = zReplace(d, p, gen[ff])
								}
							}
							scal := func(p zPath) {
								if sc != "keep" {
									d = zReplace(d, p, json.Number(sc))
								}
							}
							if part == "all" || part == "ballot" {
								elem(zPath{"ballot", "u"}, true)
								elem(zPath{"ballot", "v"}, true)
							}
							if part == "all" || part == "voteProof" {
								for _, k := range []string{"W", "Kp"} {
									elem(zPath{"voteProof", k}, true)
								}
								for _, k := range []string{"Kq1", "Kq2"} {
									elem(zPath{"voteProof", k}, false)
								}
								for _, k := range []string{"Challenge", "Z", "Sp", "Sq1", "Sq2"} {
									scal(zPath{"voteProof", k})
								}
							}
							for _, side := range []string{"lbProof", "ubProof"} {
								if part != "all" && part != side {
									continue
								}
								for _, k := range []string{"V", "A", "S", "T1", "T2"} {
									elem(zPath{side, k}, false)
								}
								elem(zPath{side, "InnerProductProof", "P"}, false)
								for _, k := range []string{"Taux", "Mu", "Tprime"} {
									scal(zPath{side, k})
								}
								for _, k := range []string{"Cc", "a", "b"} {
									scal(zPath{side, "InnerProductProof", k})
								}
								for _, k := range []string{"L", "R"} {
									p := zPath{side, "InnerProductProof", k}
									if ls == "empty" {
										d = zReplace(d, p, []any{})
										continue
									}
									for i := range zAt(d, p).([]any) {
										elem(append(append(zPath{}, p...), i), false)
									}
								}
							}
							got := zSubmit(c, []byte(zText(d)), e)
							c.State(fmt.Sprint(name, part, el, sc, ls, got))
							if got == "accepted" {
								return "", vk.Errf("degenerate ballot accepted")
							}
							return "refused or rejected", nil
						})
					}
				}
			}
		}
		// Every truncation; every structural character removed.
		blk := 512
		for at := 0; at < len(doc); at += blk {
			at := at
			c.Case(fmt.Sprintf("truncate/%s/%d", name, at), func() (string, error) {
				for i := at; i < at+blk && i < len(doc); i++ {
					if got := zSubmit(c, doc[:i], e); got == "accepted" {
						return "", vk.Errf("document cut after %d bytes is accepted", i)
					}
					if strings.IndexByte(`{}[],:"`, doc[i]) < 0 {
						continue
					}
					if !cf.full && i%3 != 0 {
						continue
					}
					d := append(append([]byte(nil), doc[:i]...), doc[i+1:]...)
					got := zSubmit(c, d, e)
					if got == "accepted" && !json.Valid(d) {
						return "", vk.Errf("document without byte %d (%q) is accepted", i, doc[i])
					}
				}
				return "refused or rejected", nil
			})
		}
		// Whole documents and parts.
		for _, s := range []string{"", " ", "null", "{}", "[]", `""`, "0", "true", "{", "}", "\x00", "\xff\xfe", `{"ballot":null,"lbProof":null,"ubProof":null,"voteProof":null}`,
			`{"ballot":{},"lbProof":{},"ubProof":{},"voteProof":{}}`, `{"ballot":[],"lbProof":[],"ubProof":[],"voteProof":[]}`, `{"ballot":{"u":1,"v":1}}`,
			strings.Repeat("[", 20000), strings.Repeat(`{"ballot":`, 5000), string(doc) + "x", string(doc) + string(doc)} {
			s := s
			c.Case(fmt.Sprintf("whole/%s/%.20q/%d", name, s, len(s)), func() (string, error) {
				if got := zSubmit(c, []byte(s), e); got == "accepted" {
					return "", vk.Errf("document accepted")
				}
				// The same text as each part's document.
				if _, err := BallotUnmarshalJSON([]byte(s), e.ff); err == nil {
					return "", vk.Errf("decoded as a ciphertext")
				}
				if p, err := bulletproofs.BulletProofUnmarshalJSON([]byte(s), e.pp.BPParams); err == nil {
					if ok, _ := p.Verify(); ok {
						return "", vk.Errf("accepted as a range proof")
					}
				}
				if _, err := voteproof.ProofUnmarshalJSON([]byte(s), e.ff, e.ec); err == nil {
					return "", vk.Errf("decoded as an equality proof")
				}
				return "refused or rejected", nil
			})
		}
	}
}

func zMustJSON(e group.Element) []byte {
	b, err := e.MarshalJSON()
	if err != nil {
		panic(err)
	}
	return b
}

func zAt(v any, p zPath) any {
	for _, k := range p {
		switch x := v.(type) {
		case map[string]any:
			v = x[k.(string)]
		case []any:
			v = x[k.(int)]
		}
	}
	return v
}

// zInside tells whether a is a prefix of b.
func zInside(a, b zPath) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = sort.Strings
