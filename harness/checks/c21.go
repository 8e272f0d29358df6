package checks

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	All["C21"] = c21
	vk.Describe("C21", "one case = one ordered pair of group objects: every operation with every placement of foreign operands, over operand values x receiver states; the operation must panic and leave receiver and operands as they were (or, for two objects describing one group, give the model's result)",
		"group objects from the listed set")
}

// kin is a group object with a label of the group it describes.
type kin struct {
	name, label string
	g           group.Group
}

func c21(c *vk.Ctx) {
	text := func(e group.Element) string {
		t, err := e.MarshalJSON()
		if err != nil {
			return "error " + err.Error()
		}
		return string(t)
	}
	var ks []kin
	add := func(name, label string, g group.Group) { ks = append(ks, kin{name, label, g}) }
	for _, again := range []string{"", "'"} {
		for _, g := range Curves() {
			add(g.Name()+again, g.Name(), g)
		}
		add("safe64"+again, "safe64", SafeGroup(Safe64))
		add("MODP3072"+again, "MODP3072", MODP3072())
		for _, p := range []int64{11, 23, 59, 83} {
			for _, gen := range []int64{3, 4} {
				if big.Jacobi(B(gen), B(p)) == 1 {
					add(fmt.Sprintf("%d/%d%s", p, gen, again), fmt.Sprintf("%d/%d", p, gen), SafeGroupGen(p, gen))
				}
			}
		}
	}
	// One name for different groups, and different names for one group.
	add("alias of 23/4", "23/4", group.NewModPGroup("another name", "17", "4"))
	add("like-named 23/3", "23/3", group.NewModPGroup("safe-23-4", "17", "3"))
	add("like-named 47/3", "47/3", group.NewModPGroup("safe-59-3", "2f", "3"))
	add("like-named 47", "47/4", group.NewModPGroup("safe-23-4", "2f", "4"))
	// A modulus that agrees with that of safe64 in its low 64 bits.
	add("long", "long", group.NewModPGroup("safe-"+Safe64, new(big.Int).Add(Pow2(65), hexInt(Safe64)).Text(16), "3"))

	// Each object describes the group it was made for, whatever was made before and after.
	for _, x := range ks {
		x := x
		c.Case("object/"+x.name, func() (string, error) {
			var p, gen int64
			if n, _ := fmt.Sscanf(x.label, "%d/%d", &p, &gen); n != 2 {
				return "named group", nil
			}
			if t := text(x.g.Generator()); x.g.P().Cmp(B(p)) != 0 || x.g.N().Cmp(B((p-1)/2)) != 0 || t != fmt.Sprint(gen) {
				return "", vk.Errf("the group object %s has modulus %v, order %v and generator %s", x.name, x.g.P(), x.g.N(), t)
			}
			if t := text(x.g.Element().BaseScale(B(2))); t != fmt.Sprint(gen*gen%p) {
				return "", vk.Errf("twice the generator of %s is %s", x.name, t)
			}
			c.Trans(2)
			c.State(x.name)
			return "as described", nil
		})
	}
	vals := []int64{0, 1, 5}
	type opr struct {
		name string
		n    int // operands
		f    func(e, a, b group.Element) any
	}
	ops := []opr{
		{"Add", 2, func(e, a, b group.Element) any { return e.Add(a, b) }},
		{"Subtract", 2, func(e, a, b group.Element) any { return e.Subtract(a, b) }},
		{"Negate", 1, func(e, a, b group.Element) any { return e.Negate(a) }},
		{"Set", 1, func(e, a, b group.Element) any { return e.Set(a) }},
		{"IsEqual", 1, func(e, a, b group.Element) any { return e.IsEqual(a) }},
	}
	for _, s := range []int64{0, 1, 2, -1} {
		s := s
		ops = append(ops, opr{fmt.Sprintf("Scale(%d)", s), 1, func(e, a, b group.Element) any { return e.Scale(a, B(s)) }})
	}
	for _, x := range ks {
		for _, y := range ks {
			if x.name == y.name {
				continue
			}
			x, y := x, y
			same := x.label == y.label
			c.Case(fmt.Sprintf("pair/%s/%s", x.name, y.name), func() (string, error) {
				in := func(g group.Group, k int64) group.Element { return g.Element().BaseScale(B(k)) }
				for _, o := range ops {
					for mask := 1; mask < 1<<o.n; mask++ { // which operands are foreign
						for _, ev := range append(vals, -7) {
							for _, av := range vals {
								for _, bv := range vals {
									if o.n == 1 && bv != vals[0] {
										continue
									}
									e := in(x.g, ev)
									if ev == -7 {
										e = x.g.Element()
										if o.name == "IsEqual" {
											continue // holds nothing yet
										}
									}
									ga, gb := x.g, x.g
									if mask&1 != 0 {
										ga = y.g
									}
									if mask&2 != 0 {
										gb = y.g
									}
									a, b := in(ga, av), in(gb, bv)
									ta, tb, te := text(a), text(b), ""
									if ev != -7 {
										te = text(e)
									}
									var ret any
									err := vk.Guard(func() error { ret = o.f(e, a, b); return nil })
									c.Trans(1)
									what := fmt.Sprintf("%s on %s (%d) with %d, %d (foreign operands of %s: %b)", o.name, x.name, ev, av, bv, y.name, mask)
									if text(a) != ta || text(b) != tb {
										return "", vk.Errf("%s changed an operand", what)
									}
									if !same {
										if err == nil {
											return "", vk.Errf("%s gives %v", what, ret)
										}
										if te != "" && text(e) != te {
											return "", vk.Errf("%s panics, but changed its receiver", what)
										}
										continue
									}
									if err != nil {
										return "", vk.Errf("%s: %v", what, err)
									}
									var want any = in(x.g, map[string]int64{"Add": av + bv, "Subtract": av - bv, "Negate": -av, "Set": av,
										"Scale(0)": 0, "Scale(1)": av, "Scale(2)": 2 * av, "Scale(-1)": -av}[o.name])
									if o.name == "IsEqual" {
										// Compared by the group's order: small groups wrap.
										if want := new(big.Int).Mod(sub(B(ev), B(av)), x.g.N()).Sign() == 0; ret.(bool) != want {
											return "", vk.Errf("%s gives %v", what, ret)
										}
										continue
									}
									if r, ok := ret.(group.Element); !ok || r != e || !r.IsEqual(want.(group.Element)) {
										return "", vk.Errf("%s gives %v", what, ret)
									}
								}
							}
						}
					}
				}
				c.Validated(1)
				c.State(x.name + "|" + y.name)
				if same {
					return "one group: combined", nil
				}
				return "refused", nil
			})
		}
	}
}
