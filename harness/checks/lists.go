package checks

import (
	"fmt"

	"github.com/takakv/msc-poc/group"
)

// LR is one faulty pair of round lists.
type LR struct {
	Name string
	L, R []group.Element
}

// ListFaults enumerates the faults of the two round lists of an inner-product proof:
// dropped, repeated, added and exchanged rounds, on both sides or on one.
func ListFaults(g group.Group, l, r []group.Element) []LR {
	k := len(l)
	cp := func(x []group.Element, more ...group.Element) []group.Element {
		return append(append([]group.Element(nil), x...), more...)
	}
	var out []LR
	put := func(n string, l, r []group.Element) { out = append(out, LR{n, l, r}) }
	e := g.Identity()
	gen := g.Generator()
	put("extra round (identity)", cp(l, e), cp(r, e))
	put("extra round (generator)", cp(l, gen), cp(r, gen))
	put("extra first round", append([]group.Element{e}, l...), append([]group.Element{e}, r...))
	put("two extra rounds", cp(l, e, gen), cp(r, gen, e))
	put("extra L", cp(l, e), cp(r))
	put("extra R", cp(l), cp(r, e))
	put("extra L (generator)", cp(l, gen), cp(r))
	put("extra R (generator)", cp(l), cp(r, gen))
	if k == 0 {
		return out
	}
	put("last round repeated", cp(l, l[k-1]), cp(r, r[k-1]))
	put("rounds doubled", cp(l, l...), cp(r, r...))
	put("drop last round", cp(l[:k-1]), cp(r[:k-1]))
	put("drop first round", cp(l[1:]), cp(r[1:]))
	put("drop last L", cp(l[:k-1]), cp(r))
	put("drop last R", cp(l), cp(r[:k-1]))
	put("no rounds", nil, nil)
	put("no L", nil, cp(r))
	put("no R", cp(l), nil)
	put("L and R exchanged", cp(r), cp(l))
	for i := 0; i < k; i++ {
		for j := i + 1; j < k; j++ {
			a, b := cp(l), cp(r)
			a[i], a[j], b[i], b[j] = a[j], a[i], b[j], b[i]
			put(fmt.Sprintf("rounds %d,%d exchanged", i, j), a, b)
		}
		a, b := cp(l), cp(r)
		a[i], b[i] = b[i], a[i]
		put(fmt.Sprintf("sides of round %d exchanged", i), a, b)
	}
	return out
}

func sameList(a, b []group.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].IsEqual(b[i]) {
			return false
		}
	}
	return true
}
