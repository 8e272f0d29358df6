// Package vk is the verification kit: the ideal group, controlled randomness,
// reference arithmetic, the explorer's bookkeeping and the schedule explorer.
package vk

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/takakv/msc-poc/group"
)

// IGroup is the ideal group: the free module over Z_q on named basis elements.
// Basis 0 is the generator; every distinct string mapped to the group gets its own.
type IGroup struct {
	Q  *big.Int
	P_ *big.Int
	Nm string
	*core

	// Point, when set, is called before every operation (scheduling point).
	Point func(op string)
	// Mangle, when set, is called with the running index of each value-producing
	// operation and may alter the result (fault injection).
	Mangle func(i int, op string, e *IElem)
	// OnScale, when set, sees the operands of every scaling.
	OnScale func(e *IElem, s *big.Int)
	// Logs, when set, gives every basis element a discrete logarithm: what is published of
	// an element, and equality, are then those of the cyclic group of order Q, while the
	// coefficients stay readable.
	Logs func(basis string) *big.Int
	// ops counts value-producing operations; MaxOps is the horizon.
	ops    atomic.Int64
	MaxOps int
}

// Ops is the number of value-producing operations so far.
func (g *IGroup) Ops() int { return int(g.ops.Load()) }

// core is what all instances of one group (name and order) share: as with the real
// groups, elements of two instances can be combined.
type core struct {
	basis map[string]int
	names []string
	tags  []string
	mu    sync.Mutex
}

var (
	cores   = map[string]*core{}
	coresMu sync.Mutex
)

// Horizon is what a run that exceeds its explicit bound panics with.
type Horizon struct{ What string }

func (h Horizon) Error() string { return "horizon exceeded: " + h.What }

// IElem is an element of the ideal group. Coefficients are never mutated in place.
type IElem struct {
	G *IGroup
	C []*big.Int // nil entries are zero
}

// NewIdeal makes an ideal group of prime order q. Groups of different order never have
// the same name.
func NewIdeal(name string, q *big.Int) *IGroup {
	h := sha256.Sum256(q.Bytes())
	name += "-" + hex.EncodeToString(h[:4])
	coresMu.Lock()
	defer coresMu.Unlock()
	c := cores[name]
	if c == nil {
		c = &core{basis: map[string]int{}, names: []string{"G"}, tags: []string{"G"}}
		cores[name] = c
	}
	return &IGroup{Q: new(big.Int).Set(q), P_: new(big.Int).Set(q), Nm: name, core: c, MaxOps: 1 << 40}
}

func (g *IGroup) Name() string                 { return g.Nm }
func (g *IGroup) MarshalJSON() ([]byte, error) { return json.Marshal(&group.GroupId{Name: g.Nm}) }
func (g *IGroup) P() *big.Int                  { return g.P_ }
func (g *IGroup) N() *big.Int                  { return g.Q }
func (g *IGroup) Element() group.Element       { return &IElem{G: g} }
func (g *IGroup) Identity() group.Element      { return &IElem{G: g} }
func (g *IGroup) Generator() group.Element     { return &IElem{G: g, C: []*big.Int{big.NewInt(1)}} }
func (g *IGroup) Random() group.Element {
	r, err := rand.Int(rand.Reader, g.Q)
	if err != nil {
		panic(err)
	}
	return g.Element().BaseScale(r)
}

// BasisIndex returns the basis index of a pure basis element, or -1.
func (e *IElem) BasisIndex() int {
	at := -1
	for i, c := range e.C {
		if c == nil {
			continue
		}
		if at >= 0 || c.Cmp(one) != 0 {
			return -1
		}
		at = i
	}
	return at
}

// BasisName gives the seed string of basis i.
func (g *IGroup) BasisName(i int) string {
	g.mu.Lock()
	defer g.mu.Unlock()
	if i < 0 || i >= len(g.names) {
		return "?"
	}
	return g.names[i]
}

var one = big.NewInt(1)
var zero = big.NewInt(0)

// Coef returns the coefficient at basis i (never nil).
func (e *IElem) Coef(i int) *big.Int {
	if i < 0 || i >= len(e.C) || e.C[i] == nil {
		return zero
	}
	return e.C[i]
}

// Lin builds the linear combination of the given (basis element, coefficient) pairs.
func (g *IGroup) Lin(pairs ...any) *IElem {
	acc := &IElem{G: g}
	for i := 0; i < len(pairs); i += 2 {
		b := pairs[i].(group.Element).(*IElem)
		s := pairs[i+1].(*big.Int)
		acc = g.rawAdd(acc, g.rawScale(b, s))
	}
	return acc
}

func (g *IGroup) rawAdd(a, b *IElem) *IElem {
	n := len(a.C)
	if len(b.C) > n {
		n = len(b.C)
	}
	r := make([]*big.Int, n)
	for i := range r {
		var x, y *big.Int
		if i < len(a.C) {
			x = a.C[i]
		}
		if i < len(b.C) {
			y = b.C[i]
		}
		switch {
		case x == nil:
			r[i] = y
		case y == nil:
			r[i] = x
		default:
			s := new(big.Int).Add(x, y)
			if s.Cmp(g.Q) >= 0 {
				s.Sub(s, g.Q)
			}
			if s.Sign() != 0 {
				r[i] = s
			}
		}
	}
	return &IElem{G: g, C: r}
}

func (g *IGroup) rawScale(a *IElem, s *big.Int) *IElem {
	k := s
	if s.Sign() < 0 || s.Cmp(g.Q) >= 0 {
		k = new(big.Int).Mod(s, g.Q)
	}
	if k.Sign() == 0 {
		return &IElem{G: g}
	}
	r := make([]*big.Int, len(a.C))
	for i, x := range a.C {
		if x == nil {
			continue
		}
		v := new(big.Int).Mul(x, k)
		v.Mod(v, g.Q)
		if v.Sign() != 0 {
			r[i] = v
		}
	}
	return &IElem{G: g, C: r}
}

func (e *IElem) check(a group.Element) *IElem {
	x, ok := a.(*IElem)
	if !ok {
		panic("incompatible group element type")
	}
	if x.G.core != e.G.core {
		panic("incompatible groups")
	}
	return x
}

func (e *IElem) pt(op string) {
	if e.G.Point != nil {
		e.G.Point(op)
	}
}

func (e *IElem) set(op string, r *IElem) group.Element {
	e.C = r.C
	n := int(e.G.ops.Add(1))
	if n > e.G.MaxOps {
		panic(Horizon{"group operations"})
	}
	if e.G.Mangle != nil {
		e.G.Mangle(n-1, op, e)
	}
	return e
}

func (e *IElem) Add(a, b group.Element) group.Element {
	e.pt("Add")
	return e.set("Add", e.G.rawAdd(e.check(a), e.check(b)))
}

func (e *IElem) Subtract(a, b group.Element) group.Element {
	e.pt("Subtract")
	return e.set("Subtract", e.G.rawAdd(e.check(a), e.G.rawScale(e.check(b), big.NewInt(-1))))
}

func (e *IElem) Negate(a group.Element) group.Element {
	e.pt("Negate")
	return e.set("Negate", e.G.rawScale(e.check(a), big.NewInt(-1)))
}

func (e *IElem) Scale(a group.Element, s *big.Int) group.Element {
	e.pt("Scale")
	if e.G.OnScale != nil {
		e.G.OnScale(e.check(a), s)
	}
	return e.set("Scale", e.G.rawScale(e.check(a), s))
}

func (e *IElem) BaseScale(s *big.Int) group.Element {
	e.pt("BaseScale")
	if e.G.OnScale != nil {
		e.G.OnScale(&IElem{G: e.G, C: []*big.Int{one}}, s)
	}
	return e.set("BaseScale", e.G.rawScale(&IElem{G: e.G, C: []*big.Int{one}}, s))
}

func (e *IElem) Set(a group.Element) group.Element {
	e.pt("Set")
	return e.set("Set", &IElem{G: e.G, C: append([]*big.Int(nil), e.check(a).C...)})
}

func (e *IElem) MapToGroup(s string) (group.Element, error) {
	e.pt("MapToGroup")
	e.G.mu.Lock()
	i, ok := e.G.basis[s]
	if !ok {
		i = len(e.G.names)
		e.G.basis[s] = i
		e.G.names = append(e.G.names, s)
		h := sha256.Sum256([]byte(s))
		e.G.tags = append(e.G.tags, hex.EncodeToString(h[:6]))
	}
	e.G.mu.Unlock()
	c := make([]*big.Int, i+1)
	c[i] = one
	return e.set("MapToGroup", &IElem{G: e.G, C: c}), nil
}

// Log is the discrete logarithm of an element of a group with Logs.
func (e *IElem) Log() *big.Int {
	r := new(big.Int)
	for i, c := range e.C {
		if c == nil {
			continue
		}
		l := one
		if i > 0 {
			l = e.G.Logs(e.G.BasisName(i))
		}
		r.Add(r, new(big.Int).Mul(c, l))
	}
	return r.Mod(r, e.G.Q)
}

// Eq is IsEqual without a scheduling point.
func (e *IElem) Eq(x *IElem) bool {
	if e.G.Logs != nil {
		return e.Log().Cmp(x.Log()) == 0
	}
	n := len(e.C)
	if len(x.C) > n {
		n = len(x.C)
	}
	for i := 0; i < n; i++ {
		if e.Coef(i).Cmp(x.Coef(i)) != 0 {
			return false
		}
	}
	return true
}

func (e *IElem) IsEqual(a group.Element) bool {
	e.pt("IsEqual")
	return e.Eq(e.check(a))
}

func (e *IElem) IsIdentity() bool {
	e.pt("IsIdentity")
	return e.Eq(&IElem{G: e.G})
}

func (e *IElem) GroupOrder() *big.Int { return e.G.Q }
func (e *IElem) FieldOrder() *big.Int { return e.G.P_ }

// Text is the canonical rendering (independent of the order in which the basis elements
// were met).
func (e *IElem) Text() string {
	if e.G.Logs != nil {
		return "<" + e.Log().String() + ">"
	}
	e.G.mu.Lock()
	tags := e.G.tags
	e.G.mu.Unlock()
	var parts []string
	for i, c := range e.C {
		if c != nil && c.Sign() != 0 {
			parts = append(parts, tags[i]+":"+c.Text(62))
		}
	}
	sort.Strings(parts)
	return "<" + strings.Join(parts, ",") + ">"
}

func (e *IElem) String() string {
	e.pt("String")
	return e.Text()
}

func (e *IElem) MarshalBinary() ([]byte, error) { return e.MarshalJSON() }

func (e *IElem) MarshalJSON() ([]byte, error) {
	e.pt("Marshal")
	if e.G.Logs != nil {
		return json.Marshal(e.Log().String())
	}
	e.G.mu.Lock()
	tags := e.G.tags
	e.G.mu.Unlock()
	m := map[string]string{}
	for i, c := range e.C {
		if c != nil && c.Sign() != 0 {
			m[tags[i]] = c.String()
		}
	}
	return json.Marshal(m)
}

func (e *IElem) UnmarshalBinary(b []byte) error { return e.UnmarshalJSON(b) }

func (e *IElem) UnmarshalJSON(b []byte) error {
	e.pt("Unmarshal")
	m := map[string]string{}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if string(b) == "null" {
		return errors.New("null element")
	}
	e.G.mu.Lock()
	tags := e.G.tags
	e.G.mu.Unlock()
	var c []*big.Int
	for i, t := range tags {
		x, ok := m[t]
		if !ok {
			continue
		}
		delete(m, t)
		v, ok := new(big.Int).SetString(x, 10)
		if !ok || v.Sign() < 0 || v.Cmp(e.G.Q) >= 0 {
			return errors.New("bad coefficient")
		}
		for len(c) <= i {
			c = append(c, nil)
		}
		if v.Sign() != 0 {
			c[i] = v
		}
	}
	if len(m) > 0 {
		return errors.New("bad basis")
	}
	e.C = c
	return nil
}

func (e *IElem) SetBytes(b []byte) group.Element {
	_ = e.UnmarshalJSON(b)
	return e
}

var _ group.Group = (*IGroup)(nil)
var _ group.Element = (*IElem)(nil)
