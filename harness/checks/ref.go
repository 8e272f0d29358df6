package checks

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/group"
)

// Ref is independently written reference arithmetic for one group. A reference value is
// a canonical text (affine coordinates, ristretto encoding in hex, or residue).
type Ref interface {
	// Comb returns the text of a*G + b*H, H being the element with text h ("" if b = 0).
	Comb(a, b *big.Int, h string) string
	// Text reads an element of the code under test through its JSON encoding.
	Text(e group.Element) (string, error)
	// Member tells whether a text denotes a group element.
	Member(text string) bool
	// Order and Field are the constants of the group.
	Order() *big.Int
	Field() *big.Int
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant")
	}
	return v
}

// --- short Weierstrass curves ---------------------------------------------------------

type wpt struct{ x, y *big.Int } // x == nil: infinity

type Weier struct {
	p, a, b, n *big.Int
	g          wpt
	tab        []wpt // 2^i G
	memo       map[string]string
}

func NewWeier(p, a, b, n, gx, gy string) *Weier {
	w := &Weier{p: hexInt(p), b: hexInt(b), n: hexInt(n), g: wpt{hexInt(gx), hexInt(gy)}, memo: map[string]string{}}
	w.a, _ = new(big.Int).SetString(a, 10)
	w.a.Mod(w.a, w.p)
	w.tab = []wpt{w.g}
	for i := 1; i < w.n.BitLen(); i++ {
		w.tab = append(w.tab, w.add(w.tab[i-1], w.tab[i-1]))
	}
	return w
}

func (w *Weier) Order() *big.Int { return w.n }
func (w *Weier) Field() *big.Int { return w.p }

func (w *Weier) add(s, t wpt) wpt {
	if s.x == nil {
		return t
	}
	if t.x == nil {
		return s
	}
	var l *big.Int
	if s.x.Cmp(t.x) == 0 {
		if mod(add(s.y, t.y), w.p).Sign() == 0 {
			return wpt{}
		}
		num := add(mul(B(3), mul(s.x, s.x)), w.a)
		l = mul(num, new(big.Int).ModInverse(mod(mul(B(2), s.y), w.p), w.p))
	} else {
		l = mul(sub(t.y, s.y), new(big.Int).ModInverse(mod(sub(t.x, s.x), w.p), w.p))
	}
	l = mod(l, w.p)
	x := mod(sub(sub(mul(l, l), s.x), t.x), w.p)
	y := mod(sub(mul(l, sub(s.x, x)), s.y), w.p)
	return wpt{x, y}
}

func (w *Weier) mulPt(tab []wpt, k *big.Int) wpt {
	acc := wpt{}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			acc = w.add(acc, tab[i])
		}
	}
	return acc
}

func (w *Weier) on(t wpt) bool {
	if t.x == nil {
		return true
	}
	if t.x.Sign() < 0 || t.y.Sign() < 0 || t.x.Cmp(w.p) >= 0 || t.y.Cmp(w.p) >= 0 {
		return false
	}
	r := add(add(mul(t.x, mul(t.x, t.x)), mul(w.a, t.x)), w.b)
	return mod(sub(mul(t.y, t.y), r), w.p).Sign() == 0
}

func (t wpt) text() string {
	if t.x == nil {
		return "0,0"
	}
	return t.x.String() + "," + t.y.String()
}

func parseW(s string) (wpt, bool) {
	if s == "0,0" {
		return wpt{}, true
	}
	a, b, ok := strings.Cut(s, ",")
	if !ok {
		return wpt{}, false
	}
	x, ok1 := new(big.Int).SetString(a, 10)
	y, ok2 := new(big.Int).SetString(b, 10)
	return wpt{x, y}, ok1 && ok2
}

var hTabs = map[string][]wpt{}

func (w *Weier) Comb(a, b *big.Int, h string) string {
	a = mod(a, w.n)
	b = mod(b, w.n)
	k := a.Text(62) + "|" + b.Text(62) + "|"
	if b.Sign() != 0 {
		k += h
	}
	if s, ok := w.memo[k]; ok {
		return s
	}
	r := w.mulPt(w.tab, a)
	if b.Sign() != 0 {
		t, ok := hTabs[h]
		if !ok {
			hp, good := parseW(h)
			if !good {
				panic("bad reference point")
			}
			t = []wpt{hp}
			for i := 1; i < w.n.BitLen(); i++ {
				t = append(t, w.add(t[i-1], t[i-1]))
			}
			hTabs[h] = t
		}
		r = w.add(r, w.mulPt(t, b))
	}
	w.memo[k] = r.text()
	return r.text()
}

func (w *Weier) Text(e group.Element) (string, error) {
	j, err := e.MarshalJSON()
	if err != nil {
		return "", err
	}
	var p struct{ X, Y *big.Int }
	if err := json.Unmarshal(j, &p); err != nil || p.X == nil || p.Y == nil {
		return "", fmt.Errorf("unreadable JSON %s", j)
	}
	return p.X.String() + "," + p.Y.String(), nil
}

func (w *Weier) Member(s string) bool {
	t, ok := parseW(s)
	return ok && w.on(t)
}

// Point returns the affine coordinates of a text (nil for infinity).
func (w *Weier) Point(s string) (x, y *big.Int) {
	t, _ := parseW(s)
	return t.x, t.y
}

// --- ristretto255 (RFC 9496) on edwards25519 ------------------------------------------

type ept struct{ x, y *big.Int } // affine

type Rist struct {
	p, n, d, sqrtM1, invsqrtAD *big.Int
	tab                        []ept
	memo                       map[string]string
	hs                         map[string][]ept
}

func NewRist() *Rist {
	r := &Rist{memo: map[string]string{}, hs: map[string][]ept{}}
	r.p = sub(Pow2(255), B(19))
	r.n = add(Pow2(252), hexInt("14def9dea2f79cd65812631a5cf5d3ed"))
	r.d = mod(mul(B(-121665), new(big.Int).ModInverse(B(121666), r.p)), r.p)
	r.sqrtM1 = new(big.Int).Exp(B(2), new(big.Int).Rsh(sub(r.p, B(1)), 2), r.p)
	ad := mod(sub(B(-1), r.d), r.p)
	_, r.invsqrtAD = r.sqrtRatio(B(1), ad)
	y := mod(mul(B(4), new(big.Int).ModInverse(B(5), r.p)), r.p)
	// x even
	u := sub(mul(y, y), B(1))
	v := add(mul(r.d, mul(y, y)), B(1))
	_, x := r.sqrtRatio(mod(u, r.p), mod(v, r.p))
	base := ept{x, y}
	r.tab = r.table(base)
	return r
}

func (r *Rist) table(base ept) []ept {
	t := []ept{base}
	for i := 1; i < 256; i++ {
		t = append(t, r.add(t[i-1], t[i-1]))
	}
	return t
}

func (r *Rist) Order() *big.Int { return r.n }
func (r *Rist) Field() *big.Int { return r.p }

func (r *Rist) neg(x *big.Int) bool { return x.Bit(0) == 1 }
func (r *Rist) abs(x *big.Int) *big.Int {
	if r.neg(x) {
		return mod(new(big.Int).Neg(x), r.p)
	}
	return x
}

// sqrtRatio is SQRT_RATIO_M1 of RFC 9496.
func (r *Rist) sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	p := r.p
	v3 := mod(mul(mul(v, v), v), p)
	v7 := mod(mul(mul(v3, v3), v), p)
	e := new(big.Int).Rsh(sub(p, B(5)), 3)
	s := mod(mul(mul(u, v3), new(big.Int).Exp(mod(mul(u, v7), p), e, p)), p)
	check := mod(mul(v, mul(s, s)), p)
	nu := mod(new(big.Int).Neg(u), p)
	nui := mod(mul(nu, r.sqrtM1), p)
	correct := check.Cmp(mod(u, p)) == 0
	flipped := check.Cmp(nu) == 0
	flippedI := check.Cmp(nui) == 0
	if flipped || flippedI {
		s = mod(mul(s, r.sqrtM1), p)
	}
	return correct || flipped, r.abs(s)
}

func (r *Rist) add(a, b ept) ept {
	p := r.p
	k := mod(mul(r.d, mul(mod(mul(a.x, b.x), p), mod(mul(a.y, b.y), p))), p)
	x := mul(add(mul(a.x, b.y), mul(a.y, b.x)), new(big.Int).ModInverse(mod(add(B(1), k), p), p))
	y := mul(add(mul(a.y, b.y), mul(a.x, b.x)), new(big.Int).ModInverse(mod(sub(B(1), k), p), p))
	return ept{mod(x, p), mod(y, p)}
}

func (r *Rist) enc(a ept) string {
	p := r.p
	x0, y0, z0 := a.x, a.y, B(1)
	t0 := mod(mul(x0, y0), p)
	u1 := mod(mul(add(z0, y0), sub(z0, y0)), p)
	u2 := mod(mul(x0, y0), p)
	_, inv := r.sqrtRatio(B(1), mod(mul(u1, mul(u2, u2)), p))
	d1 := mod(mul(inv, u1), p)
	d2 := mod(mul(inv, u2), p)
	zi := mod(mul(mul(d1, d2), t0), p)
	ix := mod(mul(x0, r.sqrtM1), p)
	iy := mod(mul(y0, r.sqrtM1), p)
	ed := mod(mul(d1, r.invsqrtAD), p)
	x, y, di := x0, y0, d2
	if r.neg(mod(mul(t0, zi), p)) {
		x, y, di = iy, ix, ed
	}
	if r.neg(mod(mul(x, zi), p)) {
		y = mod(new(big.Int).Neg(y), p)
	}
	s := r.abs(mod(mul(di, sub(z0, y)), p))
	b := s.FillBytes(make([]byte, 32))
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return hex.EncodeToString(b)
}

func (r *Rist) dec(text string) (ept, bool) {
	p := r.p
	b, err := hex.DecodeString(text)
	if err != nil || len(b) != 32 {
		return ept{}, false
	}
	le := append([]byte(nil), b...)
	for i := 0; i < 16; i++ {
		le[i], le[31-i] = le[31-i], le[i]
	}
	s := new(big.Int).SetBytes(le)
	if s.Cmp(p) >= 0 || r.neg(s) {
		return ept{}, false
	}
	ss := mod(mul(s, s), p)
	u1 := mod(sub(B(1), ss), p)
	u2 := mod(add(B(1), ss), p)
	u2s := mod(mul(u2, u2), p)
	v := mod(sub(new(big.Int).Neg(mul(r.d, mul(u1, u1))), u2s), p)
	ok, inv := r.sqrtRatio(B(1), mod(mul(v, u2s), p))
	dx := mod(mul(inv, u2), p)
	dy := mod(mul(mul(inv, dx), v), p)
	x := r.abs(mod(mul(mul(B(2), s), dx), p))
	y := mod(mul(u1, dy), p)
	t := mod(mul(x, y), p)
	if !ok || r.neg(t) || y.Sign() == 0 {
		return ept{}, false
	}
	return ept{x, y}, true
}

func (r *Rist) mulPt(tab []ept, k *big.Int) ept {
	acc := ept{B(0), B(1)}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			acc = r.add(acc, tab[i])
		}
	}
	return acc
}

func (r *Rist) Comb(a, b *big.Int, h string) string {
	a, b = mod(a, r.n), mod(b, r.n)
	k := a.Text(62) + "|" + b.Text(62) + "|"
	if b.Sign() != 0 {
		k += h
	}
	if s, ok := r.memo[k]; ok {
		return s
	}
	t := r.mulPt(r.tab, a)
	if b.Sign() != 0 {
		ht, ok := r.hs[h]
		if !ok {
			hp, good := r.dec(h)
			if !good {
				panic("bad reference point")
			}
			ht = r.table(hp)
			r.hs[h] = ht
		}
		t = r.add(t, r.mulPt(ht, b))
	}
	r.memo[k] = r.enc(t)
	return r.memo[k]
}

func (r *Rist) Text(e group.Element) (string, error) {
	j, err := e.MarshalJSON()
	if err != nil {
		return "", err
	}
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return "", fmt.Errorf("unreadable JSON %s", j)
	}
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return "", fmt.Errorf("unreadable JSON %s", j)
	}
	return hex.EncodeToString(b), nil
}

func (r *Rist) Member(s string) bool { _, ok := r.dec(s); return ok }

// --- quadratic residues modulo a safe prime -------------------------------------------

type Resid struct {
	p, q, g *big.Int
	memo    map[string]string
	member  map[string]bool
}

func NewResid(p, g *big.Int) *Resid {
	return &Resid{p: p, q: new(big.Int).Rsh(p, 1), g: g, memo: map[string]string{}}
}

func (r *Resid) Order() *big.Int { return r.q }
func (r *Resid) Field() *big.Int { return r.p }

func (r *Resid) pow(b, k *big.Int) *big.Int {
	acc := B(1)
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = mod(mul(acc, acc), r.p)
		if k.Bit(i) == 1 {
			acc = mod(mul(acc, b), r.p)
		}
	}
	return acc
}

func (r *Resid) Comb(a, b *big.Int, h string) string {
	a, b = mod(a, r.q), mod(b, r.q)
	k := a.Text(62) + "|" + b.Text(62) + "|"
	if b.Sign() != 0 {
		k += h
	}
	if s, ok := r.memo[k]; ok {
		return s
	}
	v := r.pow(r.g, a)
	if b.Sign() != 0 {
		hv, ok := new(big.Int).SetString(h, 10)
		if !ok {
			panic("bad reference element")
		}
		v = mod(mul(v, r.pow(hv, b)), r.p)
	}
	r.memo[k] = v.String()
	return r.memo[k]
}

func (r *Resid) Text(e group.Element) (string, error) {
	j, err := e.MarshalJSON()
	if err != nil {
		return "", err
	}
	v, ok := new(big.Int).SetString(strings.Trim(string(j), `"`), 10)
	if !ok {
		return "", fmt.Errorf("unreadable JSON %s", j)
	}
	return v.String(), nil
}

func (r *Resid) Member(s string) bool {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok || v.Sign() <= 0 || v.Cmp(r.p) >= 0 {
		return false
	}
	if m, ok := r.member[s]; ok {
		return m
	}
	if r.member == nil {
		r.member = map[string]bool{}
	}
	r.member[s] = new(big.Int).Exp(v, r.q, r.p).Cmp(B(1)) == 0
	return r.member[s]
}

// --- the offered groups ----------------------------------------------------------------

// RG pairs a group of the code under test with its reference.
type RG struct {
	G     group.Group
	R     Ref
	Name  string
	Curve bool
}

var refMemo = map[string]Ref{}

func refOf(name string, f func() Ref) Ref {
	if r, ok := refMemo[name]; ok {
		return r
	}
	refMemo[name] = f()
	return refMemo[name]
}

// CurveRefs are the four curve groups with references.
func CurveRefs() []RG {
	return []RG{
		{group.P256(), refOf("P-256", func() Ref {
			return NewWeier("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "-3",
				"5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
				"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
				"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
				"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
		}), "P-256", true},
		{group.P384(), refOf("P-384", func() Ref {
			return NewWeier("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "-3",
				"b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
				"ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
				"aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
				"3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f")
		}), "P-384", true},
		{group.Ristretto255(), refOf("ristretto255", func() Ref { return NewRist() }), "ristretto255", true},
		{group.SecP256k1(), refOf("secp256k1", func() Ref {
			return NewWeier("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
				"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
				"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
				"483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
		}), "secp256k1", true},
	}
}

// SafeRef is the safe-prime group code on a small modulus with its reference.
func SafeRef(p string) RG {
	return RG{SafeGroup(p), refOf("safe"+p, func() Ref { return NewResid(hexInt(p), hexInt(safeGen[p])) }), fmt.Sprintf("safe%d", hexInt(p).BitLen()), false}
}

// ModPRef is the ElGamal group with its reference.
func ModPRef() RG {
	return RG{MODP3072(), refOf("modp", func() Ref { return NewResid(MODP3072().P(), B(2)) }), "MODP3072", false}
}

// AllRefs are all offered groups (and the safe-prime code on smaller moduli).
func AllRefs() []RG {
	return append(CurveRefs(), SafeRef(Safe64), SafeRef(Safe320), ModPRef())
}
