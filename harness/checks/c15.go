package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	vk.Describe("C15", "one case = all faults of one kind in the encoding of one element (bit flips, truncations, out-of-field and off-curve coordinates, non-canonical forms; small groups: every byte string up to two bytes and every integer of an interval), or all replacements from the fault alphabet at one path of a ballot document, or all truncations of a block of lengths; each decoded (and judged by the collector) under a panic guard",
		"membership is decided by own curve equations, RFC 9496 decoding and Euler's criterion")
}

// tryBin decodes bytes in every way and receiver; want is the reference text the bytes
// denote, "" if they denote nothing, "?" if unknown (then only membership and
// re-encoding are checked).
func tryBin(c *vk.Ctx, rg RG, in []byte, want string) error {
	first := ""
	for _, rn := range []string{"fresh", "used"} {
		for _, how := range []string{"UnmarshalBinary", "SetBytes"} {
			e := rg.G.Element()
			if rn == "used" {
				e = rg.G.Element().BaseScale(B(77))
			}
			buf := bytes.Clone(in)
			var err error
			if how == "SetBytes" {
				e.SetBytes(buf)
			} else {
				err = e.UnmarshalBinary(buf)
			}
			c.Trans(1)
			t, terr := rg.R.Text(e)
			if how == "UnmarshalBinary" && err == nil {
				if want == "" {
					return vk.Errf("bytes %s, not an element, decoded to %s", hexShort(in), short(t))
				}
			}
			if how == "UnmarshalBinary" && err != nil {
				if want != "" && want != "?" {
					return vk.Errf("bytes %s of an element refused: %v", hexShort(in), err)
				}
				if rn == "fresh" {
					continue // a fresh receiver holds nothing in particular
				}
			}
			if terr != nil || !rg.R.Member(t) {
				return vk.Errf("%s(%s) into a %s receiver leaves %s, outside the group (%v)", how, hexShort(in), rn, short(t), terr)
			}
			if how == "SetBytes" {
				if first == "" {
					first = t
				}
				if t != first {
					return vk.Errf("SetBytes(%s) yields %s or %s depending on what the receiver held", hexShort(in), short(first), short(t))
				}
			}
			if (how == "UnmarshalBinary" && err == nil || how == "SetBytes") && want != "" && want != "?" && t != want {
				return vk.Errf("%s(%s) yields %s, want %s", how, hexShort(in), short(t), short(want))
			}
		}
	}
	return nil
}

func hexShort(b []byte) string {
	s := hex.EncodeToString(b)
	if len(s) > 150 {
		return s[:150] + ".."
	}
	return s
}

func tryJSON(c *vk.Ctx, rg RG, in string, want string) error {
	for _, rn := range []string{"fresh", "used"} {
		for _, how := range []string{"UnmarshalJSON", "json.Unmarshal"} {
			e := rg.G.Element()
			if rn == "used" {
				e = rg.G.Element().BaseScale(B(77))
			}
			var err error
			if how == "UnmarshalJSON" {
				err = e.UnmarshalJSON([]byte(in))
			} else {
				if strings.TrimSpace(in) == "null" {
					continue // encoding/json leaves the target alone by convention
				}
				err = json.Unmarshal([]byte(in), e)
			}
			c.Trans(1)
			if err != nil && rn == "fresh" {
				if want != "" && want != "?" {
					return vk.Errf("JSON %s of an element refused: %v", short(in), err)
				}
				continue
			}
			t, terr := rg.R.Text(e)
			if err == nil && want == "" {
				return vk.Errf("JSON %s, not an element, decoded to %s", short(in), short(t))
			}
			if terr != nil || !rg.R.Member(t) {
				return vk.Errf("%s(%s) leaves %s, outside the group (%v)", how, short(in), short(t), terr)
			}
			if err == nil && want != "?" && t != want {
				return vk.Errf("%s(%s) yields %s, want %s", how, short(in), short(t), short(want))
			}
		}
	}
	return nil
}

// structFaults are JSON texts that encode no element of any group.
var structFaults = []string{"", " ", "null", "{}", "[]", "[null]", `""`, `"abc"`, `"0"`, "true", "false", "-1", "0", "1.5", "1e5", "-0.5", "{", "}", `{"x":1}`, `{"y":1}`,
	`{"x":null,"y":null}`, `{"x":"1","y":"2"}`, `{"x":{},"y":[]}`, `{"x":1.5,"y":2}`, `{"x":1,"y":true}`, `{"x":-1,"y":-1}`, `{"x":0,"y":1}`, `{"x":1,"y":0}`, `{"x":0}`, `{"y":0}`,
	`[1,2]`, `{"a":1,"b":2}`, `{"x":1e1,"y":0}`, `"null"`, `"AA=="`, `"AAAA"`, `"!!!!"`, "\x00", "\xff", "nul", "NaN", "1 2", `{"x":0,"y":0`}

func C15(c *vk.Ctx) {
	for _, rg := range CurveRefs() {
		rg := rg
		if w, ok := rg.R.(*Weier); ok {
			c15Weier(c, rg, w)
		} else {
			c15Rist(c, rg, rg.R.(*Rist))
		}
		c.Case("struct/"+rg.Name, func() (string, error) {
			for _, s := range structFaults {
				if err := tryJSON(c, rg, s, ""); err != nil {
					return "", err
				}
			}
			return "refused", constants(rg)
		})
	}
	for _, p := range []string{Safe6, Safe8, Safe12} {
		c15Small(c, SafeRef(p))
	}
	for _, rg := range []RG{SafeRef(Safe64), SafeRef(Safe320), ModPRef()} {
		c15Big(c, rg)
	}
}

func c15Weier(c *vk.Ctx, rg RG, w *Weier) {
	size := (w.p.BitLen() + 7) / 8
	secp := rg.Name == "secp256k1"
	// enc is the binary encoding by format definition (SEC1 uncompressed, or X||Y).
	enc := func(x, y *big.Int) []byte {
		b := make([]byte, 2*size)
		x.FillBytes(b[:size])
		y.FillBytes(b[size:])
		if secp {
			return b
		}
		return append([]byte{4}, b...)
	}
	// means is the element denoted by bytes.
	means := func(b []byte) string {
		if secp {
			if len(b) != 2*size {
				return ""
			}
			x, y := new(big.Int).SetBytes(b[:size]), new(big.Int).SetBytes(b[size:])
			t := x.String() + "," + y.String()
			if w.Member(t) {
				return t
			}
			return ""
		}
		switch {
		case len(b) == 1 && b[0] == 0:
			return "0,0"
		case len(b) == 1+2*size && b[0] == 4:
			x, y := new(big.Int).SetBytes(b[1:1+size]), new(big.Int).SetBytes(b[1+size:])
			t := x.String() + "," + y.String()
			if t != "0,0" && w.Member(t) {
				return t
			}
			return ""
		case len(b) == 1+size && (b[0] == 2 || b[0] == 3):
			return "?" // compressed form: may be refused, must be a member if accepted
		}
		return ""
	}
	ks := []int64{0, 1, 2, -1, 43, 122, 176, 379, 153, 197}
	if c.Thorough() {
		for i := int64(3); i < 40; i++ {
			ks = append(ks, i)
		}
		ks = append(ks, zeroCoord[rg.Name]...)
	}
	if rg.Name == "P-384" && !c.Thorough() {
		ks = []int64{0, 1, -1, 176, 197}
	}
	for _, k := range ks {
		k := k
		x, y := w.Point(rg.R.Comb(B(k), B(0), ""))
		c.Case(fmt.Sprintf("bytes/%s/%d", rg.Name, k), func() (string, error) {
			var base []byte
			if x == nil {
				base, _ = rg.G.Identity().MarshalBinary()
			} else {
				base = enc(x, y)
			}
			if err := tryBin(c, rg, base, means(base)); err != nil {
				return "", err
			}
			c.Validated(1)
			for i := 0; i < 8*len(base); i++ { // every bit
				b := bytes.Clone(base)
				b[i/8] ^= 1 << (i % 8)
				if err := tryBin(c, rg, b, means(b)); err != nil {
					return "", err
				}
				c.State(rg.Name + string(b))
			}
			for l := 0; l < len(base); l++ { // every truncation, from either side
				for _, b := range [][]byte{base[:l], base[len(base)-l:]} {
					if err := tryBin(c, rg, b, means(b)); err != nil {
						return "", err
					}
				}
			}
			for _, ext := range [][]byte{{0}, {4}, {0xff}, {0, 0, 0}, base} {
				for _, b := range [][]byte{append(bytes.Clone(base), ext...), append(bytes.Clone(ext), base...)} {
					if err := tryBin(c, rg, b, means(b)); err != nil {
						return "", err
					}
				}
			}
			for p := 0; p < 256; p++ { // every first byte, every constant string
				b := bytes.Clone(base)
				b[0] = byte(p)
				if err := tryBin(c, rg, b, means(b)); err != nil {
					return "", err
				}
				for _, l := range []int{1, 2, size, size + 1, 2 * size, 2*size + 1} {
					b := bytes.Repeat([]byte{byte(p)}, l)
					if err := tryBin(c, rg, b, means(b)); err != nil {
						return "", err
					}
				}
			}
			return "refused or right", constants(rg)
		})
		if x == nil {
			continue
		}
		c.Case(fmt.Sprintf("coords/%s/%d", rg.Name, k), func() (string, error) {
			alpha := map[string]*big.Int{"0": B(0), "1": B(1), "-1": B(-1), "x": x, "y": y, "-x": new(big.Int).Neg(x), "-y": new(big.Int).Neg(y), "p-y": sub(w.p, y), "p-x": sub(w.p, x),
				"x+p": add(x, w.p), "y+p": add(y, w.p), "p": w.p, "p-1": sub(w.p, B(1)), "p+1": add(w.p, B(1)), "2^8s": Pow2(8 * size), "2^8s-1": sub(Pow2(8*size), B(1)), "x+2^8s": add(x, Pow2(8*size)),
				"y+2^8s": add(y, Pow2(8*size)), "2^4000": Pow2(4000), "x<<8": new(big.Int).Lsh(x, 8), "x+1": add(x, B(1)), "y+1": add(y, B(1)), "x-p": sub(x, w.p), "y-p": sub(y, w.p)}
			for _, a := range sortedKeys(alpha) {
				for _, b := range sortedKeys(alpha) {
					u, v := alpha[a], alpha[b]
					t := u.String() + "," + v.String()
					want := ""
					if w.Member(t) {
						want = t
					}
					for _, f := range []string{`{"x":%v,"y":%v}`, ` { "y" : %[2]v , "x" : %[1]v } `} {
						if err := tryJSON(c, rg, fmt.Sprintf(f, u, v), want); err != nil {
							return "", vk.Errf("(%s,%s): %v", a, b, err)
						}
					}
					if want != "" && a == "0" {
						continue
					}
					for _, f := range []string{`{"x":"%v","y":%v}`, `{"x":%v,"y":"%v"}`, `{"x":%v,"y":%v`, `{"x":%v}`, `{"x":%v,"z":%v}`, `{"x":%v.5,"y":%v}`, `[%v,%v]`, `{"x":[%v],"y":[%v]}`, `{"x":%v,"y":null}`} {
						s := fmt.Sprintf(f, u, v)
						if i := strings.Index(s, "%!"); i >= 0 {
							s = s[:i]
						}
						if err := tryJSON(c, rg, s, ""); err != nil {
							return "", vk.Errf("(%s,%s): %v", a, b, err)
						}
					}
					if u.Sign() >= 0 && v.Sign() >= 0 && u.BitLen() <= 8*size && v.BitLen() <= 8*size {
						bs := enc(u, v)
						if err := tryBin(c, rg, bs, means(bs)); err != nil {
							return "", vk.Errf("(%s,%s): %v", a, b, err)
						}
					}
				}
			}
			full := fmt.Sprintf(`{"x":%v,"y":%v}`, x, y)
			for i := 0; i < len(full); i++ {
				if err := tryJSON(c, rg, full[:i], ""); err != nil {
					return "", err
				}
			}
			return "refused or right", constants(rg)
		})
	}
}

func c15Rist(c *vk.Ctx, rg RG, r *Rist) {
	b64 := func(b []byte) string { j, _ := json.Marshal(b); return string(j) }
	one := func(b []byte) error {
		want := hex.EncodeToString(b)
		if !r.Member(want) {
			want = ""
		}
		if err := tryBin(c, rg, b, want); err != nil {
			return err
		}
		c.State(rg.Name + string(b))
		return tryJSON(c, rg, b64(b), want)
	}
	ks := []int64{0, 1, 2, -1, 5, 6}
	if c.Thorough() {
		for i := int64(7); i < 40; i++ {
			ks = append(ks, i)
		}
	}
	for _, k := range ks {
		k := k
		c.Case(fmt.Sprintf("bytes/%s/%d", rg.Name, k), func() (string, error) {
			base, _ := hex.DecodeString(r.Comb(B(k), B(0), ""))
			c.Validated(1)
			if err := one(base); err != nil {
				return "", err
			}
			for i := 0; i < 256; i++ {
				b := bytes.Clone(base)
				b[i/8] ^= 1 << (i % 8)
				if err := one(b); err != nil {
					return "", err
				}
			}
			for l := 0; l < 32; l++ {
				if err := one(base[:l]); err != nil {
					return "", err
				}
				if err := one(base[32-l:]); l > 0 && err != nil {
					return "", err
				}
			}
			for _, ext := range [][]byte{{0}, {1}, {0xff}, make([]byte, 32), base} {
				if err := one(append(bytes.Clone(base), ext...)); err != nil {
					return "", err
				}
				if err := one(append(bytes.Clone(ext), base...)); err != nil {
					return "", err
				}
			}
			js := b64(base)
			for i := 0; i < len(js); i++ {
				if err := tryJSON(c, rg, js[:i], ""); err != nil {
					return "", err
				}
			}
			return "refused or right", constants(rg)
		})
	}
	// Numbers: s, s+p, -s, 2^255+s for small s; constant strings.
	le := func(v *big.Int) []byte {
		b := v.FillBytes(make([]byte, 32))
		for i := 0; i < 16; i++ {
			b[i], b[31-i] = b[31-i], b[i]
		}
		return b
	}
	for s := int64(0); s < 256; s += 16 {
		s := s
		c.Case(fmt.Sprintf("numbers/%s/%d", rg.Name, s), func() (string, error) {
			for i := s; i < s+16; i++ {
				for _, v := range []*big.Int{B(i), add(r.p, B(i)), sub(r.p, B(i)), add(Pow2(255), B(i)), sub(Pow2(256), B(i+1)), sub(Pow2(255), B(i+1)), mul(B(i), Pow2(248))} {
					if v.BitLen() > 256 {
						continue
					}
					if err := one(le(v)); err != nil {
						return "", err
					}
				}
				if err := one(bytes.Repeat([]byte{byte(i)}, 32)); err != nil {
					return "", err
				}
			}
			return "refused or right", nil
		})
	}
	c.Case("base64/"+rg.Name, func() (string, error) {
		base, _ := hex.DecodeString(r.Comb(B(3), B(0), ""))
		t := hex.EncodeToString(base)
		for _, s := range []string{base64.RawStdEncoding.EncodeToString(base), base64.URLEncoding.EncodeToString(base) + "=", t, base64.StdEncoding.EncodeToString(base) + "A"} {
			if err := tryJSON(c, rg, `"`+s+`"`, "?"); err != nil {
				return "", err
			}
		}
		// The same bytes as a list of numbers, or coordinates, are no encoding.
		var nums []string
		for _, b := range base {
			nums = append(nums, fmt.Sprint(b))
		}
		for _, s := range []string{"{" + `"x":1,"y":2}`, `{"x":"` + t + `"}`} {
			if err := tryJSON(c, rg, s, ""); err != nil {
				return "", err
			}
		}
		return "refused or right", tryJSON(c, rg, "["+strings.Join(nums, ",")+"]", "?")
	})
}

// c15Small: every byte string of up to two bytes and every integer of an interval.
func c15Small(c *vk.Ctx, rg RG) {
	means := func(v *big.Int) string {
		if rg.R.Member(v.String()) {
			return v.String()
		}
		return ""
	}
	c.Case("bytes0/"+rg.Name, func() (string, error) {
		if err := tryBin(c, rg, nil, ""); err != nil {
			return "", err
		}
		return "complete", tryBin(c, rg, []byte{}, "")
	})
	for hi := -1; hi < 256; hi++ {
		hi := hi
		c.Case(fmt.Sprintf("bytes/%s/%d", rg.Name, hi), func() (string, error) {
			for lo := 0; lo < 256; lo++ {
				in := []byte{byte(hi), byte(lo)}
				if hi < 0 {
					in = in[1:]
				}
				want := means(new(big.Int).SetBytes(in))
				if hi == 0 && want != "" {
					want = "?" // a leading zero byte may be refused
				}
				if err := tryBin(c, rg, in, want); err != nil {
					return "", err
				}
				c.State(rg.Name + string(in))
			}
			return "complete", nil
		})
	}
	p := rg.R.Field().Int64()
	for at := int64(-40); at < 3*p+40; at += 64 {
		at := at
		c.Case(fmt.Sprintf("ints/%s/%d", rg.Name, at), func() (string, error) {
			for i := at; i < at+64; i++ {
				if err := tryJSON(c, rg, fmt.Sprint(i), means(B(i))); err != nil {
					return "", err
				}
			}
			return "complete", constants(rg)
		})
	}
	c15Struct(c, rg)
}

func c15Struct(c *vk.Ctx, rg RG) {
	c.Case("struct/"+rg.Name, func() (string, error) {
		for _, s := range structFaults {
			if err := tryJSON(c, rg, s, ""); err != nil {
				return "", err
			}
		}
		return "refused", nil
	})
}

func c15Big(c *vk.Ctx, rg RG) {
	p := rg.R.Field()
	g := rg.R.(*Resid).g
	c15Struct(c, rg)
	var vals []*big.Int
	for i := int64(-20); i <= 20; i++ {
		vals = append(vals, B(i), add(p, B(i)), sub(mul(B(2), p), B(i)), sub(B(i), p), add(new(big.Int).Rsh(p, 1), B(i)))
	}
	for i := int64(1); i <= 12; i++ {
		e := new(big.Int).Exp(g, B(i*i*7919+i), p)
		vals = append(vals, e, sub(p, e), add(p, e), sub(e, p), new(big.Int).Neg(e), new(big.Int).Lsh(e, 8), add(e, B(1)), new(big.Int).ModInverse(e, p))
	}
	vals = append(vals, Pow2(p.BitLen()), sub(Pow2(p.BitLen()), B(1)), Pow2(20000))
	for i, v := range vals {
		v := v
		c.Case(fmt.Sprintf("values/%s/%d", rg.Name, i), func() (string, error) {
			want := ""
			if rg.R.Member(v.String()) {
				want = v.String()
			}
			c.State(rg.Name + v.String())
			if err := tryJSON(c, rg, v.String(), want); err != nil {
				return "", err
			}
			for _, f := range []string{`"%v"`, `[%v]`, `{"x":%v}`, `%v.0`, `%ve1`} {
				if err := tryJSON(c, rg, fmt.Sprintf(f, v), ""); err != nil {
					return "", err
				}
			}
			if v.Sign() < 0 {
				return "refused or right", nil
			}
			if err := tryBin(c, rg, v.Bytes(), want); err != nil {
				return "", err
			}
			if want != "" {
				want = "?"
			}
			if rg.Name == "MODP3072" {
				c.Validated(1)
			}
			return "refused or right", tryBin(c, rg, append(make([]byte, 3), v.Bytes()...), want)
		})
	}
}

var _ group.Group
