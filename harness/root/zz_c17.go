package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	"github.com/takakv/msc-poc/voteproof"
	"github.com/takakv/msc-poc/zzverif/checks"
	"github.com/takakv/msc-poc/zzverif/pt"
	"github.com/takakv/msc-poc/zzverif/vk"
)

func init() {
	zChecks["C17"] = zC17
	vk.Describe("C17", "one case = all schedules of two operations on shared objects with one preemption at every statement of the repository's code and every ideal-group operation (thorough: two preemptions, strided), a sequence of operations in a fresh process, or all continuations of a sequence in one process; every result is compared with that of the operation run alone in a fresh process, and the shared objects with their initial value",
		"statements are atomic (interleavings inside one statement are left to the race detector's pass)",
		"math/big, circl and the other dependencies are thread-safe on distinct receivers")
	if b := os.Getenv("VK_C17BASE"); b != "" {
		zBaseline(b)
		os.Exit(0)
	}
	if os.Getenv("VK_C17RACE") != "" {
		zRace()
		os.Exit(0)
	}
}

// zShared is what the operations share.
type zShared struct {
	name   string
	n      int
	pp     PublicParameters
	bp     bulletproofs.BulletProof
	bad    bulletproofs.BulletProof
	multi  bulletproofs.MultiBulletProof
	ballot BallotData
	bjson  []byte
	badB   BallotData
	vp     voteproof.SigmaProof
	vc     voteproof.VerCommitments
	secret *big.Int
	rs     [3]*big.Int
	els    []group.Element
	enc    [][]byte
	js     [][]byte
	ips    []zIP
	tail   string // digest of the groups themselves
}

// zIP is an inner-product statement with its proof.
type zIP struct {
	A, B   []*big.Int
	C      *big.Int
	P      group.Element
	Params bulletproofs.InnerProductParams
	Proof  bulletproofs.InnerProductProof
}

// zIPs makes statements with zero, one and other entries, the proof made from copies.
func zIPs(g group.Group, n int) []zIP {
	q := g.N()
	shapes := [][2][]int64{{{0}, {0}}, {{1}, {0}}, {{1, 0}, {0, 1}}, {{0, 0}, {0, 0}}, {{1, 1}, {1, -1}}, {{3, 1}, {2, 5}}, {{-1, 0}, {0, -1}}}
	if n > 1 {
		shapes = append(shapes, [2][]int64{{1, 0, 0, 0}, {0, 0, 1, 0}}, [2][]int64{{0, 0, 0, 0}, {1, 2, 3, 4}}, [2][]int64{{5, 6, 7, 8}, {1, 1, 1, 1}})
	}
	var out []zIP
	for _, sh := range shapes {
		var x zIP
		c := new(big.Int)
		mk := func(s []int64) (v []*big.Int) {
			for _, i := range s {
				v = append(v, new(big.Int).Mod(big.NewInt(i), q))
			}
			return
		}
		x.A, x.B = mk(sh[0]), mk(sh[1])
		for i := range x.A {
			c.Add(c, new(big.Int).Mul(x.A[i], x.B[i]))
		}
		x.C = c.Mod(c, q)
		var err error
		x.Params, err = bulletproofs.ZSetupIP(nil, nil, int64(len(x.A)), g)
		zMust(err)
		x.P = bulletproofs.ZCommitIP(x.Params.Gg, x.Params.Hh, x.A, x.B, g)
		x.Proof, err = bulletproofs.ZProveIP(mk(sh[0]), mk(sh[1]), g.Element().Set(x.P), new(big.Int).Set(x.C), x.Params)
		zMust(err)
		out = append(out, x)
	}
	return out
}

var zShareds = map[string]*zShared{}

// zShare builds (once) the shared objects of a configuration.
func zShare(name string) *zShared {
	if s, ok := zShareds[name]; ok {
		return s
	}
	P := pt.P
	pt.P = nil
	defer func() { pt.P = P }()
	var ff, ec group.Group
	n, lo, hi := 2, uint16(101), uint16(104)
	f := strings.Split(name, "-")
	switch f[0] {
	case "ideal":
		ff, ec = zFF, zEC
	case "idealB":
		ff, ec = vk.NewIdeal("idealff", checks.NFF), vk.NewIdeal("ideal256", checks.Q256)
	case "P256":
		ff, ec = checks.SafeGroup(checks.Safe320), group.P256()
	case "P384":
		ff, ec = checks.SafeGroup(checks.Safe320), group.P384()
	case "R255":
		ff, ec = checks.SafeGroup(checks.Safe320), group.Ristretto255()
	case "K256":
		ff, ec = checks.SafeGroup(checks.Safe320), group.SecP256k1()
	}
	fmt.Sscan(f[1], &n)
	if n != 2 {
		lo, hi = 7, 7+uint16(1)<<uint(n)-1
	}
	vk.Fresh(checks.Seed("share"))
	s := &zShared{name: name, n: n}
	bp, err := bulletproofs.Setup(1<<uint(n), ec)
	zMust(err)
	var fp, ep voteproof.GroupParameters
	pk := ff.Element().BaseScale(big.NewInt(int64(12 + n)))
	fp.I, fp.F, fp.N, fp.G, fp.H = ff, ff.P(), ff.N(), ff.Generator(), pk
	ep.I, ep.F, ep.N, ep.G, ep.H = ec, ff.P(), ec.N(), ec.Generator(), bp.H
	bits := ec.N().BitLen()
	if b := ff.N().BitLen() - 1; b < bits {
		bits = b
	}
	rp, err := voteproof.Setup(16, 224, uint16(bits), lo, hi, voteproof.AlgebraicParameters{GFF: fp, GEC: ep})
	zMust(err)
	s.pp = PublicParameters{FFGroupParams: fp, ECGroupParams: ep, EGPK: pk, candidateMin: lo, candidateMax: hi, BPParams: bp, RPParams: rp}
	s.bp, _, err = bulletproofs.Prove(big.NewInt(1), bp)
	zMust(err)
	s.bad = s.bp
	s.bad.Taux = new(big.Int).Add(s.bp.Taux, big.NewInt(1))
	var vs []*big.Int
	if n >= 2 {
		vs = []*big.Int{big.NewInt(1), big.NewInt(0)}
	} else {
		vs = []*big.Int{big.NewInt(1)}
	}
	s.multi, _, err = bulletproofs.MultiProve(vs, bp)
	zMust(err)
	s.ballot = zDoCast(s.pp)
	s.bjson, err = json.Marshal(s.ballot)
	zMust(err)
	s.badB = s.ballot
	s.badB.Ballot.V = ff.Element().Add(s.ballot.Ballot.V, ff.Generator())
	s.secret = big.NewInt(int64(lo) + 1)
	s.rs = [3]*big.Int{big.NewInt(11), big.NewInt(22), big.NewInt(33)}
	s.vp = voteproof.Prove(s.secret, s.rs[0], s.rs[1], s.rs[2], rp)
	s.vc = voteproof.VerCommitments{Y: ff.Element().BaseScale(s.rs[0]), Xp: checks.Commit(ff, pk, s.secret, s.rs[0]),
		Xq1: checks.Commit(ec, bp.H, s.secret, s.rs[1]), Xq2: checks.Commit(ec, bp.H, s.secret, s.rs[2])}
	for _, g := range []group.Group{ec, ff} {
		a := g.Element().BaseScale(big.NewInt(5))
		s.els = append(s.els, g.Generator(), g.Identity(), a, g.Element().Add(a, g.Generator()))
	}
	for _, e := range s.els {
		b, err := e.MarshalBinary()
		zMust(err)
		j, err := e.MarshalJSON()
		zMust(err)
		s.enc, s.js = append(s.enc, b), append(s.js, j)
	}
	s.ips = zIPs(ec, n)
	zShareds[name] = s
	return s
}

func zMust(err error) {
	if err != nil {
		panic(err)
	}
}

// zObserve renders everything shared, by value.
func (s *zShared) zObserve() string {
	var w strings.Builder
	zDump(&w, reflect.ValueOf(s.pp), 0)
	for _, x := range []any{s.bp, s.bad, s.multi, s.ballot, s.badB, s.vp, s.vc, s.secret, s.rs, s.els, s.ips} {
		zDump(&w, reflect.ValueOf(x), 0)
	}
	fmt.Fprintf(&w, "%x %x %x %d %d", s.bjson, s.enc, s.js, s.pp.candidateMin, s.pp.candidateMax)
	for _, g := range []group.Group{s.pp.ECGroupParams.I, s.pp.FFGroupParams.I} {
		fmt.Fprint(&w, g.Name(), g.N(), g.P(), g.Generator(), g.Identity(), g.Element().BaseScale(big.NewInt(7)), g.Element().GroupOrder(), g.Element().FieldOrder())
	}
	return w.String()
}

// zDump renders a value through its exported fields; elements and numbers by value.
func zDump(w *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *vk.IElem:
			if x == nil {
				w.WriteString("nil;")
			} else {
				w.WriteString(x.Text() + ";")
			}
			return
		case group.Group:
			if x != nil {
				w.WriteString(x.Name() + ";")
				return
			}
		case group.Element:
			if x != nil {
				w.WriteString(x.String() + ";")
				return
			}
		case *big.Int:
			if x == nil {
				w.WriteString("nil;")
			} else {
				w.WriteString(x.Text(62) + ";")
			}
			return
		case big.Int:
			w.WriteString(x.Text(62) + ";")
			return
		case time.Duration, []time.Duration, time.Time:
			return
		case error:
			if x != nil {
				w.WriteString("error;") // texts are free
				return
			}
		case []byte:
			fmt.Fprintf(w, "%x;", x)
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil;")
			return
		}
		zDump(w, v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				w.WriteString(v.Type().Field(i).Name + ":")
				zDump(w, v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		w.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			zDump(w, v.Index(i), depth+1)
		}
		w.WriteString("]")
	case reflect.Bool, reflect.String, reflect.Int, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Uint64, reflect.Int8, reflect.Int16:
		fmt.Fprint(w, v.Interface(), ";")
	}
}

var (
	zRacing bool
	zMapN   atomic.Int64
)

// zOp is one operation on the shared objects; it returns what is compared.
type zOp struct {
	name string
	run  func(s *zShared) []any
}

var zOps = []zOp{
	{"prove", func(s *zShared) []any {
		p, r, err := bulletproofs.Prove(big.NewInt(2%(1<<uint(s.n))), s.pp.BPParams)
		return []any{p, r, err}
	}},
	{"verify", func(s *zShared) []any {
		a, err := s.bp.Verify()
		return []any{a, err}
	}},
	{"verifybad", func(s *zShared) []any {
		b, err := s.bad.Verify()
		return []any{b, err}
	}},
	{"cast", func(s *zShared) []any {
		b := zDoCast(s.pp)
		return []any{b}
	}},
	{"collect", func(s *zShared) []any {
		ok := zDoVerify(s.ballot, s.pp.RPParams)
		return []any{ok}
	}},
	{"collectbad", func(s *zShared) []any {
		ok := zDoVerify(s.badB, s.pp.RPParams)
		return []any{ok}
	}},
	{"decode", func(s *zShared) []any {
		b, err := BallotDataUnmarshalJSON(s.bjson, s.pp)
		if err != nil {
			return []any{err}
		}
		return []any{b, err}
	}},
	{"mprove", func(s *zShared) []any {
		v := []*big.Int{big.NewInt(1), big.NewInt(0)}
		if s.n < 2 {
			v = v[:1]
		}
		p, rs, err := bulletproofs.MultiProve(v, s.pp.BPParams)
		return []any{p, rs, err}
	}},
	{"mverify", func(s *zShared) []any {
		ok, err := s.multi.Verify()
		return []any{ok, err}
	}},
	{"eqprove", func(s *zShared) []any {
		return []any{voteproof.Prove(s.secret, s.rs[0], s.rs[1], s.rs[2], s.pp.RPParams)}
	}},
	{"eqverify", func(s *zShared) []any {
		return []any{s.vp.Verify(s.vc)}
	}},
	{"encode", func(s *zShared) []any {
		j, err := json.Marshal(s.ballot)
		return []any{j, err}
	}},
	{"ipprove", func(s *zShared) []any {
		var out []any
		for _, x := range s.ips {
			p, err := bulletproofs.ZProveIP(x.A, x.B, x.P, x.C, x.Params)
			out = append(out, p, err)
		}
		return out
	}},
	{"ipverify", func(s *zShared) []any {
		var out []any
		for _, x := range s.ips {
			ok, err := x.Proof.Verify()
			out = append(out, ok, err)
		}
		return out
	}},
	{"vectors", func(s *zShared) []any {
		var out []any
		g := s.pp.ECGroupParams.I
		for _, x := range s.ips {
			e, err := bulletproofs.VectorExp(x.Params.Gg, x.A, g)
			f, err2 := bulletproofs.VectorECAdd(x.Params.Gg, x.Params.Hh, g)
			sp, err3 := bulletproofs.ScalarProduct(x.A, x.B, g)
			va, err4 := bulletproofs.VectorAdd(x.A, x.B, g.N())
			vm, err5 := bulletproofs.VectorMul(x.A, x.B, g.N())
			vs, err6 := bulletproofs.VectorScalarMul(x.A, x.B[0], g.N())
			out = append(out, e, err, f, err2, sp, err3, va, err4, vm, err5, vs, err6)
		}
		return out
	}},
	{"map", func(s *zShared) []any {
		var out []any
		for k := 0; k < 3; k++ {
			t := fmt.Sprint("a label ", k)
			if zRacing {
				t += fmt.Sprint(zMapN.Add(1)) // labels nobody used before
			}
			e, err := s.pp.ECGroupParams.I.Element().MapToGroup(t)
			out = append(out, e, err)
		}
		for _, g := range checks.Curves() {
			out = append(out, g.Name(), g.N(), g.Generator(), g.Identity())
		}
		f := checks.SafeGroup(checks.Safe64)
		return append(out, f.Name(), f.N(), f.P(), f.Generator(), f.Identity())
	}},
	{"setup", func(s *zShared) []any {
		p, err := bulletproofs.Setup(1<<uint(s.n), s.pp.ECGroupParams.I)
		q, err2 := voteproof.Setup(16, 224, 256, 1, 9, s.pp.RPParams.AlgebraicParameters)
		return []any{p, err, q, err2}
	}},
	{"elements", func(s *zShared) []any { // every element operation on shared operands
		var out []any
		for k := 0; k < 2; k++ {
			g := s.pp.ECGroupParams.I
			if k == 1 {
				g = s.pp.FFGroupParams.I
			}
			for i := 4 * k; i < 4*k+4; i++ {
				a, b := s.els[i], s.els[4*k+(i+1)%4]
				out = append(out, g.Element().Add(a, b), g.Element().Subtract(a, b), g.Element().Negate(a), g.Element().Scale(a, big.NewInt(3)),
					g.Element().BaseScale(big.NewInt(int64(i))), a.IsEqual(b), a.IsIdentity(), a.String(), g.Element().Set(a))
			}
		}
		return out
	}},
	{"codec", func(s *zShared) []any {
		var out []any
		for k := 0; k < 2; k++ {
			g := s.pp.ECGroupParams.I
			if k == 1 {
				g = s.pp.FFGroupParams.I
			}
			for i := 4 * k; i < 4*k+4; i++ {
				b, err := s.els[i].MarshalBinary()
				j, err2 := s.els[i].MarshalJSON()
				e, f := g.Generator(), g.Generator()
				err3, err4 := e.UnmarshalBinary(s.enc[i]), f.UnmarshalJSON(s.js[i])
				out = append(out, b, err, j, err2, e, err3, f, err4)
			}
		}
		return out
	}},
	{"overwrite", func(s *zShared) []any { // results written over elements a caller obtained
		var out []any
		for k := 0; k < 2; k++ {
			g := s.pp.ECGroupParams.I
			if k == 1 {
				g = s.pp.FFGroupParams.I
			}
			for i := 4 * k; i < 4*k+4; i++ {
				for m := 0; m < 7; m++ {
					e := g.Generator()
					if m%2 == 1 {
						e = g.Identity()
					}
					if m == 6 {
						e = g.Element().Set(s.els[i])
					}
					switch m {
					case 0:
						e.Add(e, s.els[i])
					case 1:
						e.Subtract(e, s.els[i])
					case 2, 6:
						e.Scale(e, big.NewInt(9))
					case 3:
						e.Negate(s.els[i])
					case 4:
						e.Set(s.els[i])
						e.Add(e, e)
					case 5:
						e.BaseScale(big.NewInt(4))
					}
					out = append(out, e)
				}
			}
		}
		return out
	}},
}

func zOpBy(name string) zOp {
	for _, o := range zOps {
		if o.name == name {
			return o
		}
	}
	panic("no operation " + name)
}

// zRender turns an outcome into text.
func zRender(r []any, err error) string {
	if err != nil {
		return "panic: " + strings.SplitN(err.Error(), "\n", 2)[0]
	}
	var w strings.Builder
	for _, x := range r {
		zDump(&w, reflect.ValueOf(x), 0)
		w.WriteString("|")
	}
	return w.String()
}

func zHash(s string) string { return fmt.Sprintf("%016x", checks.Seed(s)) }

// zDo runs one operation alone with its own randomness.
func zDo(s *zShared, o zOp) string {
	st := vk.Fresh(checks.Seed("op/" + o.name))
	st.Limit = 100000
	var r []any
	err := vk.Guard(func() error { r = o.run(s); return nil })
	return zRender(r, err)
}

// zBaseline (fresh process): "env/op,env/op,...": runs the sequence and prints the hash of
// every result and of the shared objects at the end.
func zBaseline(seq string) {
	steps := strings.Split(seq, ",")
	var used []*zShared
	for _, st := range steps {
		e, _, _ := strings.Cut(st, "/")
		used = append(used, zShare(e))
	}
	before := make([]string, len(used))
	for i, s := range used {
		before[i] = s.zObserve()
	}
	for i, st := range steps {
		_, o, _ := strings.Cut(st, "/")
		fmt.Println("R", zHash(zDo(used[i], zOpBy(o))))
	}
	for i, s := range used {
		a := s.zObserve()
		fmt.Println("S", zHash(a), a == before[i])
	}
}

// zFresh runs a sequence in a fresh process; results and whether the shared objects kept
// their values.
func zFresh(seq string) ([]string, bool, error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "C17")
	cmd.Env = append(os.Environ(), "VK_C17BASE="+seq, "VK_WORKER=", "GOMAXPROCS=1")
	out, err := cmd.Output()
	if err != nil {
		return nil, false, vk.Errf("sequence %s: process failed: %v", seq, err)
	}
	var rs []string
	same := true
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "R" {
			rs = append(rs, f[1])
		}
		if len(f) == 3 && f[0] == "S" && f[2] != "true" {
			same = false
		}
	}
	if len(rs) != strings.Count(seq, ",")+1 {
		return nil, false, vk.Errf("sequence %s: %d results", seq, len(rs))
	}
	return rs, same, nil
}

var zBase = map[string]string{}

// zAlone is the result of an operation run alone in a fresh process.
func zAlone(env, op string) (string, error) {
	k := env + "/" + op
	if r, ok := zBase[k]; ok {
		return r, nil
	}
	rs, same, err := zFresh(k)
	if err != nil {
		return "", err
	}
	if !same {
		return "", vk.Errf("%s alters shared parameters, arguments or groups", k)
	}
	zBase[k] = rs[0]
	return rs[0], nil
}

// zDuo runs two operations under one schedule. It returns the number of points passed.
func zDuo(c *vk.Ctx, env string, a, b string, first int, sw []vk.Switch) ([2]int, error) {
	s := zShare(env)
	ops := [2]zOp{zOpBy(a), zOpBy(b)}
	var res [2][]any
	var errs [2]error
	sc := &vk.Sched{First: first, Sw: sw}
	pt.P = sc.Point
	zFF.Point = func(string) { sc.Point() }
	zEC.Point = zFF.Point
	err := sc.Run([2]uint64{checks.Seed("op/" + a), checks.Seed("op/" + b)}, [2]func(){
		func() { errs[0] = vk.Guard(func() error { res[0] = ops[0].run(s); return nil }) },
		func() { errs[1] = vk.Guard(func() error { res[1] = ops[1].run(s); return nil }) },
	})
	pt.P, zFF.Point, zEC.Point = nil, nil, nil
	c.Trans(1)
	if sc.Free {
		c.Note("schedules given up because a thread blocked", 1)
	}
	if err != nil {
		return sc.Count, vk.Errf("%s with %s: %v", a, b, err)
	}
	for t, op := range []string{a, b} {
		want, err := zAlone(env, op)
		if err != nil {
			return sc.Count, err
		}
		if got := zRender(res[t], errs[t]); zHash(got) != want {
			return sc.Count, vk.Errf("%s: result of %s differs when %s runs concurrently (start %d, switches %v): %.200s", env, op, []string{b, a}[t], first, sw, got)
		}
	}
	return sc.Count, nil
}

// zCalm checks the shared objects after a case.
func zCalm(env, before string) error {
	if after := zShare(env).zObserve(); after != before {
		i := 0
		for i < len(after) && i < len(before) && after[i] == before[i] {
			i++
		}
		return vk.Errf("%s: shared parameters, arguments or groups changed near %.120s", env, after[max(0, i-40):])
	}
	return nil
}

func zC17(c *vk.Ctx) {
	names := make([]string, len(zOps))
	for i, o := range zOps {
		names[i] = o.name
	}
	// Operations made of parts of others: fewer combinations in the quick tier.
	small := map[string]bool{"ipprove": true, "ipverify": true, "vectors": true, "map": true}
	// Operations alone: same result twice, nothing modified.
	envs := []string{"ideal-2", "ideal-1", "ideal-4", "idealB-2", "P256-2", "P384-1", "R255-2", "K256-2"}
	for _, env := range envs {
		for _, o := range names {
			env, o := env, o
			c.Case("alone/"+env+"/"+o, func() (string, error) {
				rs, same, err := zFresh(env + "/" + o + "," + env + "/" + o + "," + env + "/" + o)
				if err != nil {
					return "", err
				}
				c.Trans(3)
				c.State("alone|" + env + "|" + o + "|" + rs[0])
				if !same {
					return "", vk.Errf("%s/%s alters shared parameters, arguments or groups", env, o)
				}
				if rs[0] != rs[1] || rs[1] != rs[2] {
					return "", vk.Errf("%s/%s: repeated, it gives another result", env, o)
				}
				if env[:5] != "ideal" {
					c.Validated(1)
				}
				return "same when repeated", nil
			})
		}
	}
	// Verdicts themselves.
	for _, env := range envs {
		env := env
		c.Case("verdicts/"+env, func() (string, error) {
			s := zShare(env)
			for i := 0; i < 3; i++ {
				for _, t := range []struct {
					op, want string
				}{{"verify", "true;|"}, {"verifybad", "false;|"}, {"collect", "true;|"}, {"collectbad", "false;|"}, {"mverify", "true;|"}, {"eqverify", "true;|"}, {"ipverify", strings.Repeat("true;||", len(s.ips))}} {
					if got := zDo(s, zOpBy(t.op)); !strings.HasPrefix(got, t.want) {
						return "", vk.Errf("%s: %s gives %s, expected %s", env, t.op, got, t.want)
					}
					c.Trans(1)
				}
			}
			return "verdicts as expected", nil
		})
	}
	zMixes(c, []string{"ideal-2", "ideal-4", "P256-2", "R255-1", "K256-1", "P384-1"})
	// Free-running pass under the race detector.
	if bin := os.Getenv("VK_RACEBIN"); bin != "" {
		for _, env := range []string{"P256-1", "P384-1", "R255-1", "K256-1"} {
			env := env
			c.Case("race/"+env, func() (string, error) {
				cmd := exec.Command(bin, "C17")
				cmd.Env = append(os.Environ(), "VK_C17RACE="+env, "VK_WORKER=", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
				var eb strings.Builder
				cmd.Stderr, cmd.Stdout = &eb, &eb
				err := cmd.Run()
				if err == nil {
					c.Validated(1)
					return "no data race", nil
				}
				if strings.Contains(eb.String(), "DATA RACE") {
					return "", vk.Errf("data race between operations on shared objects: %.900s", eb.String()[strings.Index(eb.String(), "DATA RACE"):])
				}
				if strings.Contains(eb.String(), "C17RACE-VERDICT") {
					return "", vk.Errf("wrong result when operations run concurrently: %.500s", eb.String()[strings.Index(eb.String(), "C17RACE-VERDICT"):])
				}
				c.Note("race detector not usable here", 1)
				return "race detector not usable here", nil
			})
		}
	}
	// Histories in fresh processes.
	type st struct{ env, op string }
	var alpha []st
	for _, e := range []string{"ideal-2", "ideal-4", "idealB-2", "P256-2"} {
		for _, o := range []string{"prove", "verify", "cast", "collect", "collectbad", "decode", "mprove", "mverify", "eqprove", "setup", "overwrite", "ipprove", "ipverify"} {
			if o[:2] == "ip" && e != "ideal-2" && e != "P256-2" && !c.Thorough() {
				continue
			}
			alpha = append(alpha, st{e, o})
		}
	}
	for _, x := range alpha {
		x := x
		for _, e := range []string{"ideal-2", "ideal-4", "P256-2", "P384-1", "R255-2", "K256-2"} {
			e := e
			c.Case("history2/"+x.env+"/"+x.op+"/"+e, func() (string, error) {
				for _, o := range names {
					if small[o] && x.op != "setup" && x.op != "overwrite" && x.op[:2] != "ip" && !c.Thorough() {
						continue
					}
					if err := zSeq(c, []string{x.env + "/" + x.op, e + "/" + o}); err != nil {
						return "", err
					}
				}
				return "same after another operation", nil
			})
		}
	}
	if c.Thorough() {
		for _, x := range alpha {
			for _, y := range alpha {
				x, y := x, y
				c.Case("history3/"+x.env+"/"+x.op+"/"+y.env+"/"+y.op, func() (string, error) {
					for _, z := range []string{"ideal-2/cast", "ideal-2/collect", "P256-2/verify", "P256-2/decode", "K256-2/cast", "R255-2/collect"} {
						if err := zSeq(c, []string{x.env + "/" + x.op, y.env + "/" + y.op, z}); err != nil {
							return "", err
						}
					}
					return "same after two other operations", nil
				})
			}
		}
	}
	// Histories in one process: every sequence of operations to a depth.
	depth := int(zt(c.Thorough(), 4, 3))
	for _, x := range names {
		x := x
		c.Case(fmt.Sprintf("inprocess/depth=%d/%s", depth, x), func() (string, error) {
			es := []string{"ideal-2", "ideal-1"}
			var before []string
			for _, e := range es {
				before = append(before, zShare(e).zObserve())
			}
			k := 0
			var walk func(d int) error
			walk = func(d int) error {
				for _, o := range names {
					if d == 1 {
						o = x
					}
					e := es[k%len(es)]
					k++
					got := zDo(zShare(e), zOpBy(o))
					c.Trans(1)
					want, err := zAlone(e, o)
					if err != nil {
						return err
					}
					if zHash(got) != want {
						return vk.Errf("%s/%s gives another result after %d earlier operations: %.200s", e, o, k-1, got)
					}
					if d < depth {
						if err := walk(d + 1); err != nil {
							return err
						}
					}
					if d == 1 {
						break
					}
				}
				return nil
			}
			if err := walk(1); err != nil {
				return "", err
			}
			for i, e := range es {
				if err := zCalm(e, before[i]); err != nil {
					return "", err
				}
			}
			return "same after many operations", nil
		})
	}
	// Schedules: one preemption at every point, both starting threads.
	pairs := func(env string, list []string, stride int, both bool) {
		for i, a := range list {
			for j, b := range list {
				if j < i && !both {
					continue
				}
				if a != b && !c.Thorough() && (small[a] && !small[b] && b != "overwrite" && b != "setup" || small[b] && !small[a] && a != "overwrite" && a != "setup" && a != "prove") {
					continue
				}
				a, b := a, b
				c.Case(fmt.Sprintf("schedules/%s/%s+%s", env, a, b), func() (string, error) {
					before := zShare(env).zObserve()
					cnt, err := zDuo(c, env, a, b, 0, nil)
					if err != nil {
						return "", err
					}
					cnt2, err := zDuo(c, env, a, b, 1, nil)
					if err != nil {
						return "", err
					}
					for t, n := range []int{cnt[0], cnt2[1]} {
						for k := 0; k < n; k += stride {
							if _, err := zDuo(c, env, a, b, t, []vk.Switch{{T: t, At: k}}); err != nil {
								return "", err
							}
							c.State(fmt.Sprintf("sch|%s|%s|%s|%d|%d", env, a, b, t, k))
						}
					}
					c.Note("points "+env, cnt[0]+cnt2[1])
					if env[:5] != "ideal" {
						c.Validated(1)
					}
					return "same under every schedule with one preemption", zCalm(env, before)
				})
			}
		}
	}
	pairs("ideal-1", names, 1, false)
	if c.Thorough() {
		pairs("ideal-2", names, 1, false)
	}
	real := []string{"prove", "verify", "cast", "collect", "decode", "elements", "codec", "overwrite"}
	for _, e := range []string{"P256-1", "R255-1", "K256-1", "P384-1"} {
		pairs(e, real[5:], int(zt(c.Thorough(), 1, 3)), false)
		pairs(e, real[:5], int(zt(c.Thorough(), 2, 25)), false)
	}
	// Two preemptions.
	s2 := int(zt(c.Thorough(), 2, 12))
	for _, ab := range [][2]string{{"verify", "verify"}, {"prove", "verify"}, {"prove", "prove"}, {"cast", "collect"}, {"collect", "collect"}, {"decode", "collect"}, {"eqprove", "eqprove"},
		{"eqverify", "eqverify"}, {"overwrite", "elements"}, {"codec", "codec"}, {"mprove", "mverify"}, {"cast", "cast"}} {
		ab := ab
		for r := 0; r < 8; r++ {
			r := r
			c.Case(fmt.Sprintf("schedules2/ideal-1/%s+%s/%d", ab[0], ab[1], r), func() (string, error) {
				before := zShare("ideal-1").zObserve()
				cnt, err := zDuo(c, "ideal-1", ab[0], ab[1], 0, nil)
				if err != nil {
					return "", err
				}
				st := s2
				for (cnt[0]/st)*(cnt[1]/st) > int(zt(c.Thorough(), 60000, 3000)) {
					st++
				}
				for i := r * st; i < cnt[0]; i += 8 * st {
					for j := 0; j < cnt[1]; j += st {
						if _, err := zDuo(c, "ideal-1", ab[0], ab[1], 0, []vk.Switch{{T: 0, At: i}, {T: 1, At: j}}); err != nil {
							return "", err
						}
					}
				}
				return "same under every explored schedule with two preemptions", zCalm("ideal-1", before)
			})
		}
	}
}

// zSub is something with a verdict, and its parts.
type zSub struct {
	verdict func() bool
	e       map[string]func() (group.Group, *group.Element)
	s       map[string]func() **big.Int
}

// zSubjects are the kinds of things with a verdict, each made anew.
var zSubjects = map[string]func(s *zShared, seed uint64) zSub{
	"ballot": func(s *zShared, seed uint64) zSub {
		vk.Fresh(seed).Limit = 100000
		b := zDoCast(s.pp)
		b = zClone(b)
		x := zSub{func() bool { ok := zDoVerify(b, s.pp.RPParams); return ok }, map[string]func() (group.Group, *group.Element){}, map[string]func() **big.Int{}}
		for _, sl := range zSlots(b) {
			sl := sl
			if sl.e != nil {
				g := s.pp.ECGroupParams.I
				if sl.ff {
					g = s.pp.FFGroupParams.I
				}
				x.e[sl.name] = func() (group.Group, *group.Element) { return g, sl.e(&b) }
			} else {
				x.s[sl.name] = func() **big.Int { return sl.s(&b) }
			}
		}
		return x
	},
	"single": func(s *zShared, seed uint64) zSub {
		vk.Fresh(seed).Limit = 100000
		p, _, err := bulletproofs.Prove(big.NewInt(1), s.pp.BPParams)
		zMust(err)
		q := checks.FromSingle(p).Clone()
		p.InnerProductProof.L, p.InnerProductProof.R = q.IPP.L, q.IPP.R
		f := zBP1{&p.V, &p.A, &p.S, &p.T1, &p.T2, &p.InnerProductProof.P, &p.Taux, &p.Mu, &p.Tprime, &p.InnerProductProof.Cc, &p.InnerProductProof.A, &p.InnerProductProof.B,
			p.InnerProductProof.L, p.InnerProductProof.R}
		x := zSub{func() bool { ok, err := p.Verify(); return ok && err == nil }, map[string]func() (group.Group, *group.Element){}, map[string]func() **big.Int{}}
		for _, cm := range checks.Comps(q) {
			cm := cm
			if cm.E != nil {
				x.e[cm.Name] = func() (group.Group, *group.Element) { return s.pp.ECGroupParams.I, f.elem(cm.Name) }
			} else {
				x.s[cm.Name] = func() **big.Int { return f.scal(cm.Name) }
			}
		}
		return x
	},
	"aggregate": func(s *zShared, seed uint64) zSub {
		vk.Fresh(seed).Limit = 100000
		vs := []*big.Int{big.NewInt(1), big.NewInt(0)}
		if s.n < 2 {
			vs = vs[:1]
		}
		p, _, err := bulletproofs.MultiProve(vs, s.pp.BPParams)
		zMust(err)
		q := checks.FromMulti(p).Clone()
		p.Vs, p.InnerProductProof.L, p.InnerProductProof.R = q.Vs, q.IPP.L, q.IPP.R
		f := zBP1{nil, &p.A, &p.S, &p.T1, &p.T2, &p.InnerProductProof.P, &p.Taux, &p.Mu, &p.Tprime, &p.InnerProductProof.Cc, &p.InnerProductProof.A, &p.InnerProductProof.B,
			p.InnerProductProof.L, p.InnerProductProof.R}
		x := zSub{func() bool { ok, err := p.Verify(); return ok && err == nil }, map[string]func() (group.Group, *group.Element){}, map[string]func() **big.Int{}}
		for i := range p.Vs {
			i := i
			x.e[fmt.Sprint("V", i)] = func() (group.Group, *group.Element) { return s.pp.ECGroupParams.I, &p.Vs[i] }
		}
		for _, cm := range checks.Comps(q) {
			cm := cm
			if cm.E != nil && cm.Name[0] != 'V' {
				x.e[cm.Name] = func() (group.Group, *group.Element) { return s.pp.ECGroupParams.I, f.elem(cm.Name) }
			} else if cm.S != nil {
				x.s[cm.Name] = func() **big.Int { return f.scal(cm.Name) }
			}
		}
		return x
	},
	"equality": func(s *zShared, seed uint64) zSub {
		vk.Fresh(seed).Limit = 100000
		r := func(i int64) *big.Int { return big.NewInt(int64(seed%100000)*16 + i) }
		ff, ec := s.pp.FFGroupParams.I, s.pp.ECGroupParams.I
		a := checks.VPAll{P: voteproof.Prove(s.secret, r(1), r(2), r(3), s.pp.RPParams), C: voteproof.VerCommitments{Y: ff.Element().BaseScale(r(1)), Xp: checks.Commit(ff, s.pp.EGPK, s.secret, r(1)),
			Xq1: checks.Commit(ec, s.pp.BPParams.H, s.secret, r(2)), Xq2: checks.Commit(ec, s.pp.BPParams.H, s.secret, r(3))}}
		x := zSub{func() bool { return a.P.Verify(a.C) }, map[string]func() (group.Group, *group.Element){}, map[string]func() **big.Int{}}
		for _, cm := range checks.VPComps() {
			cm := cm
			if cm.E != nil {
				g := ec
				if cm.FF {
					g = ff
				}
				x.e[cm.Name] = func() (group.Group, *group.Element) { return g, cm.E(&a) }
			} else {
				x.s[cm.Name] = func() **big.Int { return cm.S(&a) }
			}
		}
		return x
	},
	"inner": func(s *zShared, seed uint64) zSub {
		vk.Fresh(seed).Limit = 100000
		g := s.pp.ECGroupParams.I
		t, err := bulletproofs.ZSetupIP(nil, nil, int64(s.n), g)
		zMust(err)
		var a, b []*big.Int
		cc := new(big.Int)
		for i := 0; i < s.n; i++ {
			a, b = append(a, big.NewInt(int64(seed%1000)+3+int64(i))), append(b, big.NewInt(int64(5+2*i)))
			cc.Add(cc, new(big.Int).Mul(a[i], b[i]))
		}
		p, err := bulletproofs.ZProveIP(a, b, bulletproofs.ZCommitIP(t.Gg, t.Hh, a, b, g), cc, t)
		zMust(err)
		x := zSub{func() bool { ok, err := p.Verify(); return ok && err == nil }, map[string]func() (group.Group, *group.Element){}, map[string]func() **big.Int{}}
		x.e["P"] = func() (group.Group, *group.Element) { return g, &p.P }
		for i := range p.L {
			i := i
			x.e[fmt.Sprint("L", i)] = func() (group.Group, *group.Element) { return g, &p.L[i] }
			x.e[fmt.Sprint("R", i)] = func() (group.Group, *group.Element) { return g, &p.R[i] }
		}
		x.s["Cc"] = func() **big.Int { return &p.Cc }
		x.s["A"] = func() **big.Int { return &p.A }
		x.s["B"] = func() **big.Int { return &p.B }
		return x
	},
}

// zMixes judges a thing and what differs from it in one part alternately, in both orders: the
// verdict on one must not rub off on the other. The part is replaced by another object, or
// changed in place.
func zMixes(c *vk.Ctx, envs []string) {
	for _, env := range envs {
		for _, kind := range zSorted(zSubjects) {
			for _, first := range []bool{true, false} {
				for _, inPlace := range []bool{false, true} {
					env, kind, first, inPlace := env, kind, first, inPlace
					key := fmt.Sprintf("mix/%s/%s/honest-first=%v/in-place=%v", env, kind, first, inPlace)
					c.Case(key, func() (string, error) {
						s := zShare(env)
						before := s.zObserve()
						probe := zSubjects[kind](s, 1)
						names := append(zSorted(probe.e), zSorted(probe.s)...)
						for ni, name := range names {
							x := zSubjects[kind](s, checks.Seed(key)+uint64(ni))
							var undo, do func()
							if f, ok := x.e[name]; ok {
								g, slot := f()
								old := *slot
								if inPlace {
									keep := g.Element().Set(old)
									do = func() { old.Add(old, g.Generator()) }
									undo = func() { old.Set(keep) }
								} else {
									do = func() { *slot = g.Element().Add(old, g.Generator()) }
									undo = func() { *slot = old }
								}
							} else {
								slot := x.s[name]()
								old := *slot
								if inPlace {
									keep := new(big.Int).Set(old)
									do = func() { old.Add(old, big.NewInt(1)) }
									undo = func() { old.Set(keep) }
								} else {
									do = func() { *slot = new(big.Int).Add(old, big.NewInt(1)) }
									undo = func() { *slot = old }
								}
							}
							if !first {
								do()
							}
							for k := 0; k < 4; k++ {
								want := (k%2 == 0) == first
								c.Trans(1)
								if got := x.verdict(); got != want {
									return "", vk.Errf("%s: %s judged %v at step %d (%s altered and restored alternately)", env, kind, got, k+1, name)
								}
								if want {
									do()
								} else {
									undo()
								}
							}
							c.State("mix|" + key + name)
						}
						if env[:5] != "ideal" {
							c.Validated(1)
						}
						return "verdicts do not rub off", zCalm(env, before)
					})
				}
			}
		}
	}
}

// zSeq runs a sequence in a fresh process and compares every result with the one alone.
func zSeq(c *vk.Ctx, seq []string) error {
	rs, same, err := zFresh(strings.Join(seq, ","))
	if err != nil {
		return err
	}
	c.Trans(len(seq))
	for i, s := range seq {
		e, o, _ := strings.Cut(s, "/")
		want, err := zAlone(e, o)
		if err != nil {
			return err
		}
		if rs[i] != want {
			return vk.Errf("%s gives another result after %v", s, seq[:i])
		}
	}
	c.State("h|" + strings.Join(seq, ","))
	if !same {
		return vk.Errf("shared parameters, arguments or groups altered by %v", seq)
	}
	return nil
}

// zRace runs all pairs of operations concurrently (race-detector build).
func zRace() {
	env := os.Getenv("VK_C17RACE")
	zRacing = true
	s := zShare(env)
	st := vk.NewStream(5)
	var mu sync.Mutex
	vk.Use(zLocked{&mu, st})
	for i, a := range zOps {
		for j, b := range zOps {
			if j < i {
				continue
			}
			var wg sync.WaitGroup
			var res [2]string
			for t, o := range []zOp{a, b} {
				t, o := t, o
				wg.Add(1)
				go func() {
					defer wg.Done()
					var r []any
					err := vk.Guard(func() error { r = o.run(s); return nil })
					res[t] = zRender(r, err)
				}()
			}
			wg.Wait()
			for t, o := range []zOp{a, b} {
				bad := strings.HasPrefix(res[t], "panic")
				switch o.name {
				case "verify", "collect", "mverify", "eqverify":
					bad = bad || !strings.HasPrefix(res[t], "true;")
				case "ipverify":
					bad = bad || strings.Contains(res[t], "false;")
				case "verifybad", "collectbad":
					bad = bad || !strings.HasPrefix(res[t], "false;")
				}
				if bad {
					fmt.Println("C17RACE-VERDICT", env, a.name, b.name, o.name, res[t])
					os.Exit(1)
				}
			}
		}
	}
}

type zLocked struct {
	mu *sync.Mutex
	s  *vk.Stream
}

func (l zLocked) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.s.Limit = 1 << 40
	l.s.Lens = nil
	return l.s.Read(p)
}
