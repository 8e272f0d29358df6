package vk

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Viol is one violated case.
type Viol struct {
	Key string `json:"case"`
	Err string `json:"error"`
}

// Result is what one worker hands to the parent.
type Result struct {
	Evals     int            `json:"evals"`
	Trans     int            `json:"trans"`
	Validated int            `json:"validated"`
	Skipped   int            `json:"skipped"`
	Outcomes  map[string]int `json:"outcomes"`
	Viols     []Viol         `json:"viols"`
	Samples   []string       `json:"samples"`
	Notes     map[string]int `json:"notes"`
	Done      bool           `json:"done"`
	FullSpace bool           `json:"full"`
	CaseTotal int            `json:"cases_total"`
}

// Ctx is the handle a check works with.
type Ctx struct {
	ID, Tier       string
	Shard, NShards int
	Only           string
	R              Result
	idx            int
	states         map[uint64]struct{}
	deadline       time.Time
	curFile        *os.File
	stop           bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// State records a visited state by its canonical text.
func (c *Ctx) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states[h.Sum64()] = struct{}{}
}

// Trans counts executed transitions (operations of the code under test).
func (c *Ctx) Trans(n int) { c.R.Trans += n }

// Validated counts traces replayed against a real group implementation.
func (c *Ctx) Validated(n int) { c.R.Validated += n }

// Note counts a named event for the evidence file.
func (c *Ctx) Note(s string, n int) { c.R.Notes[s] += n }

// Errf is a shorthand.
func Errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "zz_verif") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, "; ")
}

// Mine reports whether the next case belongs to this shard (and counts it).
func (c *Ctx) mine(key string) bool {
	i := c.idx
	c.idx++
	if c.Only != "" {
		return c.Only == key
	}
	if i%c.NShards != c.Shard {
		return false
	}
	if c.stop || time.Now().After(c.deadline) {
		c.R.Skipped++
		return false
	}
	return true
}

// Case runs one case of the explored space. f returns an outcome label and, when
// the property is broken, an error. A panic is a violation.
func (c *Ctx) Case(key string, f func() (string, error)) {
	if !c.mine(key) {
		return
	}
	if c.curFile != nil {
		b := make([]byte, 1024)
		copy(b, key)
		c.curFile.WriteAt(b, 0)
	}
	if os.Getenv("VK_TIMES") != "" {
		t0 := time.Now()
		defer func() {
			parts := strings.SplitN(key, "/", 3)
			if len(parts) > 2 {
				parts = parts[:2]
			}
			c.R.Notes["us "+strings.Join(parts, "/")] += int(time.Since(t0).Microseconds())
		}()
	}
	var outcome string
	err := Guard(func() error {
		var e error
		outcome, e = f()
		return e
	})
	c.R.Evals++
	if err != nil {
		outcome = "VIOLATION"
		c.R.Viols = append(c.R.Viols, Viol{key, err.Error()})
		if len(c.R.Viols) >= 20 {
			c.stop = true
		}
	}
	c.R.Outcomes[outcome]++
	if len(c.R.Samples) < 3 {
		c.R.Samples = append(c.R.Samples, key+" -> "+outcome)
	}
}

// Main dispatches parent and worker modes.
func Main(checks map[string]func(*Ctx)) {
	if len(os.Args) < 2 {
		fmt.Println("usage: bin ID [case-key]")
		os.Exit(2)
	}
	id := os.Args[1]
	f, ok := checks[id]
	if !ok {
		fmt.Println("no such check:", id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if w := os.Getenv("VK_WORKER"); w != "" {
		worker(id, tier, w, f)
		return
	}
	parent(id, tier)
}

func budget(tier string) time.Duration {
	if s := os.Getenv("VK_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 3000 * time.Second
	}
	return 420 * time.Second
}

func worker(id, tier, w string, f func(*Ctx)) {
	parts := strings.Split(w, "/")
	sh, _ := strconv.Atoi(parts[0])
	n, _ := strconv.Atoi(parts[1])
	dir := os.Getenv("VK_DIR")
	c := &Ctx{ID: id, Tier: tier, Shard: sh, NShards: n, Only: os.Getenv("VK_CASE"),
		states: map[uint64]struct{}{}}
	c.R.Outcomes = map[string]int{}
	c.R.Notes = map[string]int{}
	dl, _ := strconv.ParseInt(os.Getenv("VK_DEADLINE"), 10, 64)
	c.deadline = time.Unix(dl, 0)
	c.curFile, _ = os.Create(filepath.Join(dir, fmt.Sprintf("cur.%d", sh)))
	debug.SetMemoryLimit(3 << 30)
	f(c)
	c.R.Done = true
	c.R.CaseTotal = c.idx
	c.R.FullSpace = c.R.Skipped == 0
	sf, err := os.Create(filepath.Join(dir, fmt.Sprintf("states.%d", sh)))
	if err == nil {
		bw := bufio.NewWriter(sf)
		var b [8]byte
		for h := range c.states {
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		sf.Close()
	}
	j, _ := json.Marshal(c.R)
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("res.%d", sh)), j, 0o644); err != nil {
		os.Exit(4)
	}
	os.Exit(0)
}

type workerOut struct {
	res    *Result
	cur    string
	stderr string
	code   string
	killed bool
}

func again(tier string) time.Duration {
	if tier == "thorough" {
		return 1200 * time.Second
	}
	return 150 * time.Second
}

func runWorker(id string, sh, n int, dir, only string, dl time.Time) workerOut {
	return runWorkerGrace(id, sh, n, dir, only, dl, 60*time.Second)
}

func runWorkerGrace(id string, sh, n int, dir, only string, dl time.Time, grace time.Duration) workerOut {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, id)
	cmd.Env = append(os.Environ(),
		fmt.Sprintf("VK_WORKER=%d/%d", sh, n), "VK_DIR="+dir, "VK_CASE="+only,
		fmt.Sprintf("VK_DEADLINE=%d", dl.Unix()), "GOMAXPROCS=2", "GOTRACEBACK=single")
	var eb strings.Builder
	cmd.Stderr = &limited{b: &eb, n: 20000}
	cmd.Stdout = nil
	os.Remove(filepath.Join(dir, fmt.Sprintf("res.%d", sh)))
	var out workerOut
	if err := cmd.Start(); err != nil {
		out.code = err.Error()
		return out
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			out.code = err.Error()
		}
	case <-time.After(time.Until(dl) + grace):
		cmd.Process.Kill()
		<-done
		out.killed = true
		out.code = "killed at deadline"
	}
	out.stderr = eb.String()
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur.%d", sh))); err == nil {
		out.cur = strings.TrimRight(string(b), "\x00")
	}
	if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res.%d", sh))); err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil && r.Done {
			out.res = &r
		}
	}
	return out
}

type limited struct {
	b *strings.Builder
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" case=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" case=")
		k, what, _ := strings.Cut(rest, " ")
		out[k] = what
	}
	return out
}

func parent(id, tier string) {
	start := time.Now()
	only := ""
	if len(os.Args) > 2 {
		only = os.Args[2]
	}
	dir, err := os.MkdirTemp("", "vk-"+id+"-")
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if only != "" {
		n = 1
	}
	dl := start.Add(budget(tier))
	outs := make([]workerOut, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runWorker(id, i, n, dir, only, dl)
		}(i)
	}
	wg.Wait()

	tot := Result{Outcomes: map[string]int{}, Notes: map[string]int{}, FullSpace: true}
	states := map[uint64]struct{}{}
	var viols []Viol
	fatal := ""
	for i, o := range outs {
		if o.res == nil {
			tot.FullSpace = false
			if o.killed {
				tot.Notes["worker killed at deadline in "+o.cur]++
				// The case ran past the deadline and its grace: does it end when run alone?
				d2, _ := os.MkdirTemp(dir, "again")
				o2 := runWorkerGrace(id, 0, 1, d2, o.cur, time.Now().Add(again(tier)), 0)
				if o2.killed && o.cur != "" {
					viols = append(viols, Viol{o.cur, "does not terminate (within " + again(tier).String() + ", alone)"})
				} else if o2.res != nil {
					viols = append(viols, o2.res.Viols...)
				}
				continue
			}
			// The process died. Does it die again on that case alone?
			d2, _ := os.MkdirTemp(dir, "again")
			if o.cur == "" {
				// It died before its first case, while it made the honest parameters and
				// proofs that the cases start from.
				o.cur = "set-up"
			}
			o2 := runWorker(id, 0, 1, d2, o.cur, time.Now().Add(120*time.Second))
			crash := strings.Contains(o2.stderr, "panic: ") || strings.Contains(o2.stderr, "fatal error: ")
			if o2.res == nil && !o2.killed && (o.cur != "set-up" || crash) {
				viols = append(viols, Viol{o.cur, "process crashed: " + o2.code + " " + head(o2.stderr, 600)})
			} else {
				fatal = fmt.Sprintf("worker %d ended with %s in case %q: %s", i, o.code, o.cur, head(o.stderr, 800))
			}
			continue
		}
		r := o.res
		tot.Evals += r.Evals
		tot.Trans += r.Trans
		tot.Validated += r.Validated
		tot.Skipped += r.Skipped
		tot.CaseTotal = r.CaseTotal
		if !r.FullSpace {
			tot.FullSpace = false
		}
		for k, v := range r.Outcomes {
			tot.Outcomes[k] += v
		}
		for k, v := range r.Notes {
			tot.Notes[k] += v
		}
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		viols = append(viols, r.Viols...)
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("states.%d", i))); err == nil {
			for len(b) >= 8 {
				states[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	known := knownFindings(id)
	var fresh []Viol
	printed := map[string]bool{}
	for _, v := range viols {
		if what, ok := known[v.Key]; ok {
			if !printed[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, v.Key, what)
				printed[v.Key] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	sort.Slice(fresh, func(i, j int) bool {
		if len(fresh[i].Key) != len(fresh[j].Key) {
			return len(fresh[i].Key) < len(fresh[j].Key)
		}
		return fresh[i].Key < fresh[j].Key
	})
	wall := time.Since(start).Seconds()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(states), "transitions": tot.Trans,
			"traces_validated_against_impl": tot.Validated,
			"evaluations":                   tot.Evals,
			"cases_in_space":                tot.CaseTotal,
			"cases_skipped_at_deadline":     tot.Skipped,
			"exhaustive":                    tot.FullSpace && fatal == "",
			"outcomes":                      tot.Outcomes,
			"notes":                         tot.Notes,
			"samples":                       tot.Samples,
			"rule":                          ruleText[id],
		},
		"assumptions": assumptions(id),
		"wall_s":      wall,
		"violations":  len(fresh),
	}
	if only == "" {
		os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s tier=%s cases=%d/%d states=%d transitions=%d validated=%d exhaustive=%v wall=%.1fs\n",
		id, tier, tot.Evals, tot.CaseTotal, len(states), tot.Trans, tot.Validated, tot.FullSpace, wall)
	keys := make([]string, 0, len(tot.Outcomes))
	for k := range tot.Outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  outcome %-40s %d\n", k, tot.Outcomes[k])
	}
	if len(fresh) > 0 {
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, id+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": id, "tier": tier, "violations": fresh,
			"replay_cmd": fmt.Sprintf("VERIF_TIER=%s bash /verif/run.sh %s '%s'", tier, id, fresh[0].Key),
		}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		for i, v := range fresh {
			if i >= 8 {
				fmt.Printf("  ... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("  violated: %s: %s\n", v.Key, head(v.Err, 500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	if fatal != "" {
		fmt.Println("error:", fatal)
		os.Exit(3)
	}
	if only != "" && tot.Evals == 0 {
		fmt.Println("error: no such case:", only)
		os.Exit(3)
	}
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var ruleText = map[string]string{}
var assumeText = map[string][]string{}

// Describe registers the evidence texts of a check.
func Describe(id, rule string, assume ...string) {
	ruleText[id] = rule
	assumeText[id] = assume
}

func assumptions(id string) []string {
	base := []string{
		"crypto/rand.Reader is the only source of randomness of the code under test",
		"SHA-256 challenges behave as distinct values on distinct inputs",
	}
	return append(base, assumeText[id]...)
}
