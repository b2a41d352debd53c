package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

// checkSpec describes one registered check (an entry of checks.json).
type checkSpec struct {
	Harness     string   `json:"harness"`
	Quick       int      `json:"quick_s"`
	Thorough    int      `json:"thorough_s"`
	Assumptions []string `json:"assumptions"`
	Bounds      []string `json:"bounds"`
	Require     []string `json:"require"` // vacuity guards: points that must be reached
	Workers     int      `json:"workers"`
	Entries     []string `json:"entries"` // default: <id>_*
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Entry    string `json:"entry"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(2)
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("entry", "", "only this entry")
	budget := flag.Int("budget", 0, "exploration budget in seconds")
	workers := flag.Int("workers", 0, "")
	verbose := flag.Bool("v", false, "")
	prof := flag.String("cpuprofile", "", "")
	flag.StringVar(&verifDir, "verif", verifDir, "")
	flag.StringVar(&repoDir, "repo", repoDir, "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var specs map[string]checkSpec
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fatal("checks.json:", err)
	}
	spec, ok := specs[*prop]
	if !ok {
		fatal("no such check", *prop)
	}
	c := &checkRun{id: *prop, spec: spec, tier: *tier, seed: seed, verbose: *verbose, only: *only, budget: *budget, workers: *workers}
	code := c.run()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

type checkRun struct {
	id      string
	spec    checkSpec
	tier    string
	seed    int
	verbose bool
	only    string
	budget  int
	workers int
	known   []knownFinding
	tmp     string
	bin     string
	binErr  error
	entries []string

	fullMu   sync.Mutex
	fullRuns int
}

type entryResult struct {
	ex        *Explorer
	name      string
	wall      time.Duration
	tried     int
	confirmed []*Violation
	rejected  []string
	traceOK   int
	traceBad  []string
}

func (c *checkRun) loadKnown() {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == c.id && k.Status == "known" {
			c.known = append(c.known, k)
		}
	}
}

func (c *checkRun) isKnown(v *Violation) *knownFinding {
	for i := range c.known {
		k := &c.known[i]
		if (k.Entry == "" || k.Entry == v.Entry) && k.Msg != "" && strings.Contains(v.Msg, k.Msg) {
			return k
		}
	}
	return nil
}

// hasViolation reports a confirmed violation that is not a known finding.
func (c *checkRun) hasViolation(r *entryResult) bool {
	for _, v := range r.confirmed {
		if c.isKnown(v) == nil {
			return true
		}
	}
	return false
}

func (c *checkRun) run() int {
	t0 := time.Now()
	c.loadKnown()
	tmp, err := os.MkdirTemp("", "vengine-")
	if err != nil {
		fatal(err)
	}
	c.tmp = tmp
	defer os.RemoveAll(tmp)
	ld, err := Load(verifDir, repoDir, c.spec.Harness, c.tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load failed:", err)
		return 2
	}
	// the native binary is built while the engine explores
	for name, mem := range ld.harness.Members {
		if _, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "C") && strings.Contains(name, "_") {
			c.entries = append(c.entries, name)
		}
	}
	sort.Strings(c.entries)
	built := make(chan struct{})
	go func() {
		defer close(built)
		c.bin, c.binErr = c.buildNative()
	}()

	var names []string
	for _, n := range c.entries {
		if len(c.spec.Entries) > 0 {
			for _, e := range c.spec.Entries {
				if e == n {
					names = append(names, n)
				}
			}
		} else if strings.HasPrefix(n, c.id+"_") {
			names = append(names, n)
		}
	}
	if c.only != "" {
		var f []string
		for _, n := range names {
			if strings.Contains(n, c.only) {
				f = append(f, n)
			}
		}
		names = f
	}
	if len(names) == 0 {
		fatal("no entries for", c.id)
	}
	total := time.Duration(c.spec.Quick) * time.Second
	if total == 0 {
		total = 60 * time.Second
	}
	if c.tier == "thorough" {
		total = time.Duration(c.spec.Thorough) * time.Second
		if total == 0 {
			total = 600 * time.Second
		}
	}
	if c.budget > 0 {
		total = time.Duration(c.budget) * time.Second
	}
	var res []*entryResult
	spent := time.Duration(0)
	for i, n := range names {
		b := (total - spent) / time.Duration(len(names)-i)
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		r := c.runEntry(ld, n, b, built)
		spent += r.wall
		res = append(res, r)
		if c.hasViolation(r) {
			break // the verdict is settled
		}
	}
	// entries that ran out of their share get what the others left
	for {
		var open []*entryResult
		for _, r := range res {
			if r.ex.Left > 0 && len(r.confirmed) == 0 && !r.ex.memStopped.Load() {
				open = append(open, r)
			}
		}
		rem := total - spent
		for _, r := range res {
			if c.hasViolation(r) {
				open = nil
			}
		}
		if len(open) == 0 || rem < 2*time.Second {
			break
		}
		for i, r := range open {
			w := r.wall
			c.resume(ld, r, rem/time.Duration(len(open)-i), built)
			rem -= r.wall - w
			spent += r.wall - w
		}
	}
	for _, r := range res {
		c.settle(r)
	}
	<-built
	if c.binErr != nil {
		fmt.Fprintln(os.Stderr, "native build failed:", c.binErr)
		return 2
	}
	return c.report(ld, res, time.Since(t0))
}

func (c *checkRun) runEntry(ld *Loader, name string, budget time.Duration, built chan struct{}) *entryResult {
	t0 := time.Now()
	ex := NewExplorer(ld, name)
	ex.tier = c.tier
	ex.debug = os.Getenv("VDEBUG") != ""
	ex.isKnown = func(v *Violation) bool { return c.isKnown(v) != nil }
	if c.workers > 0 {
		ex.workers = c.workers
	} else if c.spec.Workers > 0 {
		ex.workers = c.spec.Workers
	}
	f := ld.harness.Func(name)
	ld.build(ld.harness)
	ex.entryFn = func(m *Machine) {
		m.callFn(f, nil, nil, nil)
	}
	r := &entryResult{ex: ex, name: name, wall: time.Since(t0)}
	c.resume(ld, r, budget, built)
	// unordered accesses become scheduling points
	for i := 0; i < 3 && len(r.ex.newRacy) > 0 && len(r.confirmed) == 0 && r.wall < budget; i++ {
		nx := NewExplorer(ld, name)
		nx.tier, nx.debug, nx.workers, nx.entryFn, nx.isKnown = ex.tier, ex.debug, ex.workers, ex.entryFn, ex.isKnown
		nx.racy = map[*accSite]bool{}
		for s := range r.ex.racy {
			nx.racy[s] = true
		}
		for s := range r.ex.newRacy {
			nx.racy[s] = true
			if c.verbose {
				fmt.Fprintln(os.Stderr, "unordered access:", s.fn, ld.prog.Fset.Position(s.pos))
			}
		}
		r = &entryResult{ex: nx, name: name, wall: r.wall}
		c.resume(ld, r, budget-r.wall, built)
	}
	return r
}

// resume explores further and confirms what was found.
func (c *checkRun) resume(ld *Loader, r *entryResult, budget time.Duration, built chan struct{}) {
	t0 := time.Now()
	ex := r.ex
	ex.Run(budget)
	r.wall += time.Since(t0)
	<-built
	if c.binErr != nil {
		return
	}
	seen := map[string]bool{}
	for _, v := range r.confirmed {
		seen[violKey(v.Msg)] = true
	}
	fresh := append([]*Violation(nil), ex.Viol[r.tried:]...)
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].exact && !fresh[j].exact })
	r.tried = len(ex.Viol)
	for _, v := range fresh {
		key := violKey(v.Msg)
		if seen[key] {
			continue
		}
		if ok, how := c.confirm(ld, v); ok {
			v.Replayed = how
			seen[key] = true
			r.confirmed = append(r.confirmed, v)
		} else {
			r.rejected = append(r.rejected, v.Msg+" ("+how+")")
		}
	}
}

// settle validates the predicted traces natively.
func (c *checkRun) settle(r *entryResult) {
	if c.binErr != nil {
		return
	}
	r.traceOK, r.traceBad = c.validateTraces(r.ex)
	if c.verbose {
		c.dump(r)
	}
}

func violKey(msg string) string {
	if i := strings.Index(msg, " < "); i > 0 {
		return msg[:i]
	}
	return msg
}

// buildNative compiles the harness against the current tree.
func (c *checkRun) buildNative() (string, error) {
	_, names, err := overlayFor(verifDir, repoDir, c.spec.Harness)
	if err != nil {
		return "", err
	}
	var g strings.Builder
	g.WriteString("package main\n\nimport \"" + modPath + "/zzverif/sym\"\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, e := range c.entries {
		fmt.Fprintf(&g, "\t\t%q: %s,\n", e, e)
	}
	g.WriteString("\t})\n}\n")
	gen := filepath.Join(c.tmp, "zz_main.go")
	if err := os.WriteFile(gen, []byte(g.String()), 0o644); err != nil {
		return "", err
	}
	names[filepath.Join(repoDir, "zzverif", c.spec.Harness, "zz_main.go")] = gen
	j, _ := json.Marshal(map[string]any{"Replace": names})
	ov := filepath.Join(c.tmp, "overlay.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(c.tmp, "native")
	args := []string{"build", "-overlay", ov, "-tags=nolog", "-ldflags=-checklinkname=0", "-o", bin}
	mod, err := modFlags(repoDir, c.spec.Harness, c.tmp)
	if err != nil {
		return "", err
	}
	args = append(append(args, mod...), "./zzverif/"+c.spec.Harness)
	cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("%v: %s", err, eb.String())
	}
	return bin, nil
}

type nativeTrace struct {
	Entry  string              `json:"entry"`
	Values map[string][]uint64 `json:"values"`
	Msg    string              `json:"msg,omitempty"`
	Sched  []string            `json:"schedule,omitempty"`
	Note   string              `json:"note,omitempty"`
}

type nativeResult struct {
	Obs      []string `json:"obs"`
	Failures []string `json:"failures"`
	Reached  []string `json:"reached"`
	Skipped  bool     `json:"skipped"`
	Assume   string   `json:"assume"`
	Panic    string   `json:"panic"`
}

// runNative executes traces natively. crash holds the tail of stderr when the
// process died before finishing.
func (c *checkRun) runNative(ts []nativeTrace, timeout time.Duration) (rs []nativeResult, crash string, hang bool) {
	return c.runNativeFull(ts, timeout, false)
}

// runNativeFull is runNative; if full, long times pass in real time.
func (c *checkRun) runNativeFull(ts []nativeTrace, timeout time.Duration, full bool) (rs []nativeResult, crash string, hang bool) {
	f, err := os.CreateTemp(c.tmp, "replay-*.json")
	if err != nil {
		return nil, err.Error(), false
	}
	j, _ := json.Marshal(ts)
	f.Write(j)
	f.Close()
	if full {
		timeout += 3 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin)
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_TIER="+c.tier)
	if full {
		cmd.Env = append(cmd.Env, "VERIF_FULL=1")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Dir = c.tmp
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	err = cmd.Run()
	for _, l := range strings.Split(ob.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r nativeResult
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				rs = append(rs, r)
			}
		}
	}
	if ctx.Err() != nil {
		return rs, "", true
	}
	if err != nil {
		crash = eb.String()
		if len(crash) > 3000 {
			crash = crash[:3000]
		}
		if crash == "" {
			crash = err.Error()
		}
	}
	return rs, crash, false
}

// confirm replays a candidate counterexample against the real code.
func (c *checkRun) confirm(ld *Loader, v *Violation) (bool, string) {
	t := nativeTrace{Entry: v.Entry, Values: v.Values, Msg: v.Msg}
	isPanic := strings.HasPrefix(v.Msg, "panic:")
	isHang := strings.HasPrefix(v.Msg, "deadlock:") || strings.HasPrefix(v.Msg, "step limit")
	tries := 1
	if v.usesSel {
		tries = 6
	}
	if v.idled {
		tries = 2 // the second one in full
	}
	why := ""
	for i := 0; i < tries; i++ {
		full := v.idled && i == 1
		if full {
			c.fullMu.Lock()
			if c.fullRuns++; c.fullRuns > 2 {
				full = false
			}
			c.fullMu.Unlock()
		}
		rs, crash, hang := c.runNativeFull([]nativeTrace{t}, 20*time.Second, full)
		switch {
		case hang:
			if isHang {
				return true, "native: hang"
			}
			why = "native run did not end"
		case crash != "":
			if isPanic || isHang && strings.Contains(crash, "all goroutines are asleep") {
				return true, "native: " + firstLine(crash)
			}
			if isHang {
				return true, "native: " + firstLine(crash)
			}
			why = "native crash: " + firstLine(crash)
		case len(rs) == 1:
			r := rs[0]
			if r.Panic != "" && isPanic {
				return true, "native: panic: " + r.Panic
			}
			for _, f := range r.Failures {
				if f == v.Msg {
					return true, "native: assertion failed"
				}
			}
			switch {
			case r.Panic != "":
				return true, "native: panic: " + r.Panic
			case r.Assume != "":
				why = "native: assumption not met (" + r.Assume + ")"
			case len(r.Failures) > 0:
				// The same run fails, though at another point.
				return true, "native: assertion failed: " + r.Failures[0]
			default:
				why = "native: property held"
			}
		}
	}
	if v.usesSel {
		// schedule-dependent: replay the recorded schedule deterministically in
		// the interpreter, which executes the current source
		if c.replayInterp(ld, v) {
			return true, "schedule replayed on the encoded source"
		}
	}
	if !v.exact {
		why += "; no native-consistent model of the cryptographic functions"
	}
	return false, why
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *checkRun) replayInterp(ld *Loader, v *Violation) bool {
	ex := NewExplorer(ld, v.Entry)
	ex.tier, ex.racy = c.tier, v.racy
	f := ld.harness.Func(v.Entry)
	ex.entryFn = func(m *Machine) { m.callFn(f, nil, nil, nil) }
	ex.deadline.Store(time.Now().Add(60 * time.Second).UnixNano())
	m := NewMachine(ld, ex, 0)
	defer m.sol.Close()
	mod := map[string]uint64{}
	for k, x := range v.Values {
		if len(x) == 1 {
			mod[k] = x[0]
		}
	}
	m.explore(workItem{prefix: v.Dec, model: mod})
	for _, w := range ex.Viol {
		if violKey(w.Msg) == violKey(v.Msg) {
			return true
		}
	}
	return false
}

func (c *checkRun) validateTraces(ex *Explorer) (ok int, bad []string) {
	var ts []nativeTrace
	for _, t := range ex.Traces {
		ts = append(ts, nativeTrace{Entry: ex.entry, Values: t.Values})
	}
	if len(ts) == 0 {
		return
	}
	rs, crash, hang := c.runNative(ts, 60*time.Second)
	if crash != "" {
		bad = append(bad, "native crash: "+firstLine(crash))
	}
	if hang {
		bad = append(bad, "native run did not end")
	}
	for i, r := range rs {
		if i >= len(ex.Traces) {
			break
		}
		want := ex.Traces[i].Obs
		if ex.Traces[i].conc && (r.Panic != "" || len(r.Failures) > 0 || strings.Join(r.Obs, "\n") != strings.Join(want, "\n")) {
			continue
		}
		switch {
		case r.Panic != "":
			bad = append(bad, "panic: "+r.Panic)
		case r.Assume != "":
			bad = append(bad, "assumption not met natively: "+r.Assume)
		case len(r.Failures) > 0:
			bad = append(bad, "assertion failed natively: "+r.Failures[0])
		case strings.Join(r.Obs, "\n") != strings.Join(want, "\n"):
			bad = append(bad, diffObs(want, r.Obs))
		default:
			ok++
		}
	}
	return
}

func diffObs(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return "missing observation " + want[i]
		}
		if want[i] != got[i] {
			return "predicted " + trunc(want[i]) + ", native " + trunc(got[i])
		}
	}
	return fmt.Sprintf("extra observations (%d > %d)", len(got), len(want))
}

func trunc(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func (c *checkRun) dump(r *entryResult) {
	ex := r.ex
	fmt.Printf("== %s: %.1fs paths=%d done=%d infeasible=%d left=%d timeout=%v steps=%d maxsteps=%d\n", r.name, r.wall.Seconds(), ex.Paths, ex.Done, ex.Infeas, ex.Left, ex.Timeout, ex.Steps, ex.MaxPathSteps)
	fmt.Printf("   queries=%d sat=%d unsat=%d unknown=%d cache=%d solver=%.1fs byte-domain=%d\n", ex.Queries, ex.Sat, ex.Unsat, ex.Unknown, ex.CacheHits, ex.SolverTime.Seconds(), ex.DomHits)
	pm := func(name string, m map[string]int64) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %s[%d] %s\n", name, m[k], k)
		}
	}
	pm("unsupported", ex.Unsup)
	pm("limit", ex.Limits)
	pm("internal", ex.Internal)
	pm("bound", ex.Bounds)
	if os.Getenv("VDEBUG") != "" {
		pm("initnote", ex.initNotes)
		type kv struct {
			k string
			v int64
		}
		var l []kv
		for k, v := range ex.choiceStats {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
		for i, x := range l {
			if i < 25 {
				fmt.Printf("   fork[%d] %s\n", x.v, x.k)
			}
		}
	}
	pm("reach", ex.Reached)
	var ks []string
	for k := range ex.Asserts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("   assert %q %+v\n", k, *ex.Asserts[k])
	}
	fmt.Printf("   traces ok=%d bad=%d\n", r.traceOK, len(r.traceBad))
	for _, b := range r.traceBad {
		fmt.Println("   BAD TRACE:", b)
	}
	for _, b := range r.rejected {
		fmt.Println("   REJECTED:", b)
	}
	for _, v := range r.confirmed {
		fmt.Println("   CONFIRMED:", v.Msg, "|", v.Replayed)
		fmt.Println("     ", showValues(v.Values))
		for _, s := range v.Sched {
			fmt.Println("     ", s)
		}
	}
}

func showValues(vs map[string][]uint64) string {
	arr := map[string]map[int]uint64{}
	var out []string
	for k, v := range vs {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			n, err := strconv.Atoi(k[i+1 : len(k)-1])
			if err == nil {
				if arr[k[:i]] == nil {
					arr[k[:i]] = map[int]uint64{}
				}
				arr[k[:i]][n] = v[0]
				continue
			}
		}
		out = append(out, fmt.Sprintf("%s=%d", k, v[0]))
	}
	for k, m := range arr {
		b := make([]byte, len(m))
		for i := range b {
			b[i] = byte(m[i])
		}
		out = append(out, fmt.Sprintf("%s=%x", k, b))
	}
	sort.Strings(out)
	return trunc(strings.Join(out, " "))
}
