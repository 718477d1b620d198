package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/innerr/ticat/pkg/zzverif/"

// harnessMeta is harness/<id>/meta.json.
type harnessMeta struct {
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Level       string   `json:"level"`
	QuickSec    int      `json:"quick_sec"`
	MaxSteps    int64    `json:"max_steps"` // of one path, more is a hang
	ThoroughSec int      `json:"thorough_sec"`
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Match    string `json:"match"` // regexp over "<harness> <kind>: <message>"
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit; a fixed entry suppresses nothing
}

type replayFile struct {
	Property string   `json:"property"`
	Dir      string   `json:"dir"`
	Harness  string   `json:"harness"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Stack    string   `json:"where,omitempty"`
	Shown    string   `json:"inputs_shown"`
	Notes    []string `json:"notes,omitempty"`
	Native   string   `json:"native_result"`
	Thorough bool     `json:"thorough"`
	Inputs   []Input  `json:"inputs"`
}

type harnessResult struct {
	Name         string         `json:"harness"`
	Paths        int            `json:"paths"`
	Completed    int            `json:"paths_completed"`
	Assumed      int            `json:"paths_cut_by_assume"`
	CandPaths    int            `json:"paths_with_counterexample"`
	Limit        int            `json:"paths_over_step_limit"`
	Unsup        int            `json:"paths_not_encodable"`
	Unknown      int            `json:"solver_unknown"`
	Leftover     int            `json:"paths_left_at_deadline"`
	Exhaustive   bool           `json:"exhaustive_within_bounds"`
	Queries      int            `json:"smt_queries"`
	SolverSec    float64        `json:"solver_s"`
	DomDec       int            `json:"branch_decisions_by_byte_domain"`
	DomPrune     int            `json:"branches_pruned_by_byte_set"`
	DomSMT       int            `json:"byte_set_prunings_confirmed_by_smt"`
	AssertSolver int            `json:"assertions_discharged_by_smt"`
	AssertPath   int            `json:"assertions_constant_on_a_path"`
	Steps        int64          `json:"ssa_instructions"`
	WallSec      float64        `json:"wall_s"`
	Reached      map[string]int `json:"reached"`
	Unreached    []string       `json:"unreached,omitempty"`
	Problems     map[string]int `json:"problems,omitempty"`
	Replayed     int            `json:"sample_paths_replayed_natively"`
	Mismatch     []string       `json:"replay_mismatches,omitempty"`
	Samples      []string       `json:"samples"`
}

func usageExit(format string, a ...any) int {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	return 2
}

func cmdCheck(args []string) int {
	if len(args) < 2 {
		return usageExit("usage: symx check <property> quick|thorough")
	}
	id, tier := args[0], args[1]
	verif := envOr("VERIF_ROOT", "/verif")
	repo := envOr("VERIF_REPO", "/repo")
	thoroughTier = tier == "thorough"
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	dir := strings.ToLower(id)
	meta := harnessMeta{Level: "other", QuickSec: 240, ThoroughSec: 3000}
	if b, err := os.ReadFile(filepath.Join(verif, "harness", dir, "meta.json")); err == nil {
		if err := json.Unmarshal(b, &meta); err != nil {
			return usageExit("meta.json: %v", err)
		}
	} else {
		return usageExit("%v", err)
	}
	known, err := loadKnown(verif, id)
	if err != nil {
		return usageExit("known findings: %v", err)
	}
	ov, err := buildOverlay(verif, repo, dir)
	if err != nil {
		return usageExit("%v", err)
	}
	prg, err := loadProgram(repo, ov, "./pkg/zzverif/"+dir)
	if err != nil {
		return usageExit("cannot load the code under test: %v", err)
	}
	nb := newNative(verif, repo, dir, prg)
	defer nb.cleanup()
	buildDone := make(chan error, 1)
	go func() { buildDone <- nb.build() }()

	only := os.Getenv("VERIF_HARNESS")
	names := []string{}
	for _, n := range listHarness(prg, dir) {
		if only != "" && n != only {
			continue
		}
		if strings.HasPrefix(n, "HDeep") && !thoroughTier {
			continue // HDeep*: thorough tier only
		}
		names = append(names, n)
	}
	if len(names) == 0 {
		return usageExit("no harness functions in %s", dir)
	}
	total := time.Duration(meta.QuickSec) * time.Second
	if thoroughTier {
		total = time.Duration(meta.ThoroughSec) * time.Second
	}
	deadline := start.Add(total)
	var results []*harnessResult
	funcs := map[string]bool{}
	type cand struct {
		h string
		k string
		c []*Candidate
	}
	var cands []cand
	var solverErrs []string
	var solverErrMu sync.Mutex
	solverErrHook = func(l string) {
		solverErrMu.Lock()
		if len(solverErrs) < 5 {
			solverErrs = append(solverErrs, l)
		}
		solverErrMu.Unlock()
	}
	if thoroughTier {
		domCheckFirst, domCheckEvery = 3000, 16
	}
	type samp struct {
		r *harnessResult
		s []*Sample
	}
	var samps []samp
	for i, n := range names {
		o := defaultOptions()
		if meta.MaxSteps > 0 {
			o.MaxSteps = meta.MaxSteps
		}
		o.Workers = runtime.NumCPU()
		if o.Workers > 8 {
			o.Workers = 8
		}
		o.Seed = int64(seed)
		left := time.Until(deadline)
		// unused time of one harness goes to the later ones
		o.Timeout = left / time.Duration(len(names)-i)
		if o.Timeout < 5*time.Second {
			o.Timeout = 5 * time.Second
		}
		if s := os.Getenv("VERIF_SOLVER"); s != "" {
			o.Solver = s
		}
		ex := NewExplorer(prg, modPath+dir+"."+n, o)
		t1 := time.Now()
		if err := ex.Run(); err != nil {
			return usageExit("%v", err)
		}
		st := ex.stats
		r := &harnessResult{Name: n, Paths: st.Paths, Completed: st.Completed, Assumed: st.Assumed, CandPaths: st.Cands, Limit: st.LimitHit,
			Unsup: st.Unsup, Unknown: st.Unknown, Leftover: ex.leftover, Steps: st.Steps, Reached: st.Reached, Problems: st.UnsupMsgs, WallSec: time.Since(t1).Seconds()}
		for _, w := range ex.workers {
			r.Queries += w.solver.queries
			r.SolverSec += float64(w.solver.nanos) / 1e9
			r.DomDec += w.domDec
			r.DomPrune += w.domPrune
			r.DomSMT += w.domSMT
			r.AssertSolver += w.assertSolver
			r.AssertPath += w.assertConc
			for f := range w.funcs {
				funcs[f] = true
			}
		}
		r.Exhaustive = !ex.timedOut && ex.leftover == 0 && st.LimitHit == 0 && st.Unsup == 0 && st.Unknown == 0
		for _, l := range reachLabels(prg, dir, n) {
			if st.Reached[l] == 0 {
				r.Unreached = append(r.Unreached, l)
			}
		}
		for _, s := range ex.samples {
			if len(r.Samples) < 4 {
				x := s.String()
				if len(x) > 600 {
					x = x[:600] + "..."
				}
				r.Samples = append(r.Samples, x)
			}
		}
		samps = append(samps, samp{r, ex.samples})
		var ks []string
		for k := range ex.cands {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			cands = append(cands, cand{n, k, ex.cands[k]})
		}
		results = append(results, r)
		fmt.Printf("%s.%s: paths=%d exhaustive=%v queries=%d solver=%.1fs wall=%.1fs counterexample-classes=%d\n", id, n, r.Paths, r.Exhaustive, r.Queries, r.SolverSec, r.WallSec, len(ks))
	}

	if err := <-buildDone; err != nil {
		return usageExit("native replay build failed: %v", err)
	}
	// encoding self-check: replay completed paths natively
	for _, s := range samps {
		for _, sm := range s.s {
			res := nb.run(s.r.Name, sm.Inputs, 10*time.Second)
			s.r.Replayed++
			if res.kind != "ok" {
				// a second opinion: schedules and map order may differ natively
				s.r.Mismatch = append(s.r.Mismatch, fmt.Sprintf("%s: native %s %s", showInputs(sm.Inputs), res.kind, res.msg))
			} else if strings.Join(res.notes, "\n") != strings.Join(sm.Notes, "\n") {
				s.r.Mismatch = append(s.r.Mismatch, fmt.Sprintf("%s: notes interpreted %v native %v", showInputs(sm.Inputs), sm.Notes, res.notes))
			}
		}
	}

	violations := 0
	knownHit := map[string]bool{}
	var notReproduced []string
	confirming := time.Now()
	for _, c := range cands {
		if violations > 0 {
			// One violation is enough to fail: the others get less time
			nb.tries = 5
			if time.Since(confirming) > 2*time.Minute {
				fmt.Printf("not replayed (a violation was found before): %s %s inputs=%s\n", c.h, c.k, showInputs(c.c[0].Inputs))
				continue
			}
		}
		full := c.h + " " + c.k
		kf := matchKnown(known, full)
		done := false
		nb.until = time.Now().Add(90 * time.Second)
		for _, cd := range c.c {
			if time.Now().After(nb.until) {
				break
			}
			res := nb.confirm(c.h, cd)
			if res.kind == "ok" || res.kind == "assume" || res.kind == "desync" {
				continue
			}
			done = true
			if kf != nil {
				knownHit[kf.ID] = true
				break
			}
			rf := replayFile{Property: id, Dir: dir, Harness: c.h, Kind: cd.Kind, Msg: cd.Msg, Stack: cd.Stack, Shown: showInputs(cd.Inputs), Notes: cd.Notes,
				Native: res.kind + ": " + res.msg, Thorough: thoroughTier, Inputs: cd.Inputs}
			b, _ := json.MarshalIndent(rf, "", " ")
			os.MkdirAll(filepath.Join(verif, "replays"), 0755)
			p := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%.5x.json", id, c.h, sha1.Sum(b)))
			os.WriteFile(p, b, 0644)
			violations++
			fmt.Printf("  counterexample %s inputs=%s native=%s\n", full, rf.Shown, rf.Native)
			for _, n := range cd.Notes {
				fmt.Printf("    note %s\n", n)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
			break
		}
		if !done {
			notReproduced = append(notReproduced, fmt.Sprintf("%s inputs=%s", full, showInputs(c.c[0].Inputs)))
		}
	}
	for _, k := range known {
		if k.Fixed == "" && knownHit[k.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, k.ID, k.What)
		}
	}
	for _, n := range notReproduced {
		fmt.Printf("not reproduced natively (not reported): %s\n", n)
	}
	vacuous := false
	// A witness in code that harnesses share has to be reached by one of them
	reachedBy := map[string]bool{}
	for _, r := range results {
		for l := range r.Reached {
			reachedBy[l] = true
		}
	}
	for _, r := range results {
		var missing []string
		for _, l := range r.Unreached {
			if !reachedBy[l] {
				missing = append(missing, l)
			}
		}
		if len(missing) > 0 {
			fmt.Printf("WARNING %s: never reached: %v\n", r.Name, missing)
			if r.Exhaustive && r.CandPaths == 0 {
				vacuous = true
			}
		}
		for _, m := range r.Mismatch {
			fmt.Printf("WARNING %s: encoding mismatch: %s\n", r.Name, m)
		}
		for m, n := range r.Problems {
			fmt.Printf("REDUCED %s: %d x %s\n", r.Name, n, m)
		}
	}
	writeEvidence(verif, id, tier, seed, &meta, results, funcs, notReproduced, knownHit, nb, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	for _, l := range solverErrs {
		fmt.Printf("SOLVER-ERROR %s\n", l)
	}
	if len(solverErrs) > 0 {
		return usageExit("the solver rejected or contradicted a query")
	}
	if vacuous {
		return usageExit("a harness never reached one of its witnesses: the check would be vacuous")
	}
	return 0
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func loadKnown(verif, id string) ([]*knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []*knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	var out []*knownFinding
	for _, k := range f.Findings {
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out, nil
}

func matchKnown(ks []*knownFinding, full string) *knownFinding {
	for _, k := range ks {
		if k.Fixed != "" || k.Match == "" {
			continue
		}
		if ok, _ := regexp.MatchString(k.Match, full); ok {
			return k
		}
	}
	return nil
}

// reachLabels lists the labels a harness (and the harness-package functions it
// calls) can pass to vnd.Reach.
func reachLabels(prg *Program, dir, name string) []string {
	root := prg.harness(modPath + dir + "." + name)
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil && f.Parent() == nil {
			return
		}
		seen[f] = true
		pk := f.Pkg
		if pk == nil && f.Parent() != nil {
			pk = f.Parent().Pkg
		}
		if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						visit(fn)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					callee := c.Common().StaticCallee()
					if callee != nil && callee.Name() == "Reach" && callee.Pkg != nil && callee.Pkg.Pkg.Path() == modPath+"vnd" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							s, _ := strconv.Unquote(k.Value.ExactString())
							labels[s] = true
						}
					}
				}
			}
		}
	}
	visit(root)
	var out []string
	for l := range labels {
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

// Native replay -------------------------------------------------------------

type nativeBuild struct {
	verif, repo, dir string
	scratch, bin     string
	names            []string
	crash            bool
	threads          bool
	tries, jitter    int
	until            time.Time
	runs             int
	once             sync.Once
	unpriv           bool
}

type nativeResult struct {
	kind, msg string
	notes     []string
}

func newNative(verif, repo, dir string, prg *Program) *nativeBuild {
	n := &nativeBuild{verif: verif, repo: repo, dir: dir}
	if prg != nil {
		n.names = listHarness(prg, dir)
	}
	return n
}

func (n *nativeBuild) cleanup() {
	if n.scratch != "" {
		os.RemoveAll(n.scratch)
	}
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return runtime.GOROOT()
	}
	return strings.TrimSpace(string(out))
}

const crashNativeSrc = `package vnd

import (
	"os"
	"sync/atomic"
)

const crashUnit = 100000

func init() {
	crashNative = func(at int, f func()) bool {
		op, torn := int32(at/crashUnit), at%crashUnit
		var n int32
		done := make(chan bool, 1)
		stop := func() { done <- true; select {} }
		os.VerifHook = func(kind string, size int) int {
			k := atomic.AddInt32(&n, 1) - 1
			if k < op {
				return -1
			}
			if k > op {
				select {}
			}
			if kind == "write" && torn > 0 {
				return torn
			}
			stop()
			return -1
		}
		os.VerifStop = stop
		go func() { f(); done <- false }()
		r := <-done
		os.VerifHook = nil
		return r
	}
}
`

const osHookSrc = `package os

// VerifHook is called before a file-system mutation; for a write it may return
// the number of bytes to write before VerifStop is called.
var VerifHook func(kind string, size int) int
var VerifStop func()
var verifIn bool

func verifMut(kind string) {
	if VerifHook != nil && !verifIn {
		VerifHook(kind, 0)
	}
}

func verifOpen(name string, flag int) {
	if VerifHook == nil || verifIn {
		return
	}
	_, err := Lstat(name)
	if err != nil {
		if flag&O_CREATE != 0 {
			verifMut("create")
		}
	} else if flag&O_TRUNC != 0 {
		verifMut("truncate")
	}
}

func verifWrite(f *File, b []byte) {
	if VerifHook == nil || verifIn || len(b) == 0 || f == Stdout || f == Stderr {
		return
	}
	k := VerifHook("write", len(b))
	if k >= 0 {
		verifIn = true
		f.Write(b[:k])
		verifIn = false
		VerifStop()
	}
}
`

// osOverlay patches package os so that a replay can stop before the k-th
// file-system mutation.
func (n *nativeBuild) osOverlay(repl map[string]string) error {
	root := filepath.Join(goroot(), "src", "os")
	type edit struct{ re, ins string }
	edits := map[string][]edit{
		"file.go": {
			{`(?m)^func OpenFile\(name string, flag int, perm FileMode\) \(\*File, error\) \{\n`, "\tverifOpen(name, flag)\n"},
			{`(?m)^func \(f \*File\) Write\(b \[\]byte\) \(n int, err error\) \{\n`, "\tverifWrite(f, b)\n"},
			{`(?m)^func Mkdir\(name string, perm FileMode\) error \{\n`, "\tif _, e := Lstat(name); e != nil {\n\t\tverifMut(\"mkdir\")\n\t}\n"},
			{`(?m)^func Rename\(oldpath, newpath string\) error \{\n`, "\tif _, e := Lstat(oldpath); e == nil {\n\t\tverifMut(\"rename\")\n\t}\n"},
		},
		"file_unix.go": {
			{`(?m)^func Remove\(name string\) error \{\n`, "\tif _, e := Lstat(name); e == nil {\n\t\tverifMut(\"remove\")\n\t}\n"},
			{`(?m)^func \(f \*File\) Truncate\(size int64\) error \{\n`, "\tverifMut(\"truncate\")\n"},
		},
		"path.go": {
			{`(?m)^func MkdirAll\(path string, perm FileMode\) error \{\n`, "\tif _, e := Lstat(path); e != nil && VerifHook != nil && !verifIn {\n\t\tverifMut(\"mkdirall\")\n\t\tverifIn = true\n\t\tdefer func() { verifIn = false }()\n\t}\n"},
			{`(?m)^func RemoveAll\(path string\) error \{\n`, "\tif VerifHook != nil && !verifIn {\n\t\tverifMut(\"removeall\")\n\t\tverifIn = true\n\t\tdefer func() { verifIn = false }()\n\t}\n"},
		},
	}
	for fn, es := range edits {
		b, err := os.ReadFile(filepath.Join(root, fn))
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range es {
			re := regexp.MustCompile(e.re)
			loc := re.FindStringIndex(s)
			if loc == nil {
				if strings.Contains(e.re, "Truncate") {
					continue
				}
				return fmt.Errorf("os hook: %s has no %s", fn, e.re)
			}
			s = s[:loc[1]] + e.ins + s[loc[1]:]
		}
		dst := filepath.Join(n.scratch, "os_"+fn)
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			return err
		}
		repl[filepath.Join(root, fn)] = dst
	}
	dst := filepath.Join(n.scratch, "os_verifhook.go")
	if err := os.WriteFile(dst, []byte(osHookSrc), 0644); err != nil {
		return err
	}
	repl[filepath.Join(root, "verifhook.go")] = dst
	dst = filepath.Join(n.scratch, "vnd_crash_native.go")
	if err := os.WriteFile(dst, []byte(crashNativeSrc), 0644); err != nil {
		return err
	}
	repl[filepath.Join(n.repo, "pkg/zzverif/vnd/crash_native.go")] = dst
	return nil
}

var (
	osExitCall = regexp.MustCompile(`\bos\.Exit\(`)
	syncLine   = regexp.MustCompile(`(?m)^(\s*)([\w.]+\.R?(?:Lock|Unlock)\(\)|[\w.]+ <- .*|<-[\w.]+)$`)
	goStmt     = regexp.MustCompile(`(?m)^(\s*go func\([^)]*\) \{)$`)
)

// codeOverlay lets the replay see the calls of os.Exit in the code under test,
// and be slow at any synchronisation in it.
func (n *nativeBuild) codeOverlay(repl map[string]string, exits bool) error {
	cnt := 0
	return filepath.Walk(filepath.Join(n.repo, "pkg"), func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || repl[path] != "" {
			return err
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(b)
		end := ""
		if exits && osExitCall.MatchString(s) {
			s = osExitCall.ReplaceAllString(s, "zzvnd.Exit(")
			end = "\nvar _ = os.Args\n"
		}
		if n.threads {
			s = syncLine.ReplaceAllString(s, "${1}zzvnd.Jitter(); ${2}; zzvnd.Jitter()")
			s = goStmt.ReplaceAllString(s, "${1} zzvnd.Jitter()")
		}
		if s == string(b) {
			return nil
		}
		loc := regexp.MustCompile(`(?m)^package \w+`).FindStringIndex(s)
		if loc == nil {
			return nil
		}
		s = s[:loc[1]] + "; import zzvnd \"" + modPath + "vnd\"" + s[loc[1]:] + end
		cnt++
		dst := filepath.Join(n.scratch, fmt.Sprintf("code_%d.go", cnt))
		repl[path] = dst
		return os.WriteFile(dst, []byte(s), 0644)
	})
}

func (n *nativeBuild) build() error {
	var err error
	n.scratch, err = os.MkdirTemp("", "symx-replay-")
	if err != nil {
		return err
	}
	repl := map[string]string{}
	usesCrash, usesExit := false, false
	for _, d := range []string{"vnd", "kit", n.dir} {
		ents, err := os.ReadDir(filepath.Join(n.verif, "harness", d))
		if err != nil {
			continue
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				p := filepath.Join(n.verif, "harness", d, e.Name())
				repl[filepath.Join(n.repo, "pkg/zzverif", d, e.Name())] = p
				if d != "vnd" {
					b, err := os.ReadFile(p)
					if err == nil && bytes.Contains(b, []byte("vnd.Crash(")) {
						usesCrash = true
					}
					if err == nil && bytes.Contains(b, []byte("vnd.OnExit(")) {
						usesExit = true
					}
					if err == nil && bytes.Contains(b, []byte("vnd.Preempt(")) {
						n.threads = true
					}
				}
			}
		}
	}
	var m strings.Builder
	fmt.Fprintf(&m, "package main\n\nimport (\n\t\"os\"\n\th %q\n\t\"%svnd\"\n)\n\nfunc main() {\n\tb, err := os.ReadFile(os.Args[2])\n\tif err != nil {\n\t\tos.Exit(13)\n\t}\n\tvnd.Setup(b, os.Args[3])\n\tswitch os.Args[1] {\n", modPath+n.dir, modPath)
	for _, x := range n.names {
		fmt.Fprintf(&m, "\tcase %q:\n\t\th.%s()\n", x, x)
	}
	m.WriteString("\tdefault:\n\t\tos.Exit(13)\n\t}\n\tos.Exit(0)\n}\n")
	mp := filepath.Join(n.scratch, "main.go")
	if err := os.WriteFile(mp, []byte(m.String()), 0644); err != nil {
		return err
	}
	repl[filepath.Join(n.repo, "pkg/zzverif/replaymain/main.go")] = mp
	if usesCrash {
		if err := n.osOverlay(repl); err != nil {
			return err
		}
	}
	if usesExit || n.threads {
		if err := n.codeOverlay(repl, usesExit); err != nil {
			return err
		}
	}
	n.crash = usesCrash
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ovp := filepath.Join(n.scratch, "overlay.json")
	if err := os.WriteFile(ovp, b, 0644); err != nil {
		return err
	}
	n.bin = filepath.Join(n.scratch, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovp, "-o", n.bin, "./pkg/zzverif/replaymain")
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

func (n *nativeBuild) run(h string, ins []Input, tmo time.Duration) nativeResult {
	n.runs++
	type jin struct {
		K string `json:"k"`
		V any    `json:"v"`
	}
	js := []jin{}
	for _, in := range ins {
		js = append(js, jin{in.Kind, in.Val})
	}
	b, _ := json.Marshal(js)
	d, err := os.MkdirTemp(n.scratch, "run-")
	if err != nil {
		return nativeResult{kind: "desync", msg: err.Error()}
	}
	defer os.RemoveAll(d)
	ip := filepath.Join(d, "inputs.json")
	os.WriteFile(ip, b, 0644)
	work := filepath.Join(d, "scratch")
	os.Mkdir(work, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, h, ip, work)
	cmd.Dir = work
	if n.unprivileged() {
		// The code under test deletes and overwrites files: it may reach only its own
		os.Chmod(d, 0755)
		os.Chmod(ip, 0644)
		os.Chown(work, nobody, nobody)
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	cmd.Env = append(os.Environ(), "HOME="+work, "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
	if thoroughTier {
		cmd.Env = append(cmd.Env, "VND_THOROUGH=1")
	}
	if n.jitter > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VND_JITTER=%d", n.jitter))
	}
	var se limBuf
	cmd.Stderr = &se
	err = cmd.Run()
	res := nativeResult{kind: "ok"}
	for _, l := range strings.Split(se.String(), "\n") {
		if strings.HasPrefix(l, "REPLAY-NOTE: ") {
			res.notes = append(res.notes, l[len("REPLAY-NOTE: "):])
		}
	}
	if ctx.Err() != nil {
		return nativeResult{kind: "hang", msg: fmt.Sprintf("no result after %v", tmo)}
	}
	if err != nil {
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		text := se.String()
		switch code {
		case 10:
			res.kind = "assert"
			if i := strings.Index(text, "REPLAY-ASSERT-FAILED: "); i >= 0 {
				res.msg = strings.SplitN(text[i+len("REPLAY-ASSERT-FAILED: "):], "\n", 2)[0]
			}
		case 11:
			res.kind = "assume"
		case 12, 13:
			res.kind = "desync"
		default:
			res.kind = "panic"
			for _, l := range strings.Split(text, "\n") {
				if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
					res.msg = l
					break
				}
			}
			if res.msg == "" {
				res.kind, res.msg = "exit", fmt.Sprintf("exit code %d", code)
			}
			if len(res.msg) > 300 {
				res.msg = res.msg[:300]
			}
		}
	}
	return res
}

const nobody = 65534

// unprivileged reports whether replays can be run as a user that owns nothing
// but the scratch directory.
func (n *nativeBuild) unprivileged() bool {
	n.once.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		os.Chmod(n.scratch, 0755)
		d, err := os.MkdirTemp(n.scratch, "probe-")
		if err != nil {
			return
		}
		defer os.RemoveAll(d)
		os.Chown(d, nobody, nobody)
		cmd := exec.Command("/bin/sh", "-c", "test -x "+n.bin+" && : > f")
		cmd.Dir = d
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		n.unpriv = cmd.Run() == nil
	})
	return n.unpriv
}

type limBuf struct{ b bytes.Buffer }

func (l *limBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limBuf) String() string { return l.b.String() }

// confirm replays a counterexample. Schedules and map iteration order are the
// runtime's there, so it is tried several times.
func (n *nativeBuild) confirm(h string, c *Candidate) nativeResult {
	tries := 25
	if n.tries > 0 {
		tries = n.tries
	}
	n.jitter = 0
	defer func() { n.jitter = 0 }()
	var last nativeResult
	for i := 0; i < tries; i++ {
		if i > 0 && !n.until.IsZero() && time.Now().After(n.until) {
			break
		}
		if n.threads {
			// Where the explored schedule switched threads is a place to be slow at
			n.jitter = i
		}
		last = n.run(h, c.Inputs, 10*time.Second)
		if c.Kind == "hang" || c.Kind == "deadlock" {
			return last
		}
		if last.kind == "assume" || last.kind == "desync" {
			return last
		}
		if last.kind != "ok" {
			if last.kind == "assert" && c.Kind == "assert" && last.msg != c.Msg {
				last.msg += " (interpreted: " + c.Msg + ")"
			}
			return last
		}
	}
	return last
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		return usageExit("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return usageExit("%v", err)
	}
	verif := envOr("VERIF_ROOT", "/verif")
	repo := envOr("VERIF_REPO", "/repo")
	thoroughTier = rf.Thorough
	n := &nativeBuild{verif: verif, repo: repo, dir: rf.Dir, names: []string{rf.Harness}}
	defer n.cleanup()
	if err := n.build(); err != nil {
		return usageExit("%v", err)
	}
	res := n.confirm(rf.Harness, &Candidate{Kind: rf.Kind, Msg: rf.Msg, Inputs: rf.Inputs})
	fmt.Printf("%s %s inputs=%s\n -> %s: %s\n", rf.Property, rf.Harness, rf.Shown, res.kind, res.msg)
	for _, x := range res.notes {
		fmt.Println("  note", x)
	}
	if res.kind == "ok" {
		return 0
	}
	return 1
}

func writeEvidence(verif, id, tier string, seed int, meta *harnessMeta, rs []*harnessResult, funcs map[string]bool, notRep []string, knownHit map[string]bool, nb *nativeBuild, violations int, wall float64) {
	var fs, std []string
	for f := range funcs {
		if strings.Contains(f, "innerr/ticat/pkg/") && !strings.Contains(f, "/zzverif/") {
			fs = append(fs, strings.ReplaceAll(f, "github.com/innerr/ticat/", ""))
		} else if !strings.Contains(f, "/zzverif/") {
			std = append(std, f)
		}
	}
	sort.Strings(fs)
	sort.Strings(std)
	tot := map[string]float64{}
	exh := true
	var samples []string
	for _, r := range rs {
		tot["q"] += float64(r.Queries)
		tot["s"] += r.SolverSec
		tot["p"] += float64(r.Paths)
		tot["as"] += float64(r.AssertSolver)
		tot["ac"] += float64(r.AssertPath)
		tot["dp"] += float64(r.DomPrune)
		tot["ds"] += float64(r.DomSMT)
		exh = exh && r.Exhaustive
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, r.Name+": "+s)
			}
		}
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	cov := map[string]any{
		"explanation": "Bounded symbolic execution of the SSA of /repo's current source: each harness is run on symbolic inputs, every feasible path within the bounds is explored, branch feasibility and the harness assertions are decided by SMT (QF_BV, z3) or, for conditions over a single input byte, by exact byte-set tables (a fixed share of whose infeasibility verdicts, always including the first 200 of each worker, is posed to the solver again; a disagreement fails the check); counterexamples are replayed against the natively built code before they are reported. exhaustive_within_bounds=true means every path within the stated bounds was decided; anything else is a reduced bound and is listed under problems.",
		"bounds":      meta.Bounds, "outside_bounds": meta.Outside, "harnesses": rs, "functions_encoded": fs, "library_functions_encoded": len(std),
		"paths": int(tot["p"]), "smt_queries": int(tot["q"]), "solver_s": tot["s"], "assertions_discharged_by_smt": int(tot["as"]), "assertions_constant_on_a_path": int(tot["ac"]),
		"branches_pruned_by_byte_set": int(tot["dp"]), "byte_set_prunings_confirmed_by_smt": int(tot["ds"]),
		"exhaustive": exh, "native_runs": nb.runs, "not_reproduced": notRep, "known_findings_hit": kh, "samples": samples,
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": meta.Level, "coverage": cov, "assumptions": meta.Assumptions, "wall_s": wall, "violations": violations}
	if tier != "thorough" {
		ev["tier"] = "quick"
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644)
}
