package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var thoroughTier bool

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{
		"GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off", "GO111MODULE": "on", "GOWORK": "off",
		"GOFLAGS": "-mod=mod -buildvcs=false", "CGO_ENABLED": "0",
	}
	var out []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

// loadProgram loads /repo plus the harness overlay and builds its SSA.
func loadProgram(repo string, overlay map[string][]byte, pattern string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: overlay}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	prg := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repoPkg: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		prg.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), "github.com/") {
			prg.repoPkg[p] = true
		}
	}
	rt := prg.pkgs["runtime"]
	if rt == nil {
		return nil, fmt.Errorf("package runtime not loaded")
	}
	prg.rtErr = rt.Type("errorString").Type()
	return prg, nil
}

func (prg *Program) harness(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	pkg := prg.pkgs[name[:i]]
	if pkg == nil {
		panic(unsupported("no harness package " + name))
	}
	f := pkg.Func(name[i+1:])
	if f == nil {
		panic(unsupported("no harness " + name))
	}
	return f
}

var _ = types.Typ

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(cmdCheck(os.Args[2:]))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("h", "", "harness dir (under /verif/harness)")
	fname := fs.String("f", "", "harness function")
	workers := fs.Int("w", 8, "")
	tmo := fs.Duration("t", 60*time.Second, "")
	maxp := fs.Int("paths", 0, "")
	solver := fs.String("solver", "z3-new", "")
	dbg := fs.Bool("dbg", false, "")
	steps := fs.Int64("steps", 0, "")
	th := fs.Bool("thorough", false, "")
	fs.Parse(os.Args[1:])
	debugPanics = *dbg
	thoroughTier = *th
	t0 := time.Now()
	ov, err := buildOverlay(envOr("VERIF_ROOT", "/verif"), *repo, *dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	prg, err := loadProgram(*repo, ov, "./pkg/zzverif/"+*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	fns := []string{*fname}
	if *fname == "" {
		fns = listHarness(prg, *dir)
	}
	for _, f := range fns {
		o := defaultOptions()
		o.Workers, o.Timeout, o.MaxPaths, o.Solver = *workers, *tmo, *maxp, *solver
		if *steps > 0 {
			o.MaxSteps = *steps
		}
		ex := NewExplorer(prg, "github.com/innerr/ticat/pkg/zzverif/"+*dir+"."+f, o)
		t1 := time.Now()
		if err := ex.Run(); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		q, ns, dom, as, ac := 0, int64(0), 0, 0, 0
		for _, w := range ex.workers {
			q += w.solver.queries
			ns += w.solver.nanos
			dom += w.domDec
			as += w.assertSolver
			ac += w.assertConc
		}
		st := ex.stats
		fmt.Printf("%s: paths=%d done=%d assumed=%d cands=%d limit=%d unsup=%d unknown=%d leftover=%d timedout=%v steps=%d queries=%d solver=%.1fs dom=%d asserts(solver)=%d asserts(path)=%d wall=%v\n",
			f, st.Paths, st.Completed, st.Assumed, st.Cands, st.LimitHit, st.Unsup, st.Unknown, ex.leftover, ex.timedOut, st.Steps, q, float64(ns)/1e9, dom, as, ac, time.Since(t1))
		fmt.Println("  reached:", st.Reached)
		var ms []string
		for m, n := range st.UnsupMsgs {
			ms = append(ms, fmt.Sprintf("%d x %s", n, m))
		}
		sort.Strings(ms)
		for _, m := range ms {
			fmt.Println("  UNSUP", m)
		}
		for k, c := range ex.cands {
			fmt.Println("  CAND", k, len(c), showInputs(c[0].Inputs), c[0].Stack)
			for _, n := range c[0].Notes {
				fmt.Println("      note", n)
			}
		}
		for _, sm := range ex.samples {
			s := sm.String()
			if len(s) > 300 {
				s = s[:300]
			}
			fmt.Println("  ", s)
		}
	}
}

func defaultOptions() Options {
	return Options{Workers: 8, MaxSteps: 3000000, MaxDepth: 400, Timeout: 60 * time.Second, Solver: "z3-new", SolverMs: 10000, Preempt: 2, Seed: 1}
}

func listHarness(prg *Program, dir string) []string {
	pkg := prg.pkgs["github.com/innerr/ticat/pkg/zzverif/"+dir]
	var out []string
	for n, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 && f.Signature.Recv() == nil {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// buildOverlay maps the harness sources into /repo's module.
func buildOverlay(verif, repo, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	add := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			ov[filepath.Join(repo, dst, e.Name())] = b
		}
		return nil
	}
	if err := add(filepath.Join(verif, "harness", "vnd"), "pkg/zzverif/vnd"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", "kit"), "pkg/zzverif/kit"); err != nil && !os.IsNotExist(err) {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", dir), "pkg/zzverif/"+dir); err != nil {
		return nil, err
	}
	return ov, nil
}
