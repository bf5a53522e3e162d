package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/g-rath/osv-detector"

// Engine holds what all workers share: the SSA form of /repo's current tree.
type Engine struct {
	prog          *ssa.Program
	mainPkg       *ssa.Package
	repo, verif   string
	solverBin     []string
	solverTimeout int
	dumpQ         bool
	profile       bool
	verbose       bool
	maxSamples    int
	redirects     map[string]*ssa.Function
	noMerge       map[string]bool
	skipInit      map[string]bool
	errorStringT  types.Type
	seed          uint64
	loadTime      time.Duration
	overlay       map[string]string // repo path -> file under /verif
	goEnv         []string
	scratch       string
	pkgByPath     map[string]*ssa.Package
	mmu           sync.Mutex
	early         bool
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOMODCACHE", "GOCACHE", "GOSUMDB", "HOME", "GOROOT", "GOPATH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "HOME=/root",
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
}

func (e *Engine) buildOverlay(files []string) {
	e.overlay = map[string]string{}
	zzs, _ := filepath.Glob(e.verif + "/harness/zzsym/*.go")
	for _, z := range zzs {
		e.overlay[e.repo+"/internal/zzsym/"+filepath.Base(z)] = z
	}
	e.overlay[e.repo+"/zz_verif_main.go"] = e.verif + "/harness/main.go"
	for _, f := range files {
		e.overlay[e.repo+"/zz_verif_"+f+".go"] = e.verif + "/harness/" + f + ".go"
	}
}

func (e *Engine) load() {
	t0 := time.Now()
	ov := map[string][]byte{}
	for k, v := range e.overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			die("overlay: %v", err)
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Env: e.goEnv, Overlay: ov}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		die("load: %v", err)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				bad = true
			}
			fmt.Fprintln(os.Stderr, "load:", p.PkgPath, er)
		}
	})
	if bad {
		die("the tree (or the harness against it) does not type-check")
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	e.prog = prog
	e.mainPkg = pkgs[0]
	e.pkgByPath = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgByPath[p.Pkg.Path()] = p
	}
	if p := e.pkgByPath["errors"]; p != nil {
		e.errorStringT = p.Type("errorString").Type()
	}
	e.redirects = map[string]*ssa.Function{}
	zp := e.pkgByPath[modPath+"/internal/zzsym"]
	if zp == nil {
		die("zzsym not loaded")
	}
	for from, to := range redirectTable {
		f := zp.Func(to)
		if f == nil {
			die("redirect target zzsym.%s missing", to)
		}
		e.redirects[from] = f
	}
	e.loadTime = time.Since(t0)
}

func (e *Engine) fn(pkg, name string) *ssa.Function {
	p := e.pkgByPath[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (e *Engine) typ(pkg, name string) types.Type {
	p := e.pkgByPath[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (e *Engine) global(pkg, name string) *ssa.Global {
	p := e.pkgByPath[pkg]
	if p == nil {
		return nil
	}
	return p.Var(name)
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.mmu.Lock()
	defer e.mmu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	var sel *types.Selection
	if pkg != nil {
		sel = ms.Lookup(pkg, name)
	} else {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
				break
			}
		}
	}
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// ---- running one harness ----

func newRun(e *Engine, name string, fn *ssa.Function, tier int) *Run {
	r := &Run{eng: e, harness: fn, name: name, tier: tier, Why: map[string]int{}, Cands: map[string][]Candidate{},
		Reached: map[string]int{}, Fns: map[string]int{}, Inputs: map[string]string{}, forks: map[string]int{}, rngState: e.seed*2654435761 + 88172645463325252}
	r.cond = sync.NewCond(&r.mu)
	return r
}

func (r *Run) addFn(fi *fnInfo) { r.Fns[fi.name]++ }

func (e *Engine) explore(name string, tier int, budget time.Duration, nw int) *Run {
	fn := e.mainPkg.Func(name)
	if fn == nil {
		die("harness %s not found", name)
	}
	t0 := time.Now()
	sh := newRun(e, name, fn, tier)
	sh.deadline = t0.Add(budget)
	sh.push([]Job{{}})
	var wg sync.WaitGroup
	runs := make([]*Run, nw)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := newWorker(e, i)
			defer w.sol.close()
			r := newRun(e, name, fn, tier)
			r.rngState += uint64(i) * 7919
			runs[i] = r
			w.run, w.shared = r, sh
			w.maxSteps = 40_000_000
			for {
				j, ok := sh.next()
				if !ok {
					break
				}
				w.runJob(j)
				sh.done()
			}
			w.solverStats()
		}(i)
	}
	wg.Wait()
	for _, r := range runs {
		sh.merge(r)
	}
	sh.wall = time.Since(t0)
	return sh
}

func (w *Worker) solverStats() {
	r, s := w.run, w.sol
	r.Queries, r.NSat, r.NUnsat = s.Queries, s.NSat, s.NUnsat
	r.SolverTime = s.Time
	r.MaxQuery = s.MaxQuery
}

func (r *Run) merge(o *Run) {
	r.Completed += o.Completed
	r.Assumed += o.Assumed
	r.Unsup += o.Unsup
	r.StepLim += o.StepLim
	r.Deadlock += o.Deadlock
	r.Asserts += o.Asserts
	r.AssertQueries += o.AssertQueries
	r.NCands += o.NCands
	r.Queries += o.Queries
	r.NSat += o.NSat
	r.NUnsat += o.NUnsat
	r.NUnk += o.NUnk
	r.CacheHits += o.CacheHits
	r.DomHits += o.DomHits
	r.ModelHits += o.ModelHits
	r.Audits += o.Audits
	r.AuditBad += o.AuditBad
	r.SolverTime += o.SolverTime
	r.Merges += o.Merges
	r.MergePaths += o.MergePaths
	r.Steps += o.Steps
	if o.MaxQuery > r.MaxQuery {
		r.MaxQuery = o.MaxQuery
	}
	for k, v := range o.Why {
		r.Why[k] += v
	}
	for k, v := range o.Cands {
		if len(r.Cands[k]) < 6 {
			r.Cands[k] = append(r.Cands[k], v...)
		}
	}
	for k, v := range o.Reached {
		r.Reached[k] += v
	}
	for k, v := range o.Fns {
		r.Fns[k] += v
	}
	for k, v := range o.forks {
		r.forks[k] += v
	}
	r.Samples = append(r.Samples, o.Samples...)
}

func (r *Run) exhaustive() bool { return !r.Timeout && r.Unsup == 0 && r.StepLim == 0 && r.NUnk == 0 }

func (r *Run) print(verbose bool) {
	fmt.Printf("  %s: %d paths (%d completed, %d infeasible/assumed away, %d outside the engine, %d step limit), %d assertions (%d solver), %d queries sat=%d unsat=%d unknown=%d, solver %.1fs, dom=%d model=%d cache=%d, merges=%d/%d, timeout=%v, left=%d, wall %.1fs\n",
		r.name, r.Paths, r.Completed, r.Assumed, r.Unsup, r.StepLim, r.Asserts, r.AssertQueries, r.Queries, r.NSat, r.NUnsat, r.NUnk, r.SolverTime.Seconds(),
		r.DomHits, r.ModelHits, r.CacheHits, r.Merges, r.MergePaths, r.Timeout, len(r.stack), r.wall.Seconds())
	if !verbose {
		return
	}
	pm := func(title string, m map[string]int, n int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
		if len(ks) > n {
			ks = ks[:n]
		}
		for _, k := range ks {
			fmt.Printf("    %s %6d %s\n", title, m[k], k)
		}
	}
	pm("why", r.Why, 20)
	pm("reach", r.Reached, 40)
	if r.eng.profile {
		pm("fork", r.forks, 30)
	}
	for k, c := range r.Cands {
		b, _ := json.Marshal(c[0].Values)
		fmt.Printf("    CANDIDATE %s at %s: %s\n", k, c[0].Where, b)
	}
}

// ---- entry ----

func main() {
	if len(os.Args) < 2 {
		die("usage: engine check|run ...")
	}
	cmd := os.Args[1]
	for _, kv := range goEnv() {
		k, v, _ := strings.Cut(kv, "=")
		os.Setenv(k, v)
	}
	os.Unsetenv("GOROOT")
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick|thorough")
	fnName := fs.String("fn", "", "harness function (run)")
	files := fs.String("files", "", "harness files (run)")
	secs := fs.Int("t", 60, "seconds (run)")
	nw := fs.Int("j", 8, "workers")
	verbose := fs.Bool("v", false, "")
	profile := fs.Bool("profile", false, "")
	dumpQ := fs.Bool("dumpq", false, "")
	scale := fs.Float64("scale", 1, "time budget multiplier (check)")
	fs.Parse(os.Args[2:])
	e := &Engine{repo: *repo, verif: *verif, solverBin: []string{"z3-new", "-in"}, solverTimeout: 20000, verbose: *verbose, profile: *profile, dumpQ: *dumpQ,
		maxSamples: 6, noMerge: map[string]bool{}, skipInit: map[string]bool{}, seed: 1, goEnv: goEnv()}
	for _, n := range noMergeFns {
		e.noMerge[n] = true
	}
	for _, n := range skipInitPkgs {
		e.skipInit[n] = true
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &e.seed)
	}
	t := 0
	if *tier == "thorough" {
		t = 1
	}
	switch cmd {
	case "run":
		var fl []string
		if *files != "" {
			fl = strings.Split(*files, ",")
		}
		e.buildOverlay(fl)
		e.load()
		fmt.Printf("loaded in %.1fs\n", e.loadTime.Seconds())
		for _, n := range strings.Split(*fnName, ",") {
			r := e.explore(n, t, time.Duration(*secs)*time.Second, *nw)
			r.print(true)
			e.confirm([]*Run{r}, true)
		}
		e.cleanup()
	case "check":
		os.Exit(e.check(*prop, *tier, *nw, *scale))
	case "replay":
		os.Exit(e.replay(fs.Arg(0)))
	default:
		die("unknown command %s", cmd)
	}
}

var noMergeFns = []string{}
var skipInitPkgs = []string{}
