package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type harnessCfg struct {
	Fn       string `json:"fn"`
	Quick    int    `json:"quick"`    // seconds
	Thorough int    `json:"thorough"` // seconds
	Bounds   string `json:"bounds"`
	Race     bool   `json:"race"`
}

type propCfg struct {
	Property  string       `json:"property"`
	Files     []string     `json:"files"`
	Level     string       `json:"level"`
	Harnesses []harnessCfg `json:"harnesses"`
	Assume    []string     `json:"assumptions"`
	Outside   string       `json:"outside"`
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	Where    string `json:"where"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

type nativeCase struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Values  map[string]uint64 `json:"values"`
}

type nativeResult struct {
	Observes []string `json:"observes"`
	Failed   []string `json:"failed"`
	Assumed  bool     `json:"assumed"`
	Done     bool     `json:"done"`
	Crash    string   `json:"crash"`
	Timeout  bool     `json:"timeout"`
}

// ---- native replay ----

func (e *Engine) scratchDir() string {
	if e.scratch == "" {
		d, err := os.MkdirTemp("", "vsym")
		if err != nil {
			die("scratch: %v", err)
		}
		e.scratch = d
	}
	return e.scratch
}

func (e *Engine) cleanup() {
	if e.scratch != "" && strings.Contains(e.scratch, "vsym") {
		os.RemoveAll(e.scratch)
	}
}

func (e *Engine) buildNative(race bool) (string, error) {
	d := e.scratchDir()
	bin := d + "/native"
	if race {
		bin += "-race"
	}
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	ovf := d + "/overlay.json"
	b, _ := json.Marshal(map[string]any{"Replace": e.overlay})
	os.WriteFile(ovf, b, 0o644)
	args := []string{"build", "-overlay", ovf, "-o", bin}
	env := e.goEnv
	if race {
		args = append(args, "-race")
		env = append(append([]string(nil), env...), "CGO_ENABLED=1")
	}
	args = append(args, ".")
	c := exec.Command("go", args...)
	c.Path = "/opt/veriftools/go1.24.13/bin/go"
	c.Dir = e.repo
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func (e *Engine) runNative(bin string, nc nativeCase) nativeResult {
	dir, err := os.MkdirTemp(e.scratchDir(), "case")
	if err != nil {
		return nativeResult{Crash: "scratch: " + err.Error()}
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(dir+"/w", 0o755)
	os.MkdirAll(dir+"/tmp", 0o755)
	cf, of := dir+"/case.json", dir+"/out.json"
	b, _ := json.Marshal(nc)
	os.WriteFile(cf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Dir = dir + "/w"
	c.Env = append(append([]string(nil), e.goEnv...), "VERIF_CASE="+cf, "VERIF_OUT="+of, "TMPDIR="+dir+"/tmp", "NO_COLOR=1", "GORACE=halt_on_error=1 exitcode=66")
	var eb bytes.Buffer
	c.Stderr = &eb
	c.Stdout = &eb
	err = c.Run()
	var res nativeResult
	if rb, rerr := os.ReadFile(of); rerr == nil {
		json.Unmarshal(rb, &res)
	}
	if ctx.Err() != nil {
		res.Timeout = true
	}
	if !res.Done || err != nil {
		s := eb.String()
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 3000 {
			s = s[:3000]
		}
		res.Crash = fmt.Sprintf("%v: %s", err, s)
	}
	return res
}

type confirmed struct {
	Cand   Candidate
	Native nativeResult
}

type confirmOut struct {
	confirmed   []confirmed
	unconfirmed []string
	validated   int
	mismatches  []string
	samples     []map[string]any
	extra       int
}

func sameCase(a, b map[string]uint64) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// confirm replays candidates and sampled paths against the real code.
func (e *Engine) confirm(runs []*Run, verbose bool) confirmOut {
	var out confirmOut
	bin, err := e.buildNative(false)
	if err != nil {
		die("%v", err)
	}
	type task struct {
		r    *Run
		cand *Candidate
		s    *Sample
		res  nativeResult
		race bool
	}
	var tasks []*task
	for _, r := range runs {
		for _, k := range sortedKeys(r.Cands) {
			for i := range r.Cands[k] {
				c := &r.Cands[k][i]
				tasks = append(tasks, &task{r: r, cand: c, race: c.Kind == "race"})
			}
		}
		for i := range r.Samples {
			tasks = append(tasks, &task{r: r, s: &r.Samples[i]})
		}
	}
	raceBin := ""
	for _, t := range tasks {
		if t.race && raceBin == "" {
			raceBin, err = e.buildNative(true)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, t := range tasks {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			nc := nativeCase{Harness: t.r.name, Tier: t.r.tier}
			b := bin
			if t.cand != nil {
				nc.Values = t.cand.Values
			} else {
				nc.Values = t.s.Values
			}
			n := 1
			if t.race {
				if raceBin == "" {
					return
				}
				b, n = raceBin, 20
			}
			for i := 0; i < n; i++ {
				t.res = e.runNative(b, nc)
				if t.race && strings.Contains(t.res.Crash, "DATA RACE") {
					break
				}
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	unc := map[string]string{}
	for _, t := range tasks {
		res := t.res
		if t.cand != nil {
			ok := false
			switch t.cand.Kind {
			case "assert":
				for _, f := range res.Failed {
					if f == t.cand.Msg {
						ok = true
					}
				}
				if !ok && len(res.Failed) > 0 && !res.Assumed { // fails, for a neighbouring reason
					ok = true
				}
				if !ok && res.Crash != "" && !res.Timeout {
					ok = true
				}
			case "panic":
				ok = res.Crash != "" && !res.Timeout
			case "deadlock":
				ok = res.Timeout || strings.Contains(res.Crash, "deadlock")
			case "race":
				ok = strings.Contains(res.Crash, "DATA RACE")
			}
			key := t.r.name + "|" + t.cand.Kind + "|" + t.cand.Msg
			if ok {
				if !seen[key] {
					out.confirmed = append(out.confirmed, confirmed{*t.cand, res})
				}
				seen[key] = true
			} else {
				rb, _ := json.Marshal(res)
				vb, _ := json.Marshal(t.cand.Values)
				unc[key] = fmt.Sprintf("%s at %s values=%s native=%s", key, t.cand.Where, vb, rb)
			}
			continue
		}
		// a sampled path
		if res.Crash != "" || len(res.Failed) > 0 {
			msg, kind := "the real code crashes: "+firstLine(res.Crash), "panic"
			if len(res.Failed) > 0 {
				msg, kind = res.Failed[0], "assert"
			}
			if t.s.Unsup == "" || !res.Assumed {
				c := Candidate{Harness: t.r.name, Msg: msg, Kind: kind, Where: "native run of an explored path", Values: t.s.Values, Tier: t.r.tier}
				key := t.r.name + "|" + kind + "|" + msg
				if !seen[key] {
					seen[key] = true
					out.confirmed = append(out.confirmed, confirmed{c, res})
				}
			}
			continue
		}
		if t.s.Unsup != "" {
			out.extra++
			continue
		}
		if res.Assumed || strings.Join(res.Observes, "\x00") != strings.Join(t.s.Observes, "\x00") {
			out.mismatches = append(out.mismatches, fmt.Sprintf("%s: engine %q, real code %q (assumed=%v) for %v", t.r.name, t.s.Observes, res.Observes, res.Assumed, t.s.Values))
			continue
		}
		out.validated++
		if len(out.samples) < 6 {
			out.samples = append(out.samples, map[string]any{"harness": t.r.name, "values": t.s.Values, "observed": t.s.Observes})
		}
	}
	for k, v := range unc {
		if !seen[k] {
			out.unconfirmed = append(out.unconfirmed, v)
		}
	}
	sort.Strings(out.unconfirmed)
	if verbose {
		for _, c := range out.confirmed {
			fmt.Printf("    CONFIRMED %s %s: %s\n      native: failed=%v crash=%s\n", c.Cand.Kind, c.Cand.Msg, c.Cand.Where, c.Native.Failed, firstLines(c.Native.Crash, 12))
		}
		for _, u := range out.unconfirmed {
			fmt.Printf("    UNCONFIRMED %s\n", u)
		}
		for i, m := range out.mismatches {
			if i < 3 {
				fmt.Printf("    MISMATCH %s\n", m)
			}
		}
		fmt.Printf("    validated %d sampled paths natively, %d extra native runs of unsupported paths\n", out.validated, out.extra)
	}
	return out
}

func firstLine(s string) string { return firstLines(s, 1) }
func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- the check command ----

func (e *Engine) check(prop, tier string, nw int, scale float64) int {
	defer e.cleanup()
	t0 := time.Now()
	var cfgs []propCfg
	b, err := os.ReadFile(e.verif + "/harness/checks.json")
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		die("checks.json: %v", err)
	}
	var cfg *propCfg
	for i := range cfgs {
		if cfgs[i].Property == prop {
			cfg = &cfgs[i]
		}
	}
	if cfg == nil {
		die("no check for property %s", prop)
	}
	var findings []finding
	if b, err := os.ReadFile(e.verif + "/known_findings.json"); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	e.buildOverlay(cfg.Files)
	natErr := make(chan error, 1)
	go func() { _, err := e.buildNative(false); natErr <- err }()
	e.scratchDir()
	e.load()
	if err := <-natErr; err != nil {
		die("%v", err)
	}
	ti := 0
	if tier == "thorough" {
		ti = 1
	}
	var runs []*Run
	var res confirmOut
	for _, h := range cfg.Harnesses {
		s := h.Quick
		if ti == 1 {
			s = h.Thorough
			if s == 0 {
				s = h.Quick * 10
			}
		}
		if s == 0 {
			continue
		}
		budget := time.Duration(float64(s) * scale * float64(time.Second))
		r := e.exploreEarly(h.Fn, ti, budget, nw, true)
		o := e.confirm([]*Run{r}, false)
		if len(r.Cands) > 0 && len(o.confirmed) == 0 && r.Timeout {
			// nothing confirmed: use the whole budget
			r = e.exploreEarly(h.Fn, ti, budget, nw, false)
			o = e.confirm([]*Run{r}, false)
		}
		r.bounds = h.Bounds
		r.print(false)
		runs = append(runs, r)
		res.confirmed = append(res.confirmed, o.confirmed...)
		res.unconfirmed = append(res.unconfirmed, o.unconfirmed...)
		res.mismatches = append(res.mismatches, o.mismatches...)
		res.samples = append(res.samples, o.samples...)
		res.validated += o.validated
		res.extra += o.extra
	}
	// verdict
	violations := 0
	known := map[string]bool{}
	rdir := e.verif + "/evidence/replay"
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(rdir + "/" + prop + "-*.json")
	for _, f := range old {
		os.Remove(f)
	}
	for _, c := range res.confirmed {
		listed := false
		for _, f := range findings {
			if f.Property == prop && f.Status == "known" && f.Harness == c.Cand.Harness && (strings.Contains(c.Cand.Msg, f.Match) && f.Match != "") && strings.Contains(c.Cand.Where+c.Native.Crash, f.Where) {
				listed = true
				if !known[f.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
				}
				known[f.What] = true
			}
		}
		if listed {
			continue
		}
		violations++
		path := fmt.Sprintf("%s/%s-%d.json", rdir, prop, violations)
		jb, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": c.Cand.Harness, "tier": c.Cand.Tier, "kind": c.Cand.Kind, "assertion": c.Cand.Msg,
			"where": c.Cand.Where, "values": c.Cand.Values, "real_code": c.Native, "replay_cmd": "bash /verif/replay.sh " + path}, "", "  ")
		os.WriteFile(path, jb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s [%s] in %s\n", c.Cand.Msg, c.Cand.Kind, c.Cand.Harness)
	}
	for _, u := range res.unconfirmed {
		fmt.Printf("note: solver candidate not reproduced by the real code (not reported): %.400s\n", u)
	}
	for _, m := range res.mismatches {
		fmt.Printf("note: model/real divergence on a sampled path: %.400s\n", m)
	}
	e.writeEvidence(cfg, prop, tier, runs, res, violations, t0)
	if violations > 0 {
		return 1
	}
	fmt.Printf("OK property=%s (%.1fs)\n", prop, time.Since(t0).Seconds())
	return 0
}

// replay runs a recorded counterexample on the real code: exit 1 if it still fails.
func (e *Engine) replay(path string) int {
	defer e.cleanup()
	var rec struct {
		Property, Harness, Kind, Assertion string
		Tier                               int
		Values                             map[string]uint64
	}
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		die("%s: %v", path, err)
	}
	var cfgs []propCfg
	b, err = os.ReadFile(e.verif + "/harness/checks.json")
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &cfgs); err != nil {
		die("checks.json: %v", err)
	}
	for _, c := range cfgs {
		if c.Property == rec.Property {
			e.buildOverlay(c.Files)
		}
	}
	e.scratchDir()
	bin, err := e.buildNative(rec.Kind == "race")
	if err != nil {
		die("%v", err)
	}
	n := 1
	if rec.Kind == "race" {
		n = 20
	}
	var res nativeResult
	for range n {
		res = e.runNative(bin, nativeCase{Harness: rec.Harness, Tier: rec.Tier, Values: rec.Values})
		if res.Crash != "" {
			break
		}
	}
	fmt.Printf("harness %s, %s: %s\n", rec.Harness, rec.Kind, rec.Assertion)
	fmt.Printf("failed assertions: %q\ncrash: %s\ntimeout: %v\nobserved: %q\n", res.Failed, res.Crash, res.Timeout, res.Observes)
	if len(res.Failed) > 0 || res.Crash != "" || res.Timeout {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rec.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func (e *Engine) exploreEarly(fn string, tier int, budget time.Duration, nw int, early bool) *Run {
	e.early = early
	return e.explore(fn, tier, budget, nw)
}

func (e *Engine) writeEvidence(cfg *propCfg, prop, tier string, runs []*Run, res confirmOut, violations int, t0 time.Time) {
	states, trans := 0, 0
	var hs []map[string]any
	fns := map[string]bool{}
	libs := map[string]bool{}
	exhaustive := true
	queries, sat, unsat, unk, asserts, aq := 0, 0, 0, 0, 0, 0
	solver := time.Duration(0)
	reached := map[string]int{}
	for _, r := range runs {
		states += r.Paths
		trans += int(r.Steps)
		queries += r.Queries
		sat += r.NSat
		unsat += r.NUnsat
		unk += r.NUnk
		asserts += r.Asserts
		aq += r.AssertQueries
		solver += r.SolverTime
		for k := range r.Fns {
			if strings.Contains(k, modPath) && !strings.Contains(k, "zzsym") && !strings.Contains(k, ".verif") {
				fns[k] = true
			} else if !strings.Contains(k, "zzsym") && !strings.Contains(k, modPath) {
				libs[k] = true
			}
		}
		for k, v := range r.Reached {
			reached[k] += v
		}
		if !r.exhaustive() {
			exhaustive = false
		}
		h := map[string]any{"harness": r.name, "bounds": r.bounds, "paths": r.Paths, "paths_completed": r.Completed, "paths_assumed_away": r.Assumed,
			"paths_outside_encoding": r.Unsup, "paths_step_limit": r.StepLim, "assertions_evaluated": r.Asserts, "assertions_decided_by_solver": r.AssertQueries,
			"solver_queries": r.Queries, "sat": r.NSat, "unsat": r.NUnsat, "unknown": r.NUnk, "solver_s": round(r.SolverTime.Seconds()), "max_query_s": round(r.MaxQuery.Seconds()),
			"answers_from_cache": r.CacheHits, "byte_domain_answers": r.DomHits, "byte_domain_answers_crosschecked": r.Audits, "crosscheck_disagreements": r.AuditBad, "model_reuse_answers": r.ModelHits, "merged_calls": r.Merges, "merged_call_paths": r.MergePaths,
			"budget_exhausted": r.Timeout, "paths_left": len(r.stack), "exhaustive_within_bounds": r.exhaustive(), "wall_s": round(r.wall.Seconds())}
		if len(r.Why) > 0 {
			h["left_out_because"] = topN(r.Why, 8)
		}
		hs = append(hs, h)
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": res.validated, "samples": res.samples, "exhaustive": exhaustive,
		"harnesses": hs, "functions_encoded": keysOf(fns), "library_functions_encoded": len(libs), "solver_queries": queries, "sat": sat, "unsat": unsat, "unknown": unk,
		"solver_s": round(solver.Seconds()), "assertions_evaluated": asserts, "assertions_decided_by_solver": aq, "reached": reached,
		"states_meaning":                        "symbolic paths explored; each stands for all inputs satisfying its path condition",
		"transitions_meaning":                   "SSA instructions executed symbolically",
		"native_runs_of_paths_outside_encoding": res.extra,
	}
	if cfg.Outside != "" {
		cov["outside_bounds"] = cfg.Outside
	}
	if len(res.unconfirmed) > 0 {
		cov["unconfirmed_candidates"] = res.unconfirmed
	}
	if len(res.mismatches) > 0 {
		cov["model_divergences"] = res.mismatches
	}
	if cov["samples"] == nil || len(res.samples) == 0 {
		cov["samples"] = []any{}
	}
	seed := int64(e.seed)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": cfg.Level, "coverage": cov, "wall_s": round(time.Since(t0).Seconds()), "violations": violations,
		"assumptions": append([]string{"library functions replaced by models (file system, HTTP transport, archives, JSON/YAML/TOML/XML decoding, regexp matching, math/big) behave as the models in engine/ and harness/zzsym; sampled paths are replayed on the real code"}, cfg.Assume...)}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(e.verif+"/evidence", 0o755)
	os.WriteFile(e.verif+"/evidence/"+prop+".json", b, 0o644)
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func topN(m map[string]int, n int) map[string]int {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	out := map[string]int{}
	for i, k := range ks {
		if i >= n {
			break
		}
		out[k] = m[k]
	}
	return out
}
