package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// checkCfg is harness/<id>/check.json.
type checkCfg struct {
	Title       string   `json:"title"`
	Bounds      []string `json:"bounds"`
	Assumptions []string `json:"assumptions"`
	QuickSecs   int      `json:"quick_secs"`
	ThorSecs    int      `json:"thorough_secs"`
	MaxSteps    int64    `json:"max_steps"`
	SolverMs    int      `json:"solver_ms"`
	Main        bool     `json:"main"`
	Env         []string `json:"env"`
	// Witness names that must be reached for the run to count as non-vacuous.
	Reach []string `json:"reach"`
}

type finding struct {
	Property string           `json:"property"`
	Status   string           `json:"status"` // known or fixed
	Harness  string           `json:"harness"`
	Match    string           `json:"match"` // substring of the assertion label
	Witness  map[string]int64 `json:"witness"`
	What     string           `json:"what"`
	Commit   string           `json:"commit,omitempty"`
}

type replayFile struct {
	Property, Harness, Kind, Msg string
	Inputs                       map[string]int64
	Sched, Jitter                bool
	Tier                         string
	NativeKind, NativeMsg        string
}

func cliMain() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gosym run ID | gosym replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runCheck(os.Args[2], os.Args[3:]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	}
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type ovFile struct {
	src  string
	data []byte
}

// overlay builds the engine overlay (no native-only files) and the native one.
func overlay(vd, repo, id string, cfg *checkCfg) (eng map[string]string, nat map[string]string, hpkg string) {
	eng, nat = map[string]string{}, map[string]string{}
	add := func(dst, src string, nativeOnly bool) {
		nat[dst] = src
		if !nativeOnly {
			eng[dst] = src
		}
	}
	h := filepath.Join(vd, "harness")
	z := filepath.Join(repo, "zzverif")
	add(filepath.Join(z, "sym", "sym.go"), filepath.Join(h, "sym", "sym.go"), false)
	add(filepath.Join(z, "sym", "serve.go"), filepath.Join(h, "sym", "serve.go"), true)
	for _, l := range []string{"lib"} {
		m, _ := filepath.Glob(filepath.Join(h, l, "*.go"))
		for _, f := range m {
			add(filepath.Join(z, l, filepath.Base(f)), f, false)
		}
	}
	d := filepath.Join(h, id)
	m, _ := filepath.Glob(filepath.Join(d, "*.go"))
	for _, f := range m {
		if cfg.Main {
			add(filepath.Join(repo, "zz_verif_"+filepath.Base(f)), f, false)
		} else {
			add(filepath.Join(z, "h"+strings.ToLower(id), filepath.Base(f)), f, false)
		}
	}
	filepath.Walk(filepath.Join(d, "shim"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(filepath.Join(d, "shim"), p)
			add(filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel)), p, false)
		}
		return nil
	})
	hpkg = modPath + "/zzverif/h" + strings.ToLower(id)
	if cfg.Main {
		hpkg = modPath
	}
	return
}

func readOverlay(m map[string]string) map[string][]byte {
	r := map[string][]byte{}
	for d, s := range m {
		b, err := os.ReadFile(s)
		if err == nil {
			r[d] = b
		}
	}
	return r
}

// buildNative compiles the replay runner; returns the binary.
func buildNative(repo, tmp string, nat map[string]string, hpkg string, hs []string, isMain bool, variant string) (string, error) {
	var sb strings.Builder
	ov := map[string]string{}
	for k, v := range nat {
		ov[k] = v
	}
	tgt := filepath.Join(repo, "zzverif", "run", "main.go")
	pkg := "./zzverif/run"
	if isMain {
		tgt = filepath.Join(repo, "zz_verif_serve.go")
		pkg = "."
		fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\t\"%s/zzverif/sym\"\n)\n\nfunc init() {\n\tif os.Getenv(\"ZZVERIF\") == \"\" {\n\t\treturn\n\t}\n\tsym.Serve(map[string]func(){\n", modPath)
		for _, h := range hs {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", h, h)
		}
		sb.WriteString("\t})\n}\n")
	} else {
		fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t\"%s/zzverif/sym\"\n)\n\nfunc main() {\n\tsym.Serve(map[string]func(){\n", hpkg, modPath)
		for _, h := range hs {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h, h)
		}
		sb.WriteString("\t})\n}\n")
	}
	mf := filepath.Join(tmp, "runmain.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov[tgt] = mf
	if variant == "jitter" {
		jitterOverlay(repo, tmp, ov)
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay"+variant+".json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(tmp, "runner"+variant)
	return bin, goBuild(repo, of, bin, pkg, variant == "race")
}

type hRes struct {
	Name       string
	St         Stats
	Replays    int64
	ReplayOK   int64
	Mismatch   int64
	TieSkips   int64
	Unrep      int64
	Samples    []*PathRec
	Wall       float64
	MismatchEx []string
	UnrepEx    []string
}

type checker struct {
	id, vd, repo, tier string
	cfg                checkCfg
	nat                *native
	known              []finding
	mu                 sync.Mutex
	viol               []*replayFile
	knownHit           map[int]bool
	knownN             int64
}

func replayReps(sched bool) int {
	if sched {
		return 300
	}
	return 1
}

const replayTO = 10 * time.Second

func (c *checker) isKnown(harness, msg string) int {
	for i, f := range c.known {
		if f.Status == "known" && f.Harness == harness && strings.Contains(msg, f.Match) {
			return i
		}
	}
	return -1
}

// confirmed handles a natively reproduced failure; true stops the exploration.
func (c *checker) confirmed(rf *replayFile) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if k := c.isKnown(rf.Harness, rf.NativeMsg); k >= 0 {
		c.knownHit[k] = true
		c.knownN++
		return false
	}
	c.viol = append(c.viol, rf)
	return true
}

func runCheck(id string, args []string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	only := ""
	for _, a := range args {
		switch {
		case a == "quick" || a == "thorough":
			tier = a
		case strings.HasPrefix(a, "H"):
			only = a
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	vd, repo := verifDir(), repoDir()
	c := &checker{id: id, vd: vd, repo: repo, tier: tier, knownHit: map[int]bool{}}
	if b, err := os.ReadFile(filepath.Join(vd, "harness", id, "check.json")); err != nil {
		fmt.Println("no check.json:", err)
	} else if err := json.Unmarshal(b, &c.cfg); err != nil {
		fmt.Println("check.json:", err)
	}
	if c.cfg.QuickSecs == 0 {
		c.cfg.QuickSecs = 120
	}
	if c.cfg.ThorSecs == 0 {
		c.cfg.ThorSecs = 780
	}
	if c.cfg.MaxSteps == 0 {
		c.cfg.MaxSteps = 20000000
	}
	if c.cfg.SolverMs == 0 {
		c.cfg.SolverMs = 20000
	}
	if b, err := os.ReadFile(filepath.Join(vd, "known-findings.json")); err == nil {
		var all struct{ Findings []finding }
		json.Unmarshal(b, &all)
		for _, f := range all.Findings {
			if f.Property == id {
				c.known = append(c.known, f)
			}
		}
	}
	tmp, err := os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		fmt.Println("tmp:", err)
		return 0
	}
	defer os.RemoveAll(tmp)

	budget := time.Duration(c.cfg.QuickSecs) * time.Second
	if tier == "thorough" {
		budget = time.Duration(c.cfg.ThorSecs) * time.Second
	}
	if s := os.Getenv("GOSYM_SECS"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking"}
	var notes []string
	var results []*hRes
	funcs := &sync.Map{}
	finish := func() int { return c.finish(ev, results, funcs, notes, start) }

	eng, nat, hpkg := overlay(vd, repo, id, &c.cfg)
	pr, err := loadProg(repo, readOverlay(eng), []string{modPath + "/zzverif/sym", modPath + "/zzverif/lib", hpkg})
	if err != nil {
		notes = append(notes, "could not load the program: "+err.Error())
		return finish()
	}
	for _, e := range pr.errors {
		if strings.Contains(e, "zzverif") || strings.Contains(e, "zz_verif") {
			notes = append(notes, "load error: "+e)
		}
	}
	hs := pr.harnesses(hpkg)
	if len(hs) == 0 {
		notes = append(notes, "the harness does not compile against this tree: nothing was decided")
		for _, e := range pr.errors {
			notes = append(notes, "load error: "+e)
		}
		return finish()
	}
	bin, err := buildNative(repo, tmp, nat, hpkg, hs, c.cfg.Main, "")
	if err != nil {
		notes = append(notes, "replay build failed: "+err.Error())
		return finish()
	}
	nr := 4
	c.nat = &native{bin: bin, pool: make(chan *runner, nr), thorough: tier == "thorough"}
	for i := 0; i < nr; i++ {
		c.nat.pool <- nil
	}
	c.nat.build = func(variant string) (string, error) {
		return buildNative(repo, tmp, nat, hpkg, hs, c.cfg.Main, variant)
	}
	defer c.nat.close()
	// known findings: is the recorded witness still failing?
	for i, f := range c.known {
		if f.Status == "known" && f.Witness != nil {
			r := c.nat.run(f.Harness, f.Witness, 1, replayTO)
			if r.Kind != "ok" && r.Kind != "assume" && strings.Contains(r.Msg, f.Match) {
				c.knownHit[i] = true
			}
		}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "setup %.1fs, harnesses %v\n", time.Since(start).Seconds(), hs)
	}
	deadline := time.Now().Add(budget)
	for i, name := range hs {
		if only != "" && name != only {
			continue
		}
		left := time.Until(deadline)
		share := left / time.Duration(len(hs)-i)
		if only != "" {
			share = left
		}
		if share < time.Second {
			share = time.Second
		}
		hr := c.runHarness(pr, hpkg, name, time.Now().Add(share), funcs)
		results = append(results, hr)
		if os.Getenv("GOSYM_DEBUG") != "" {
			b, _ := json.Marshal(hr.St)
			fmt.Fprintf(os.Stderr, "%s %.1fs replays=%d ok=%d mism=%d unrep=%d %s\n%v %v\n", name, hr.Wall, hr.Replays, hr.ReplayOK, hr.Mismatch, hr.Unrep, b, hr.MismatchEx, hr.UnrepEx)
		}
		if len(c.viol) > 0 {
			break
		}
	}
	return finish()
}

func (c *checker) runHarness(pr *Prog, hpkg, name string, deadline time.Time, funcs *sync.Map) *hRes {
	t0 := time.Now()
	hr := &hRes{Name: name}
	workers := runtime.NumCPU()
	if s := os.Getenv("GOSYM_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	cfg := &runCfg{
		maxSteps: c.cfg.MaxSteps, funcs: funcs, thorough: c.tier == "thorough", workers: workers,
		solverMs: c.cfg.SolverMs, deadline: deadline, noMerge: os.Getenv("GOSYM_NOMERGE") != "",
	}
	if s := os.Getenv("GOSYM_INPUTS"); s != "" {
		json.Unmarshal([]byte(s), &cfg.inputs)
	}
	ex := &Explorer{prog: pr, cfg: cfg, fn: pr.pkg(hpkg).Func(name), harness: name}
	var mu sync.Mutex
	seen := map[string]bool{}
	ex.onPath = func(r *PathRec) {
		if r.Kind == "violation" {
			return
		}
		kb, _ := json.Marshal(r.Inputs)
		k := string(kb)
		mu.Lock()
		dup := seen[k]
		seen[k] = true
		nrep := hr.Replays
		if !dup {
			hr.Replays++
		}
		mu.Unlock()
		if dup && !r.Sched {
			return
		}
		if dup || r.Sched && nrep > 200 {
			return
		}
		n := c.nat.run(name, r.Inputs, 1, replayTO)
		switch n.Kind {
		case "ok", "assume":
			bad := ""
			if n.Kind == "assume" && r.Kind == "ok" {
				bad = "native run left the assumptions"
			} else if r.Kind == "ok" {
				for k, v := range r.Obs {
					if w, ok := n.Obs[k]; ok && w != v && !strings.Contains(v, "?") {
						bad = fmt.Sprintf("%s: encoded %s, native %s, inputs %v", k, v, w, r.Inputs)
					}
				}
			}
			mu.Lock()
			if bad == "" {
				hr.ReplayOK++
			} else if r.Ties > 0 || r.Sched {
				hr.TieSkips++
			} else {
				hr.Mismatch++
				if len(hr.MismatchEx) < 3 {
					hr.MismatchEx = append(hr.MismatchEx, bad)
				}
			}
			if len(hr.Samples) < 3 && bad == "" && r.Kind == "ok" {
				hr.Samples = append(hr.Samples, r)
			}
			mu.Unlock()
		case "assert", "panic", "hang":
			rf := &replayFile{Property: c.id, Harness: name, Kind: "native", Msg: "found while validating a path", Inputs: r.Inputs, Sched: r.Sched, Tier: c.tier, NativeKind: n.Kind, NativeMsg: n.Msg}
			if n.Kind == "hang" && !c.hangs(rf) {
				return
			}
			if c.confirmed(rf) {
				ex.halt()
			}
		}
	}
	ex.onCand = func(cd *Cand) bool {
		var n nres
		jitter := false
		if cd.Kind == "race" {
			n = c.nat.runVariant("race", name, cd.Inputs, 50, 4*replayTO)
		} else {
			n = c.nat.run(name, cd.Inputs, replayReps(cd.Sched), replayTO)
			if cd.Sched && (n.Kind == "ok" || n.Kind == "assume") {
				jitter = true
				n = c.nat.runVariant("jitter", name, cd.Inputs, replayReps(true), replayTO)
			}
		}
		switch n.Kind {
		case "assert", "panic", "hang":
			rf := &replayFile{Property: c.id, Harness: name, Kind: cd.Kind, Msg: cd.Msg, Inputs: cd.Inputs, Sched: cd.Sched, Jitter: jitter, Tier: c.tier, NativeKind: n.Kind, NativeMsg: n.Msg}
			if n.Kind == "hang" && !c.hangs(rf) {
				return false
			}
			return c.confirmed(rf)
		}
		mu.Lock()
		hr.Unrep++
		if len(hr.UnrepEx) < 3 {
			hr.UnrepEx = append(hr.UnrepEx, fmt.Sprintf("%s %q not reproduced natively (%s %s) inputs %v", cd.Kind, cd.Msg, n.Kind, n.Msg, cd.Inputs))
		}
		mu.Unlock()
		return false
	}
	ex.Run()
	hr.St = ex.St
	hr.Wall = time.Since(t0).Seconds()
	return hr
}

// hangs re-runs a replay that timed out with three times the limit, so that a
// loaded machine does not turn into an alarm.
func (c *checker) hangs(rf *replayFile) bool {
	return c.nat.run(rf.Harness, rf.Inputs, 1, 3*replayTO).Kind == "hang"
}

func (c *checker) finish(ev map[string]interface{}, rs []*hRes, funcs *sync.Map, notes []string, start time.Time) int {
	var tot Stats
	tot.Reached = map[string]int64{}
	var validated, replays, mism, ties, unrep int64
	var perH []interface{}
	exhaustive := len(rs) > 0 && len(notes) == 0
	var samples []interface{}
	for _, h := range rs {
		s := h.St
		tot.Paths += s.Paths
		tot.Branches += s.Branches
		tot.Asserts += s.Asserts
		tot.Queries += s.Queries
		tot.SatQ += s.SatQ
		tot.UnsatQ += s.UnsatQ
		tot.Unknown += s.Unknown
		tot.Trivial += s.Trivial
		tot.Discharged += s.Discharged
		tot.UnknownAsserts += s.UnknownAsserts
		tot.SolverTime += s.SolverTime
		tot.PoolHits += s.PoolHits
		tot.SolverErrors += s.SolverErrors
		tot.EvalMismatch += s.EvalMismatch
		tot.Instr += s.Instr
		tot.Merges += s.Merges
		tot.Unsup += s.Unsup
		tot.Steps += s.Steps
		tot.Budget += s.Budget
		tot.Assumed += s.Assumed
		for k, v := range s.Reached {
			tot.Reached[k] += v
		}
		validated += h.ReplayOK
		replays += h.Replays
		mism += h.Mismatch
		ties += h.TieSkips
		unrep += h.Unrep
		done := s.Exhausted && h.Mismatch == 0 && h.Unrep == 0 && s.UnknownAsserts == 0
		if !done {
			exhaustive = false
			why := "stopped by its time limit"
			switch {
			case s.Unsup > 0:
				why = "some paths left the encodable fragment: " + strings.Join(topMsgs(s.UnsupMsgs, 4), "; ")
			case s.Steps > 0 || s.Budget > 0:
				why = "some paths reached the step limit"
			case s.Unknown > 0 || s.UnknownAsserts > 0:
				why = "the solver gave up on some queries"
			case h.Mismatch > 0:
				why = "some native replays disagreed with the encoding: " + strings.Join(h.MismatchEx, "; ")
			case h.Unrep > 0:
				why = "some candidate violations did not reproduce natively (dropped): " + strings.Join(h.UnrepEx, "; ")
			}
			if len(c.viol) > 0 {
				why += " (stopped at a violation)"
			}
			notes = append(notes, fmt.Sprintf("reduced bound in %s: %d paths explored, not all; %s", h.Name, s.Paths, why))
		}
		perH = append(perH, map[string]interface{}{
			"harness": h.Name, "paths": s.Paths, "complete": done, "assert_sites_executed": s.Asserts,
			"asserts_decided_by_solver": s.Discharged, "asserts_trivially_true": s.Trivial, "queries": s.Queries,
			"unsat": s.UnsatQ, "sat": s.SatQ, "unknown": s.Unknown, "model_cache_hits": s.PoolHits,
			"solver_s": round(s.SolverTime.Seconds()), "wall_s": round(h.Wall), "max_depth": s.MaxDepth,
			"native_replays": h.Replays, "native_agree": h.ReplayOK, "native_disagree": h.Mismatch,
			"native_disagree_exact_ties": h.TieSkips, "unreproduced_candidates": h.Unrep, "witnesses": s.Reached,
			"merged_joins": s.Merges, "instructions": s.Instr,
		})
		for _, r := range h.Samples {
			samples = append(samples, map[string]interface{}{"harness": r.Harness, "inputs": r.Inputs, "observed": r.Obs, "decisions": r.Branches})
		}
	}
	for _, w := range c.cfg.Reach {
		if tot.Reached[w] == 0 && len(c.viol) == 0 {
			notes = append(notes, "reachability witness not reached: "+w)
			exhaustive = false
		}
	}
	var fl []string
	funcs.Range(func(k, _ interface{}) bool {
		s := k.(string)
		if !strings.Contains(s, "zzverif") {
			fl = append(fl, s)
		}
		return true
	})
	sort.Strings(fl)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev["coverage"] = map[string]interface{}{
		"states": tot.Paths, "transitions": tot.Branches, "traces_validated_against_impl": validated,
		"samples": samples, "exhaustive": exhaustive,
		"bounds": c.cfg.Bounds, "functions_encoded": fl, "functions_encoded_count": len(fl),
		"queries": tot.Queries, "queries_unsat": tot.UnsatQ, "queries_sat": tot.SatQ, "queries_unknown": tot.Unknown,
		"solver_s": round(tot.SolverTime.Seconds()), "asserts_decided_by_solver": tot.Discharged,
		"harnesses": perH, "notes": notes, "witnesses_reached": tot.Reached,
		"known_finding_hits": c.knownN,
		"meaning":            "states = symbolic paths (each an equivalence class of inputs under one path condition); transitions = branch decisions taken on them",
	}
	ev["assumptions"] = append([]string{}, c.cfg.Assumptions...)
	ev["wall_s"] = round(time.Since(start).Seconds())
	ev["violations"] = len(c.viol)
	os.MkdirAll(filepath.Join(c.vd, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.vd, "evidence", c.id+".json"), append(b, '\n'), 0o644)

	for _, h := range rs {
		state := "all paths"
		if !h.St.Exhausted {
			state = "partial"
		}
		fmt.Printf("%s %s: %d paths (%s), %d asserts (%d by solver), %d queries, solver %.1fs, replays %d/%d agree, wall %.1fs\n",
			c.id, h.Name, h.St.Paths, state, h.St.Asserts, h.St.Discharged, h.St.Queries, h.St.SolverTime.Seconds(), h.ReplayOK, h.Replays, h.Wall)
	}
	for _, n := range notes {
		fmt.Println("NOTE:", n)
	}
	for i, f := range c.known {
		if c.knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f.What)
		}
	}
	if len(c.viol) > 0 {
		v := c.viol[0]
		os.MkdirAll(filepath.Join(c.vd, "replays"), 0o755)
		f := filepath.Join(c.vd, "replays", c.id+"-"+v.Harness+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s (%s: %s) inputs %v\n", v.Harness, v.Msg, v.NativeKind, v.NativeMsg, v.Inputs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, f)
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	json.Unmarshal(b, &rf)
	var cfg checkCfg
	vd, repo := verifDir(), repoDir()
	if b, err := os.ReadFile(filepath.Join(vd, "harness", rf.Property, "check.json")); err == nil {
		json.Unmarshal(b, &cfg)
	}
	tmp, _ := os.MkdirTemp("", "gosym-replay-")
	defer os.RemoveAll(tmp)
	_, nat, hpkg := overlay(vd, repo, rf.Property, &cfg)
	variant := ""
	if rf.Kind == "race" {
		variant = "race"
	} else if rf.Jitter {
		variant = "jitter"
	}
	bin, err := buildNative(repo, tmp, nat, hpkg, []string{rf.Harness}, cfg.Main, variant)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	os.Setenv("ZZVERIF_STACK", "1")
	n := &native{bin: bin, thorough: rf.Tier == "thorough"}
	r := n.runOn(bin, nil, rf.Harness, rf.Inputs, replayReps(rf.Sched), 3*replayTO)
	fmt.Printf("%s: %s\n", r.Kind, r.Msg)
	var ks []string
	for k := range r.Obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(" ", k, r.Obs[k])
	}
	if r.Kind == "ok" || r.Kind == "assume" {
		return 0
	}
	return 1
}
