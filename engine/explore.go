package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type runCfg struct {
	maxSteps int64
	funcs    *sync.Map
	thorough bool
	noMerge  bool
	inputs   map[string]int64
	workers  int
	solverMs int
	deadline time.Time
	maxPaths int64
}

type Explorer struct {
	prog    *Prog
	cfg     *runCfg
	fn      *ssa.Function
	harness string

	mu    sync.Mutex
	cond  *sync.Cond
	stack []item
	busy  int
	stop  bool

	St     Stats
	onPath func(*PathRec)
	cands  map[string][]*Cand
	onCand func(*Cand) bool
}

// Cand is a violation candidate awaiting native confirmation.
type Cand struct {
	Harness, Msg, Kind string
	Inputs             map[string]int64
	Sched              bool
}

type PathRec struct {
	Harness  string
	Kind     string
	Inputs   map[string]int64
	Obs      map[string]string
	Ties     int
	Sched    bool
	Branches int
}

type Stats struct {
	Paths, OK, Assumed, Unsup, Steps, Budget, Viol int64
	Branches, Merges, Asserts, Trivial, Discharged int64
	UnknownAsserts, Unknown, EvalMismatch          int64
	Queries, SatQ, UnsatQ, PoolHits, SolverErrors  int64
	SolverTime                                     time.Duration
	Instr                                          int64
	Reached                                        map[string]int64
	UnsupMsgs                                      map[string]int64
	Exhausted                                      bool
	Candidates                                     int64
	MaxDepth                                       int
}

type worker struct {
	ex             *Explorer
	tc             *TermCtx
	s              *Solver
	pool           []Model
	unknown        int64
	evalMismatch   int64
	trivial        int64
	discharged     int64
	unknownAsserts int64
}

func (w *worker) noteFunc(f *fnInfo) { w.ex.cfg.funcs.LoadOrStore(f.name, true) }

func (w *worker) report(p *path, kind, msg string, m Model) {
	c := &Cand{Harness: w.ex.harness, Msg: msg, Kind: kind, Inputs: p.inputModel(m), Sched: p.explore || p.mapSym}
	ex := w.ex
	ex.mu.Lock()
	ex.St.Candidates++
	k := kind + "|" + msg
	n := len(ex.cands[k])
	if n < 40 {
		ex.cands[k] = append(ex.cands[k], c)
	}
	ex.mu.Unlock()
	if n < 40 && ex.onCand != nil {
		if ex.onCand(c) {
			ex.halt()
		}
	}
}

func (ex *Explorer) halt() {
	ex.mu.Lock()
	ex.stop = true
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.cfg.deadline) {
			ex.stop = true
			ex.cond.Broadcast()
			return item{}, false
		}
		if len(ex.stack) > 0 {
			n := len(ex.stack) - 1
			it := ex.stack[n]
			ex.stack = ex.stack[:n]
			ex.busy++
			return it, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	if ex.busy == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) Run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.cands = map[string][]*Cand{}
	ex.St.Reached = map[string]int64{}
	ex.St.UnsupMsgs = map[string]int64{}
	ex.push(item{nil, Model{}})
	tick := time.AfterFunc(time.Until(ex.cfg.deadline)+50*time.Millisecond, func() {
		ex.mu.Lock()
		ex.stop = true
		ex.cond.Broadcast()
		ex.mu.Unlock()
	})
	defer tick.Stop()
	var wg sync.WaitGroup
	for i := 0; i < ex.cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.work()
		}()
	}
	wg.Wait()
	ex.St.Exhausted = len(ex.stack) == 0 && !ex.stop && ex.St.Unsup == 0 && ex.St.Steps == 0 && ex.St.Unknown == 0 && ex.St.Budget == 0
}

func (ex *Explorer) work() {
	var w *worker
	reset := func() {
		if w != nil && w.s != nil {
			ex.fold(w)
			w.s.Close()
		}
		w = &worker{ex: ex, tc: NewTermCtx()}
	}
	reset()
	defer func() {
		ex.fold(w)
		if w.s != nil {
			w.s.Close()
		}
	}()
	for {
		it, ok := ex.pop()
		if !ok {
			return
		}
		if len(w.tc.list) > 1500000 {
			reset()
		}
		if w.s == nil {
			w.s = NewSolver(w.tc, ex.cfg.solverMs)
		}
		ex.runPath(w, it)
		ex.done()
	}
}

func (ex *Explorer) fold(w *worker) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := &ex.St
	s.Unknown += w.unknown
	s.EvalMismatch += w.evalMismatch
	s.Trivial += w.trivial
	s.Discharged += w.discharged
	s.UnknownAsserts += w.unknownAsserts
	if w.s != nil {
		s.Queries += int64(w.s.Queries)
		s.SatQ += int64(w.s.Sat)
		s.UnsatQ += int64(w.s.Unsat)
		s.PoolHits += int64(w.s.PoolHits)
		s.SolverErrors += int64(w.s.Errors)
		s.SolverTime += w.s.Time
	}
	*w = worker{ex: w.ex, tc: w.tc, s: w.s, pool: w.pool}
	if w.s != nil {
		w.s.Queries, w.s.Sat, w.s.Unsat, w.s.PoolHits, w.s.Errors, w.s.Time = 0, 0, 0, 0, 0, 0
	}
}

func endOf(p *path, e interface{}) pathEnd {
	switch x := e.(type) {
	case abortPath:
		return x.end
	case unsupported:
		if os.Getenv("GOSYM_DEBUG") == "2" {
			fmt.Fprintln(os.Stderr, "unsup:", x.msg)
			for i := len(p.cur.stack) - 1; i >= 0; i-- {
				fmt.Fprintln(os.Stderr, "   at", p.cur.stack[i].name)
			}
		}
		return pathEnd{"unsupported", x.msg}
	case specAbort:
		return pathEnd{"unsupported", "internal: stray spec abort " + x.why}
	case progPanic:
		if os.Getenv("GOSYM_DEBUG") == "2" {
			for i := len(p.cur.stack) - 1; i >= 0; i-- {
				fmt.Fprintln(os.Stderr, "   at", p.cur.stack[i].name)
			}
			fmt.Fprintln(os.Stderr, x.msg)
		}
		p.w.report(p, "panic", x.msg, p.model)
		return pathEnd{"violation", "panic: " + x.msg}
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", e, debug.Stack())
	}
	return pathEnd{"unsupported", fmt.Sprintf("engine error: %v", e)}
}

var progress int64

func (ex *Explorer) runPath(w *worker, it item) {
	p := &path{
		w: w, tc: w.tc, s: w.s, cfg: ex.cfg, item: it, model: it.model,
		known: map[*Term]bool{}, fkeys: map[float64]bool{}, ties: map[[2]*SymF]*Term{}, nvar: map[string]int{},
		globals: map[*ssa.Global]*Cell{}, siteFail: map[*blk]int{}, reached: map[string]bool{},
		counts: map[string]int{}, hostMem: map[string]interface{}{}, syncs: map[*Cell]*syncState{},
		fixed: map[string]int{},
	}
	if p.model == nil {
		p.model = Model{}
	}
	t := &thread{p: p, id: 0, resume: make(chan struct{})}
	p.threads = []*thread{t}
	p.cur = t
	end := pathEnd{"ok", ""}
	func() {
		defer func() {
			if e := recover(); e != nil {
				end = endOf(p, e)
			}
		}()
		t.initStd()
		if in := ex.fn.Pkg.Func("init"); in != nil {
			t.call(getFn(in), nil, nil)
		}
		p.steps = 0
		t.call(getFn(ex.fn), nil, nil)
	}()
	p.killThreads()
	rec := &PathRec{Harness: ex.harness, Kind: end.kind, Ties: p.ntie, Sched: p.explore || p.mapSym, Branches: len(p.decs)}
	if end.kind == "steps" {
		w.report(p, "hang", end.msg, p.model)
	}
	if end.kind != "assume" {
		rec.Inputs = p.inputModel(p.model)
		rec.Obs = p.observed()
	}
	ex.mu.Lock()
	s := &ex.St
	s.Paths++
	switch end.kind {
	case "ok":
		s.OK++
	case "assume":
		s.Assumed++
	case "unsupported", "unknown":
		s.Unsup++
		m := end.msg
		if len(m) > 160 {
			m = m[:160]
		}
		s.UnsupMsgs[m]++
	case "steps":
		s.Steps++
	case "budget":
		s.Budget++
	case "violation":
		s.Viol++
	}
	nd := 0
	for _, d := range p.decs {
		if !d.spec && !d.forced {
			nd++
		}
	}
	s.Branches += int64(len(p.decs))
	if nd > s.MaxDepth {
		s.MaxDepth = nd
	}
	s.Merges += int64(p.merges)
	s.Asserts += int64(p.asserts)
	s.Instr += p.steps
	for k := range p.reached {
		s.Reached[k]++
	}
	stop := ex.cfg.maxPaths > 0 && s.Paths >= ex.cfg.maxPaths
	if stop {
		ex.stop = true
	}
	ex.mu.Unlock()
	atomic.AddInt64(&progress, 1)
	if ex.onPath != nil && end.kind != "assume" {
		ex.onPath(rec)
	}
}

func topMsgs(m map[string]int64, n int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	if len(ks) > n {
		ks = ks[:n]
	}
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%d× %s", m[k], strings.ReplaceAll(k, "\n", " "))
	}
	return ks
}
