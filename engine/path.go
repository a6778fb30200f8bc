package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	taken  bool
	forced bool
	conc   bool
	spec   bool // outcome of a feasibility query inside a speculative arm
	val    int64
}

type item struct {
	prefix []dec
	model  Model
}

type jent struct {
	c   *Cell
	old Value
}

type violation struct {
	harness string
	msg     string
	model   Model
	kind    string // assert, panic, hang, deadlock, race
}

type obs struct {
	name string
	v    Value
}

type pathEnd struct {
	kind string // ok, assume, unsupported, steps, violation, budget
	msg  string
}

type abortPath struct{ end pathEnd }
type specAbort struct{ why string }
type progPanic struct {
	val Value
	msg string
}

type path struct {
	vfs   map[string]string
	files map[*Cell]*vfile
	tnums []*SymF // symbolic numbers within texts
	args  []string
	flags map[string]*Cell
	w     *worker
	tc    *TermCtx
	s     *Solver
	cfg   *runCfg
	item  item

	pos    int
	light  []*Term
	lightN int
	decs   []dec
	pcs    []*Term
	known  map[*Term]bool
	klog   []*Term
	model  Model

	fkeys map[float64]bool // floats used as map keys
	fsym  []*SymF

	ties    map[[2]*SymF]*Term
	ntie    int
	tieVal  bool // equal expressions tie in the same way
	fsame   map[fkey]*SymF
	noTies  bool
	noMerge int
	nvar    map[string]int
	vars    []*Term // every variable of this path
	inputs  []*Term // harness inputs in creation order

	globals map[*ssa.Global]*Cell
	steps   int64

	spec      int
	specEpoch int32
	epoch     int32
	armLits   []*Term
	specSteps int64
	journal   []jent
	siteFail  map[*blk]int
	merges    int

	obs     []obs
	reached map[string]bool
	asserts int
	counts  map[string]int

	// scheduler
	threads []*thread
	runq    []*thread
	cur     *thread
	dead    bool
	end     *pathEnd
	preempt int
	explore bool
	live    int
	killMu  sync.WaitGroup
	syncs   map[*Cell]*syncState
	fixed   map[string]int
	hostMem map[string]interface{}
	race    *raceState
	badFmt  bool
	mapSym  bool
	mapLeft int
	maps    int
}

func (p *path) abort(kind, f string, a ...interface{}) {
	panic(abortPath{pathEnd{kind, fmt.Sprintf(f, a...)}})
}

func (p *path) newVar(base string, isBool bool, lo, hi int64) *Term {
	k := p.nvar[base]
	p.nvar[base] = k + 1
	name := fmt.Sprintf("%s#%d", base, k)
	if isBool {
		lo, hi = 0, 1
	}
	t := p.tc.Var(name, isBool, lo, hi)
	p.vars = append(p.vars, t)
	if !isBool {
		p.pcs = append(p.pcs, p.tc.mk(OLe, true, p.tc.Int(lo), t, nil, 0, 0, 1), p.tc.mk(OLe, true, t, p.tc.Int(hi), nil, 0, 0, 1))
	}
	return t
}

func (p *path) learn(t *Term, v bool) {
	if t.isConst() {
		return
	}
	if _, ok := p.known[t]; ok {
		return
	}
	p.known[t] = v
	p.klog = append(p.klog, t)
	switch t.op {
	case ONot:
		p.learn(t.x, !v)
	case OAnd:
		if v {
			p.learn(t.x, true)
			p.learn(t.y, true)
		}
	case OOr:
		if !v {
			p.learn(t.x, false)
			p.learn(t.y, false)
		}
	case OLt:
		if v { // a<b: not b<a, not b<=a, a<=b, a!=b
			p.learn1(p.tc.Lt(t.y, t.x), false)
			p.learn1(p.tc.Le(t.x, t.y), true)
			p.learn1(p.tc.Eq(t.x, t.y), false)
		}
		p.learn1(p.tc.Le(t.y, t.x), !v)
	case OLe:
		p.learn1(p.tc.Lt(t.y, t.x), !v)
		if !v {
			p.learn1(p.tc.Lt(t.x, t.y), false)
			p.learn1(p.tc.Le(t.y, t.x), true)
			p.learn1(p.tc.Eq(t.x, t.y), false)
		}
	case OEq:
		if v && !t.x.isBool {
			p.learn1(p.tc.Lt(t.x, t.y), false)
			p.learn1(p.tc.Lt(t.y, t.x), false)
			p.learn1(p.tc.Le(t.x, t.y), true)
			p.learn1(p.tc.Le(t.y, t.x), true)
		}
	}
}

func (p *path) learn1(t *Term, v bool) {
	if t.isConst() {
		return
	}
	if _, ok := p.known[t]; ok {
		return
	}
	p.known[t] = v
	p.klog = append(p.klog, t)
}

func (p *path) unlearn(mark int) {
	for len(p.klog) > mark {
		delete(p.known, p.klog[len(p.klog)-1])
		p.klog = p.klog[:len(p.klog)-1]
	}
}

// lookup: is the truth of t already implied syntactically?
func (p *path) lookup(t *Term) (bool, bool) {
	if t.isConst() {
		return t.c == 1, true
	}
	if v, ok := p.known[t]; ok {
		return v, true
	}
	switch t.op {
	case ONot:
		v, ok := p.lookup(t.x)
		return !v, ok
	case OAnd:
		a, ok := p.lookup(t.x)
		b, ok2 := p.lookup(t.y)
		if ok && !a || ok2 && !b {
			return false, true
		}
		if ok && ok2 {
			return true, true
		}
	case OOr:
		a, ok := p.lookup(t.x)
		b, ok2 := p.lookup(t.y)
		if ok && a || ok2 && b {
			return true, true
		}
		if ok && ok2 {
			return false, true
		}
	}
	return false, false
}

func (p *path) addPC(t *Term) {
	if t.isConst() {
		return
	}
	p.pcs = append(p.pcs, t)
	p.learn(t, true)
}

func (p *path) lightPCs() []*Term {
	if p.lightN > len(p.pcs) {
		p.lightN, p.light = 0, p.light[:0]
	}
	for ; p.lightN < len(p.pcs); p.lightN++ {
		if !p.pcs[p.lightN].heavy {
			p.light = append(p.light, p.pcs[p.lightN])
		}
	}
	return p.light
}

func (p *path) query(extra *Term) (Res, Model) {
	if extra.isConst() {
		if extra.c == 0 {
			return RUnsat, nil
		}
		return RSat, p.model
	}
	// cached models of this worker
	for i := len(p.w.pool) - 1; i >= 0; i-- {
		m := p.w.pool[i]
		p.tc.newEval()
		if p.tc.eval(extra, m) != 1 {
			continue
		}
		ok := true
		for k := len(p.pcs) - 1; k >= 0; k-- {
			if p.tc.eval(p.pcs[k], m) != 1 {
				ok = false
				break
			}
		}
		if ok {
			p.s.PoolHits++
			return RSat, m
		}
	}
	if time.Now().After(p.cfg.deadline) {
		p.abort("deadline", "")
	}
	var r Res
	var m Model
	done := false
	if !extra.heavy {
		// light pass: without the constraints that contain products
		light := p.lightPCs()
		if len(light) < len(p.pcs) {
			r, m = p.s.Check(light, extra, p.vars)
			p.s.Light++
			if r == RUnsat {
				done = true
			} else if r == RSat {
				p.tc.newEval()
				done = true
				for k := len(p.pcs) - 1; k >= 0; k-- {
					if p.tc.eval(p.pcs[k], m) != 1 {
						done = false
						break
					}
				}
			}
		}
	}
	if !done {
		r, m = p.s.Check(p.pcs, extra, p.vars)
	}
	if r == RUnknown {
		p.w.unknown++
	}
	if r == RSat {
		// paranoia: the model must satisfy the query under our evaluator
		p.tc.newEval()
		if p.tc.eval(extra, m) != 1 {
			p.w.evalMismatch++
		}
		p.w.pool = append(p.w.pool, m)
		if len(p.w.pool) > 24 {
			p.w.pool = p.w.pool[1:]
		}
	}
	return r, m
}

func (p *path) pushAlt(d dec, m Model) {
	pre := make([]dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	p.w.ex.push(item{pre, m})
}

// diverged: the execution asks for another kind of decision than the recorded one.
func (p *path) diverged(d dec) {
	where := ""
	for i := len(p.cur.stack) - 1; i >= 0 && i >= len(p.cur.stack)-4; i-- {
		where += " < " + p.cur.stack[i].name
	}
	p.abort("unsupported", "replay diverged at decision %d/%d %+v in%s", p.pos, len(p.item.prefix), d, where)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (p *path) branch(c *Term) bool {
	if v, ok := p.lookup(c); ok {
		return v
	}
	if p.spec > 0 {
		return p.specBranch(c)
	}
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d.conc || d.spec {
			p.diverged(d)
		}
		p.take(c, d.taken, d.forced)
		return d.taken
	}
	p.pos++
	v := p.tc.Eval(c, p.model) == 1
	neg := c
	if v {
		neg = p.tc.Not(c)
	}
	r, m := p.query(neg)
	d := dec{taken: v, forced: r == RUnsat}
	if r == RSat {
		p.pushAlt(dec{taken: !v}, m)
	}
	p.decs = append(p.decs, d)
	p.take(c, v, d.forced)
	return v
}

// specBranch: inside a speculative arm a condition may still be decided when
// only one side is feasible under the path condition and the arm literals.
func (p *path) specBranch(c *Term) bool {
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if !d.spec {
			p.diverged(d)
		}
		if d.val == 2 {
			panic(specAbort{"branch"})
		}
		p.learn(c, d.val == 1)
		return d.val == 1
	}
	arm := p.tc.tru
	for _, l := range p.armLits {
		arm = p.tc.And(arm, l)
	}
	val := int64(2)
	if r, _ := p.query(p.tc.And(arm, c)); r == RUnsat {
		val = 0
	} else if r == RSat {
		if r, _ := p.query(p.tc.And(arm, p.tc.Not(c))); r == RUnsat {
			val = 1
		}
	}
	p.pos++
	p.decs = append(p.decs, dec{spec: true, val: val})
	if val == 2 {
		panic(specAbort{"branch"})
	}
	p.learn(c, val == 1)
	return val == 1
}

// choose makes an uninterpreted nondeterministic choice (scheduler).
func (p *path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.spec > 0 {
		panic(specAbort{"choose"})
	}
	if p.pos < len(p.item.prefix) {
		d := p.item.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if !d.conc || !d.spec {
			p.diverged(d)
		}
		return int(d.val)
	}
	p.pos++
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(dec{conc: true, spec: true, val: int64(i)}, p.model)
	}
	p.decs = append(p.decs, dec{conc: true, spec: true, val: 0})
	return 0
}

func (p *path) take(c *Term, v, forced bool) {
	t := c
	if !v {
		t = p.tc.Not(c)
	}
	if forced {
		p.learn(c, v)
	} else {
		p.learn(c, v)
		p.addPC2(t)
	}
}

func (p *path) addPC2(t *Term) {
	if !t.isConst() {
		p.pcs = append(p.pcs, t)
		p.learn(t, true)
	}
}

func (p *path) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.branch(x)
	}
	unsup("not a condition: %T", v)
	return false
}

// concretize enumerates the values of an integer term.
func (p *path) concretize(t *Term) Value {
	if t.isBool {
		return p.branch(t)
	}
	for {
		if t.isConst() {
			return t.c
		}
		v := p.tc.Eval(t, p.model)
		eq := p.tc.Eq(t, p.tc.Int(v))
		if k, ok := p.lookup(eq); ok && k {
			return v
		}
		if p.spec > 0 {
			panic(specAbort{"concretize"})
		}
		if p.pos < len(p.item.prefix) {
			d := p.item.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, d)
			if !d.conc || d.spec {
				p.diverged(d)
			}
			eq = p.tc.Eq(t, p.tc.Int(d.val))
			p.take(eq, d.taken, d.forced)
			if d.taken {
				return d.val
			}
			continue
		}
		if _, ok := p.lookup(eq); ok {
			p.abort("unsupported", "inconsistent model")
		}
		p.pos++
		r, m := p.query(p.tc.Not(eq))
		if r == RSat {
			p.pushAlt(dec{taken: false, conc: true, val: v}, m)
		}
		d := dec{taken: true, conc: true, val: v, forced: r == RUnsat}
		p.decs = append(p.decs, d)
		p.take(eq, true, d.forced)
		return v
	}
}

func (p *path) conc(v Value) Value {
	if t, ok := v.(*Term); ok {
		return p.concretize(t)
	}
	return v
}

func (p *path) cint(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return p.concretize(x).(int64)
	}
	unsup("not an int: %T", v)
	return 0
}

func (p *path) assume(v Value) {
	if p.spec > 0 {
		panic(specAbort{"assume"})
	}
	t := p.bt(v)
	if k, ok := p.lookup(t); ok {
		if !k {
			p.abort("assume", "")
		}
		return
	}
	if p.tc.Eval(t, p.model) != 1 {
		r, m := p.query(t)
		switch r {
		case RUnsat:
			p.abort("assume", "")
		case RUnknown:
			p.abort("unknown", "assume")
		}
		p.model = m
	}
	p.addPC(t)
}

func (p *path) assertT(v Value, msg string) {
	if p.spec > 0 {
		panic(specAbort{"assert"})
	}
	p.asserts++
	t := p.bt(v)
	if k, ok := p.lookup(t); ok {
		if !k {
			p.w.report(p, "assert", msg, p.model)
			p.abort("violation", "%s", msg)
		}
		p.w.trivial++
		return
	}
	if p.tc.Eval(t, p.model) != 1 {
		p.w.report(p, "assert", msg, p.model)
		r, m := p.query(t)
		if r != RSat {
			p.abort("violation", "%s", msg)
		}
		p.model = m
		p.addPC(t)
		return
	}
	if p.pos < len(p.item.prefix) {
		// already discharged by the run that created this prefix (same path
		// condition); the report, if any, was made there
		p.addPCq(t)
		return
	}
	r, m := p.query(p.tc.Not(t))
	p.w.discharged++
	if r == RSat {
		p.w.report(p, "assert", msg, m)
	} else if r == RUnknown {
		p.w.unknownAsserts++
	} else {
		p.learn(t, true)
		return
	}
	p.addPC(t)
}

// addPCq: in replay, an assertion proved earlier is only learned; one that was
// violated had been added to the path condition.  The model of this item
// satisfies it either way, so adding it is harmless.
func (p *path) addPCq(t *Term) { p.learn(t, true) }

// ------------------------------------------------------------- memory

func (p *path) load(c *Cell) Value {
	if c == nil {
		p.panicRT("invalid memory address or nil pointer dereference")
	}
	if p.race != nil && p.spec == 0 {
		p.raceRead(c)
	}
	if a, ok := c.v.(Agg); ok {
		return copyVal(a)
	}
	return c.v
}

func (p *path) raceRead(c *Cell) {
	if a, ok := c.v.(Agg); ok {
		for i := range a {
			p.raceRead(&a[i])
		}
		return
	}
	p.race.read(p, c)
}

func (p *path) store(c *Cell, v Value) {
	if c == nil {
		p.panicRT("invalid memory address or nil pointer dereference")
	}
	if a, ok := v.(Agg); ok {
		d, ok := c.v.(Agg)
		if !ok || len(d) != len(a) {
			// uninitialised interface-free cell (should not happen)
			p.write(c, copyVal(a))
			return
		}
		for i := range a {
			p.store(&d[i], a[i].v)
		}
		return
	}
	p.write(c, v)
}

func (p *path) write(c *Cell, v Value) {
	if p.spec > 0 {
		if c.ep < p.specEpoch {
			p.journal = append(p.journal, jent{c, c.v})
		}
	} else if p.race != nil {
		p.race.write(p, c)
	}
	c.v = v
}

func (p *path) newCell(v Value) *Cell {
	c := &Cell{v: v}
	if p.spec > 0 {
		c.ep = p.epoch
		stamp(v, p.epoch)
	}
	return c
}

func (p *path) newCells(n, capn int, t types.Type) []Cell {
	a := make([]Cell, n, capn)
	full := a[:capn]
	if capn > 0 {
		z := zero(t)
		_, agg := z.(Agg)
		for i := range full {
			if agg {
				full[i].v = copyVal(z)
			} else {
				full[i].v = z
			}
			if p.spec > 0 {
				full[i].ep = p.epoch
				stamp(full[i].v, p.epoch)
			}
		}
	}
	return a
}

func (p *path) panicRT(msg string) {
	if p.spec > 0 {
		panic(specAbort{"panic"})
	}
	panic(progPanic{val: nil, msg: "runtime error: " + msg})
}

func (p *path) modelCopy() Model {
	m := Model{}
	for k, v := range p.model {
		m[k] = v
	}
	return m
}

// inputModel: values of the harness inputs under m.
func (p *path) inputModel(m Model) map[string]int64 {
	r := map[string]int64{}
	for _, t := range p.inputs {
		v, ok := m[t.name]
		if !ok {
			v = varDefault(t)
		}
		r[t.name] = v
	}
	return r
}

func (p *path) observed() map[string]string {
	r := map[string]string{}
	n := map[string]int{}
	for _, o := range p.obs {
		var sb strings.Builder
		p.describe(o.v, p.model, &sb)
		r[fmt.Sprintf("%s#%d", o.name, n[o.name])] = sb.String()
		n[o.name]++
	}
	return r
}
