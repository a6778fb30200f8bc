package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are coroutines: exactly one runs at a time and hands the baton
// over at synchronisation operations.  With schedule exploration on, every
// such operation is a choice point.

type vclock map[int]int

type chanMsg struct {
	v  Value
	vc vclock
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []chanMsg
	closed bool
	sendq  []*sudog
	recvq  []*sudog
	vc     vclock
	rvc    []vclock // receive clocks for buffered slots
}

type sudog struct {
	t    *thread
	v    Value
	vc   vclock
	ok   bool
	done bool
	dead bool // another select case fired
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	s     *sudog
}

func (a vclock) join(b vclock) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}

func (a vclock) copy() vclock {
	r := vclock{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

func (t *thread) release() vclock {
	if t.p.race == nil {
		return nil
	}
	c := t.vc.copy()
	t.vc[t.id]++
	return c
}

func (t *thread) acquire(c vclock) {
	if t.p.race != nil && c != nil {
		t.vc.join(c)
	}
}

// --------------------------------------------------------------- switching

func (p *path) spawn(parent *thread, c *Closure, args []Value) {
	t := &thread{p: p, id: len(p.threads), resume: make(chan struct{}), fn: c, args: args}
	if p.race != nil {
		t.vc = parent.release()
		if t.vc == nil {
			t.vc = vclock{}
		}
		t.vc[t.id] = 1
	}
	if len(p.threads) > 3000 {
		p.abort("unsupported", "too many goroutines")
	}
	p.threads = append(p.threads, t)
	p.runq = append(p.runq, t)
	p.killMu.Add(1)
	go t.host()
	parent.yield()
}

func (t *thread) host() {
	p := t.p
	<-t.resume
	abn := false
	if !p.dead {
		p.cur = t
		func() {
			defer func() {
				if e := recover(); e != nil && !p.dead {
					end := endOf(p, e)
					p.end = &end
					p.dead = true
					abn = true
				}
			}()
			t.invoke(t.fn, t.args)
		}()
	}
	t.done = true
	var nx *thread
	if abn {
		nx = p.threads[0]
	} else if !p.dead {
		nx = p.pick(nil)
		if nx == nil {
			// nobody can run: the main thread is blocked for ever
			p.deadlock()
			nx = p.threads[0]
		}
	}
	p.killMu.Done()
	if nx != nil {
		p.hand(nx)
	}
}

func (p *path) hand(t *thread) {
	t.resume <- struct{}{}
}

func (p *path) deadlock() {
	p.w.report(p, "deadlock", "all goroutines are asleep", p.model)
	p.end = &pathEnd{"violation", "deadlock"}
	p.dead = true
}

// pick chooses the next runnable thread; self (may be nil) is the running
// thread if it may continue.
func (p *path) pick(self *thread) *thread {
	var c []*thread
	if self != nil {
		c = append(c, self)
	}
	c = append(c, p.runq...)
	if len(c) == 0 {
		return nil
	}
	i := 0
	if p.explore && len(c) > 1 {
		// delay bounding: passing over a candidate costs one delay
		k := len(c)
		if k > p.preempt+1 {
			k = p.preempt + 1
		}
		if k > 1 {
			i = p.choose(k)
			p.preempt -= i
		}
	}
	nx := c[i]
	if nx != self {
		for k, q := range p.runq {
			if q == nx {
				p.runq = append(p.runq[:k:k], p.runq[k+1:]...)
				break
			}
		}
	}
	return nx
}

// yield: a preemption point.
func (t *thread) yield() {
	p := t.p
	if !p.explore {
		return
	}
	nx := p.pick(t)
	if nx == t {
		return
	}
	p.runq = append(p.runq, t)
	p.switchTo(t, nx)
}

// block suspends t until another thread makes it runnable again.
func (t *thread) block() {
	p := t.p
	nx := p.pick(nil)
	if nx == nil {
		p.deadlock()
		if t.id == 0 {
			panic(abortPath{*p.end})
		}
		p.hand(p.threads[0])
		<-t.resume
		panic(abortPath{*p.end})
	}
	if nx == t {
		return
	}
	p.switchTo(t, nx)
}

func (p *path) switchTo(t, nx *thread) {
	p.hand(nx)
	<-t.resume
	if p.dead {
		panic(abortPath{*p.end})
	}
	p.cur = t
}

func (p *path) ready(t *thread) { p.runq = append(p.runq, t) }

// killThreads ends all remaining goroutines of the path.
func (p *path) killThreads() {
	if len(p.threads) <= 1 {
		return
	}
	if !p.dead {
		p.dead = true
		p.end = &pathEnd{"ok", ""}
	}
	for _, t := range p.threads[1:] {
		if !t.done {
			t.resume <- struct{}{}
		}
	}
	p.killMu.Wait()
}

// ---------------------------------------------------------------- channels

func (q *sudog) live() bool { return !q.dead && (q.sel == nil || !q.sel.fired) }

func popq(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		*q = (*q)[1:]
		if s.live() {
			return s
		}
	}
	return nil
}

func hasLive(q []*sudog) bool {
	for _, s := range q {
		if s.live() {
			return true
		}
	}
	return false
}

func (p *path) fire(s *sudog) {
	s.done = true
	if s.sel != nil {
		s.sel.fired = true
		s.sel.idx = s.idx
		s.sel.s = s
	}
	p.ready(s.t)
}

// trySend performs a send if it can proceed now.
func (t *thread) trySend(c *Chan, v Value) bool {
	p := t.p
	if c.closed {
		panic(progPanic{msg: "send on closed channel"})
	}
	if r := popq(&c.recvq); r != nil {
		r.v, r.ok = v, true
		r.vc = t.release()
		if p.race != nil {
			t.acquire(r.t.vc.copy())
			r.t.vc[r.t.id]++
		}
		p.fire(r)
		return true
	}
	if len(c.buf) < c.cap {
		if p.race != nil && len(c.rvc) >= c.cap && c.cap > 0 {
			t.acquire(c.rvc[len(c.rvc)-c.cap+len(c.buf)])
		}
		c.buf = append(c.buf, chanMsg{v, t.release()})
		return true
	}
	return false
}

func (t *thread) tryRecv(c *Chan) (Value, bool, bool) {
	p := t.p
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = c.buf[1:]
		t.acquire(m.vc)
		if p.race != nil {
			c.rvc = append(c.rvc, t.release())
		}
		if s := popq(&c.sendq); s != nil {
			c.buf = append(c.buf, chanMsg{s.v, s.vc})
			p.fire(s)
		}
		return m.v, true, true
	}
	if s := popq(&c.sendq); s != nil {
		t.acquire(s.vc)
		if p.race != nil {
			s.t.vc.join(t.vc)
			t.vc[t.id]++
		}
		p.fire(s)
		return s.v, true, true
	}
	if c.closed {
		t.acquire(c.vc)
		return zero(c.elem), false, true
	}
	return nil, false, false
}

func (t *thread) send(c *Chan, v Value) {
	p := t.p
	t.yield()
	if c == nil {
		t.block()
		p.abort("unsupported", "woken from nil channel")
	}
	v = copyVal(v)
	if t.trySend(c, v) {
		return
	}
	s := &sudog{t: t, v: v, vc: t.release()}
	c.sendq = append(c.sendq, s)
	t.block()
	if !s.done {
		p.abort("unsupported", "internal: send wakeup")
	}
	if !s.ok && s.dead {
		panic(progPanic{msg: "send on closed channel"})
	}
}

func (t *thread) recv(c *Chan) (Value, bool) {
	p := t.p
	t.yield()
	if c == nil {
		t.block()
		p.abort("unsupported", "woken from nil channel")
	}
	if v, ok, done := t.tryRecv(c); done {
		return v, ok
	}
	s := &sudog{t: t}
	c.recvq = append(c.recvq, s)
	t.block()
	t.acquire(s.vc)
	return s.v, s.ok
}

func (t *thread) closeChan(c *Chan) {
	p := t.p
	t.yield()
	if c == nil {
		panic(progPanic{msg: "close of nil channel"})
	}
	if c.closed {
		panic(progPanic{msg: "close of closed channel"})
	}
	c.closed = true
	c.vc = t.release()
	for {
		r := popq(&c.recvq)
		if r == nil {
			break
		}
		r.v, r.ok = zero(c.elem), false
		r.vc = c.vc
		p.fire(r)
	}
	for {
		s := popq(&c.sendq)
		if s == nil {
			break
		}
		p.fire(s)
		s.dead, s.ok = true, false
	}
}

func (t *thread) selectOp(x *ssa.Select, in *instr, regs []Value) Value {
	p := t.p
	t.yield()
	type st struct {
		c    *Chan
		v    Value
		send bool
	}
	var sts []st
	for _, s := range x.States {
		var q st
		q.send = s.Dir == types.SendOnly
		q.c, _ = t.opval(in, regs, s.Chan).(*Chan)
		if q.send {
			q.v = copyVal(t.opval(in, regs, s.Send))
		}
		sts = append(sts, q)
	}
	res := func(idx int, v Value, ok bool) Value {
		tp := Tuple{int64(idx), ok}
		for i, s := range x.States {
			if s.Dir == types.SendOnly {
				continue
			}
			if i == idx && v != nil {
				tp = append(tp, v)
			} else {
				tp = append(tp, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return tp
	}
	var can []int
	for i, s := range sts {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || hasLive(s.c.recvq) || len(s.c.buf) < s.c.cap {
				can = append(can, i)
			}
		} else if len(s.c.buf) > 0 || hasLive(s.c.sendq) || s.c.closed {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		k := 0
		if p.explore {
			k = p.choose(len(can))
		}
		i := can[k]
		if sts[i].send {
			t.trySend(sts[i].c, sts[i].v)
			return res(i, nil, false)
		}
		v, ok, _ := t.tryRecv(sts[i].c)
		return res(i, v, ok)
	}
	if !x.Blocking {
		return res(-1, nil, false)
	}
	ss := &selState{}
	for i, s := range sts {
		if s.c == nil {
			continue
		}
		q := &sudog{t: t, sel: ss, idx: i, v: s.v, vc: t.release()}
		if s.send {
			s.c.sendq = append(s.c.sendq, q)
		} else {
			q.vc = nil
			s.c.recvq = append(s.c.recvq, q)
		}
	}
	t.block()
	if !ss.fired {
		p.abort("unsupported", "internal: select wakeup")
	}
	q := ss.s
	if sts[ss.idx].send {
		if q.dead {
			panic(progPanic{msg: "send on closed channel"})
		}
		return res(ss.idx, nil, false)
	}
	t.acquire(q.vc)
	return res(ss.idx, q.v, q.ok)
}

func (t *thread) opval(in *instr, regs []Value, v ssa.Value) Value {
	for i, o := range in.ins.Operands(nil) {
		if *o == v {
			return regs[in.o[i]]
		}
	}
	unsup("select operand")
	return nil
}

// ------------------------------------------------------------ sync package

type syncState struct {
	locked  bool
	readers int
	n       int64
	waitq   []*thread
	vc      vclock
	onceEnd bool
}

func (p *path) syncOf(v Value) *syncState {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		p.panicRT("invalid memory address or nil pointer dereference (sync)")
	}
	if p.spec > 0 {
		panic(specAbort{"sync"})
	}
	s := p.syncs[c]
	if s == nil {
		s = &syncState{vc: vclock{}}
		p.syncs[c] = s
	}
	return s
}

func (p *path) wakeAll(s *syncState) {
	for _, w := range s.waitq {
		p.ready(w)
	}
	s.waitq = nil
}

func (t *thread) lock(v Value) {
	s := t.p.syncOf(v)
	t.yield()
	for s.locked || s.readers > 0 {
		s.waitq = append(s.waitq, t)
		t.block()
	}
	s.locked = true
	t.acquire(s.vc)
}

func (t *thread) unlock(v Value) {
	s := t.p.syncOf(v)
	if !s.locked {
		panic(progPanic{msg: "fatal error: sync: unlock of unlocked mutex"})
	}
	s.locked = false
	if r := t.release(); r != nil {
		s.vc.join(r)
	}
	t.p.wakeAll(s)
	t.yield()
}

func (t *thread) rlock(v Value) {
	s := t.p.syncOf(v)
	t.yield()
	for s.locked {
		s.waitq = append(s.waitq, t)
		t.block()
	}
	s.readers++
	t.acquire(s.vc)
}

func (t *thread) runlock(v Value) {
	s := t.p.syncOf(v)
	if s.readers <= 0 {
		panic(progPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	s.readers--
	if r := t.release(); r != nil {
		s.vc.join(r)
	}
	t.p.wakeAll(s)
	t.yield()
}

func (t *thread) wgAdd(v Value, d int64) {
	s := t.p.syncOf(v)
	s.n += d
	if s.n < 0 {
		panic(progPanic{msg: "sync: negative WaitGroup counter"})
	}
	if r := t.release(); r != nil {
		s.vc.join(r)
	}
	if s.n == 0 {
		t.p.wakeAll(s)
	}
	t.yield()
}

func (t *thread) wgWait(v Value) {
	s := t.p.syncOf(v)
	t.yield()
	for s.n > 0 {
		s.waitq = append(s.waitq, t)
		t.block()
	}
	t.acquire(s.vc)
}

// ------------------------------------------------------------ race detector

type access struct {
	tid, clk int
}

type cellAcc struct {
	w access
	r map[int]int
}

type raceState struct {
	cells map[*Cell]*cellAcc
	found map[string]bool
}

func (r *raceState) acc(c *Cell) *cellAcc {
	a := r.cells[c]
	if a == nil {
		a = &cellAcc{w: access{-1, 0}}
		r.cells[c] = a
	}
	return a
}

func (r *raceState) read(p *path, c *Cell) {
	if len(p.threads) < 2 {
		return
	}
	t := p.cur
	a := r.acc(c)
	if a.w.tid >= 0 && a.w.tid != t.id && t.vc[a.w.tid] < a.w.clk {
		r.race(p, t, a.w.tid)
	}
	if a.r == nil {
		a.r = map[int]int{}
	}
	a.r[t.id] = t.vc[t.id]
}

func (r *raceState) write(p *path, c *Cell) {
	if len(p.threads) < 2 {
		return
	}
	t := p.cur
	a := r.acc(c)
	if a.w.tid >= 0 && a.w.tid != t.id && t.vc[a.w.tid] < a.w.clk {
		r.race(p, t, a.w.tid)
	}
	for id, k := range a.r {
		if id != t.id && t.vc[id] < k {
			r.race(p, t, id)
		}
	}
	a.w = access{t.id, t.vc[t.id]}
	a.r = nil
}

func (r *raceState) race(p *path, t *thread, other int) {
	fn := ""
	if len(t.stack) > 0 {
		fn = t.stack[len(t.stack)-1].name
	}
	k := fmt.Sprintf("data race in %s", strings.TrimSpace(fn))
	if r.found[k] {
		return
	}
	r.found[k] = true
	p.w.report(p, "race", k, p.model)
	p.abort("violation", "%s", k)
}
