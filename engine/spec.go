package main

// State merging (veritesting): both arms of a symbolic If are executed
// speculatively up to the immediate post-dominator and their effects merged
// with if-then-else terms.  Anything that cannot be merged undoes the attempt
// and the If forks instead.

type armState struct {
	regs    []Value
	prev    int
	skipPhi bool
	status  int
	ret     Value
	writes  []wr
}

type wr struct {
	c   *Cell
	old Value
	v   Value
}

const specBudget = 300000

func (p *path) undo(mark int) {
	for i := len(p.journal) - 1; i >= mark; i-- {
		p.journal[i].c.v = p.journal[i].old
	}
	p.journal = p.journal[:mark]
}

// runArm executes one arm; ok is false when it had to be abandoned.
func (t *thread) runArm(fr *frame, b *blk, regs []Value, succ int, cond *Term, lit bool, join int) (st armState, ok bool) {
	p := t.p
	jm := len(p.journal)
	km := len(p.klog)
	depth := t.depth
	saveEp := p.specEpoch
	p.spec++
	p.epoch++
	p.specEpoch = p.epoch
	l := cond
	if !lit {
		l = p.tc.Not(cond)
	}
	na := len(p.armLits)
	p.armLits = append(p.armLits, l)
	defer func() {
		e := recover()
		p.spec--
		p.armLits = p.armLits[:na]
		p.specEpoch = saveEp
		p.unlearn(km)
		t.depth = depth
		if e != nil {
			p.undo(jm)
			switch e.(type) {
			case specAbort, unsupported, progPanic:
				ok = false
				return
			}
			panic(e)
		}
		// collect the final values, then restore
		seen := map[*Cell]bool{}
		for i := jm; i < len(p.journal); i++ {
			j := p.journal[i]
			if !seen[j.c] {
				seen[j.c] = true
				st.writes = append(st.writes, wr{j.c, j.old, j.c.v})
			}
		}
		p.undo(jm)
	}()
	p.learn(cond, lit)
	fr.regs = regs
	fr.prev = b.b.Index
	fr.cur = succ
	fr.skipPhi = false
	s, r := t.runFrom(fr, join)
	st.status, st.ret = s, r
	st.regs, st.prev, st.skipPhi = fr.regs, fr.prev, fr.skipPhi
	return st, true
}

func (t *thread) trySpec(fr *frame, b *blk, cond *Term, stop int) (bool, Value, int) {
	p := t.p
	if p.cfg.noMerge || fr.f.hasDefer || p.noMerge > 0 {
		return false, nil, 0
	}
	if p.siteFail[b] > 1 {
		return false, nil, 0
	}
	if p.spec == 0 {
		p.specSteps = specBudget
	} else if p.spec > 60 {
		return false, nil, 0
	}
	orig := fr.regs
	sprev, scur := fr.prev, fr.cur
	restore := func() {
		fr.regs, fr.prev, fr.cur, fr.skipPhi = orig, sprev, scur, false
	}
	fail := func() (bool, Value, int) {
		restore()
		p.siteFail[b]++
		return false, nil, 0
	}
	r1 := append([]Value(nil), orig...)
	a1, ok := t.runArm(fr, b, r1, b.b.Succs[0].Index, cond, true, b.ipdom)
	if !ok {
		return fail()
	}
	r2 := append([]Value(nil), orig...)
	a2, ok := t.runArm(fr, b, r2, b.b.Succs[1].Index, cond, false, b.ipdom)
	if !ok || a1.status != a2.status {
		return fail()
	}
	// merge
	type cw struct {
		c *Cell
		v Value
	}
	var cells []cw
	var mregs []struct {
		s int
		v Value
	}
	var ret Value
	merged := func() (ok bool) {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case specAbort, unsupported:
					ok = false
					return
				}
				panic(e)
			}
		}()
		if a1.status == 1 {
			v, ok := p.ite(cond, a1.ret, a2.ret)
			if !ok {
				return false
			}
			ret = v
		} else {
			jb := &fr.f.blocks[b.ipdom]
			for i := range jb.phis {
				v1, v2 := phiVal(jb, i, &a1), phiVal(jb, i, &a2)
				v, ok := p.ite(cond, v1, v2)
				if !ok {
					return false
				}
				mregs = append(mregs, struct {
					s int
					v Value
				}{jb.phis[i].dst, v})
			}
			for _, s := range jb.livein {
				x, y := a1.regs[s], a2.regs[s]
				v, ok := p.ite(cond, x, y)
				if !ok {
					return false
				}
				mregs = append(mregs, struct {
					s int
					v Value
				}{s, v})
			}
		}
		w2 := map[*Cell]Value{}
		for _, w := range a2.writes {
			w2[w.c] = w.v
		}
		seen := map[*Cell]bool{}
		for _, w := range a1.writes {
			o, ok := w2[w.c]
			if !ok {
				o = w.old
			}
			seen[w.c] = true
			v, ok := p.ite(cond, w.v, o)
			if !ok {
				return false
			}
			cells = append(cells, cw{w.c, v})
		}
		for _, w := range a2.writes {
			if seen[w.c] {
				continue
			}
			v, ok := p.ite(cond, w.old, w.v)
			if !ok {
				return false
			}
			cells = append(cells, cw{w.c, v})
		}
		return true
	}()
	if !merged {
		return fail()
	}
	restore()
	for _, c := range cells {
		p.write(c.c, c.v)
	}
	for _, m := range mregs {
		fr.regs[m.s] = m.v
	}
	p.merges++
	if a1.status == 1 {
		return true, ret, 1
	}
	fr.cur = b.ipdom
	return true, nil, 0
}

func phiVal(jb *blk, i int, a *armState) Value {
	if a.skipPhi {
		return a.regs[jb.phis[i].dst]
	}
	for k, pr := range jb.b.Preds {
		if pr.Index == a.prev {
			return a.regs[jb.phis[i].o[k]]
		}
	}
	unsup("internal: phi predecessor")
	return nil
}
