package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type thread struct {
	p      *path
	id     int
	resume chan struct{}
	done   bool
	fn     *Closure
	args   []Value
	wait   func() bool // nil when runnable
	depth  int
	vc     vclock
	stack  []*fnInfo
}

type deferred struct {
	fn   *Closure
	args []Value
}

type frame struct {
	f         *fnInfo
	regs      []Value
	prev, cur int
	skipPhi   bool
	defers    []deferred
	panicking *progPanic
	recovered bool
	result    Value
}

const stopReturn = -1

func (t *thread) callClosure(c *Closure, args []Value) Value {
	if c != nil && c.blt != nil {
		return t.builtin(c.blt, args, nil)
	}
	if c == nil {
		t.p.panicRT("invalid memory address or nil pointer dereference (nil func)")
	}
	if c.host != nil {
		return c.host(t, args)
	}
	return t.call(getFn(c.fn), args, c.env)
}

func (t *thread) call(f *fnInfo, args []Value, env []Value) Value {
	p := t.p
	if f.intr != nil {
		if r, ok := f.intr(t, f, args); ok {
			return r
		}
	}
	if f.stdInit {
		return nil
	}
	if f.fn.Blocks == nil {
		if f.fn.Name() == "init" || strings.HasPrefix(f.fn.Name(), "init#") {
			return nil
		}
		unsup("external function %s", f.name)
	}
	t.depth++
	if t.depth > 4000 {
		p.abort("steps", "call depth")
	}
	if p.cfg.funcs != nil {
		p.w.noteFunc(f)
	}
	fr := &frame{f: f, regs: make([]Value, len(f.tmpl)), prev: -1}
	t.stack = append(t.stack[:t.depth-1], f)
	copy(fr.regs, f.tmpl)
	copy(fr.regs, args)
	copy(fr.regs[f.nparam:], env)
	for _, g := range f.globals {
		fr.regs[g.slot] = p.global(g.g)
	}
	var r Value
	if f.hasDefer {
		r = t.runDefers(fr)
	} else {
		_, r = t.run(fr, stopReturn)
	}
	t.depth--
	return r
}

func (t *thread) runDefers(fr *frame) (ret Value) {
	depth := t.depth
	func() {
		defer func() {
			if e := recover(); e != nil {
				pp, ok := e.(progPanic)
				if !ok {
					panic(e)
				}
				t.depth = depth
				fr.panicking = &pp
			}
		}()
		_, ret = t.run(fr, stopReturn)
	}()
	if fr.panicking == nil {
		return ret
	}
	t.execDefers(fr)
	if fr.panicking != nil {
		panic(*fr.panicking)
	}
	// recovered: return the named results via the Recover block
	if fr.f.fn.Recover != nil {
		fr.cur = fr.f.fn.Recover.Index
		fr.prev = -1
		_, ret = t.runFrom(fr, stopReturn)
		return ret
	}
	return zeroResults(fr.f.fn)
}

func zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (t *thread) execDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if e := recover(); e != nil {
					pp, ok := e.(progPanic)
					if !ok {
						panic(e)
					}
					fr.panicking = &pp
				}
			}()
			save := t.p.hostMem["panicframe"]
			t.p.hostMem["panicframe"] = fr
			t.invoke(d.fn, d.args)
			t.p.hostMem["panicframe"] = save
		}()
	}
}

func (t *thread) invoke(c *Closure, args []Value) Value {
	if c != nil && c.blt != nil {
		return t.builtin(c.blt, args, nil)
	}
	return t.callClosure(c, args)
}

func (t *thread) run(fr *frame, stop int) (int, Value) {
	fr.cur = 0
	return t.runFrom(fr, stop)
}

// runFrom executes fr from block fr.cur until it returns or is about to enter
// block stop.  It returns (1, value) on return and (0, nil) at the stop block.
func (t *thread) runFrom(fr *frame, stop int) (int, Value) {
	p := t.p
	f := fr.f
	regs := fr.regs
	for {
		if fr.cur == stop && stop >= 0 && fr.prev != -1 {
			return 0, nil
		}
		b := &f.blocks[fr.cur]
		if len(b.phis) > 0 && !fr.skipPhi {
			pi := -1
			for i, pr := range b.b.Preds {
				if pr.Index == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				regs[b.phis[0].dst] = regs[b.phis[0].o[pi]]
			} else {
				tmp := make([]Value, len(b.phis))
				for i := range b.phis {
					tmp[i] = regs[b.phis[i].o[pi]]
				}
				for i := range b.phis {
					regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		fr.skipPhi = false
		p.steps += int64(len(b.code)) + 1
		if p.spec > 0 {
			p.specSteps -= int64(len(b.code)) + 1
			if p.specSteps < 0 {
				panic(specAbort{"budget"})
			}
		} else if p.steps > p.cfg.maxSteps {
			p.abort("steps", "step limit in %s", f.name)
		}
		next := -1
		for k := range b.code {
			in := &b.code[k]
			switch x := in.ins.(type) {
			case *ssa.Jump:
				next = b.b.Succs[0].Index
			case *ssa.If:
				c := regs[in.o[0]]
				var v bool
				switch q := c.(type) {
				case bool:
					v = q
				case *Term:
					if kv, ok := p.lookup(q); ok {
						v = kv
					} else if r, ret, st := t.trySpec(fr, b, q, stop); r {
						if st == 1 {
							return 1, ret
						}
						next = fr.cur // merged: continue at the join
						fr.skipPhi = true
						goto cont
					} else {
						v = p.branch(q)
					}
				default:
					unsup("if on %T", c)
				}
				if v {
					next = b.b.Succs[0].Index
				} else {
					next = b.b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(in.o) {
				case 0:
					return 1, nil
				case 1:
					return 1, regs[in.o[0]]
				default:
					tp := make(Tuple, len(in.o))
					for i, o := range in.o {
						tp[i] = regs[o]
					}
					return 1, tp
				}
			case *ssa.Panic:
				if p.spec > 0 {
					panic(specAbort{"panic"})
				}
				v := regs[in.o[0]]
				panic(progPanic{val: v, msg: panicString(v)})
			default:
				t.exec(fr, in, x)
			}
		}
	cont:
		if next < 0 {
			unsup("fell off block in %s", f.name)
		}
		if !fr.skipPhi {
			fr.prev = fr.cur
		} else {
			fr.prev = -2
		}
		fr.cur = next
	}
}

func panicString(v Value) string {
	if i, ok := v.(Iface); ok {
		switch s := i.v.(type) {
		case string:
			return s
		case int64:
			return fmt.Sprint(s)
		}
		return fmt.Sprintf("%v", i.t)
	}
	return fmt.Sprintf("%T", v)
}

func (p *path) global(g *ssa.Global) *Cell {
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := &Cell{v: zero(g.Type().Underlying().(*types.Pointer).Elem())}
	p.globals[g] = c
	return c
}

func (t *thread) exec(fr *frame, in *instr, ins ssa.Instruction) {
	p := t.p
	regs := fr.regs
	switch x := ins.(type) {
	case *ssa.Alloc:
		regs[in.dst] = p.newCell(zero(in.t))
	case *ssa.UnOp:
		regs[in.dst] = t.unop(x, regs[in.o[0]])
	case *ssa.BinOp:
		regs[in.dst] = t.binop(x.Op, x.X.Type(), regs[in.o[0]], regs[in.o[1]], x.Type())
	case *ssa.Store:
		c, ok := regs[in.o[0]].(*Cell)
		if !ok {
			unsup("store through %T", regs[in.o[0]])
		}
		p.store(c, regs[in.o[1]])
	case *ssa.FieldAddr:
		c := regs[in.o[0]].(*Cell)
		if c == nil {
			p.panicRT("invalid memory address or nil pointer dereference")
		}
		a, ok := c.v.(Agg)
		if !ok {
			unsup("field of %T in %s", c.v, fr.f.name)
		}
		regs[in.dst] = &a[x.Field]
	case *ssa.Field:
		regs[in.dst] = regs[in.o[0]].(Agg)[x.Field].v
	case *ssa.IndexAddr:
		regs[in.dst] = t.indexAddr(regs[in.o[0]], regs[in.o[1]])
	case *ssa.Index:
		switch b := regs[in.o[0]].(type) {
		case string:
			i := p.cint(regs[in.o[1]])
			if i < 0 || i >= int64(len(b)) {
				p.panicRT("index out of range")
			}
			regs[in.dst] = int64(b[i])
		case Agg:
			i := p.cint(regs[in.o[1]])
			if i < 0 || i >= int64(len(b)) {
				p.panicRT("index out of range")
			}
			regs[in.dst] = b[i].v
		default:
			unsup("index of %T", b)
		}
	case *ssa.Call:
		regs[in.dst] = t.doCall(fr, in, &x.Call)
	case *ssa.Defer:
		c, args := t.prepCall(fr, in, &x.Call)
		fr.defers = append(fr.defers, deferred{c, args})
		if p.spec > 0 {
			panic(specAbort{"defer"})
		}
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			if p.spec > 0 {
				panic(specAbort{"defer"})
			}
			t.execDefers(fr)
			if fr.panicking != nil {
				pp := *fr.panicking
				fr.panicking = nil
				panic(pp)
			}
		}
	case *ssa.Go:
		if p.spec > 0 {
			panic(specAbort{"go"})
		}
		c, args := t.prepCall(fr, in, &x.Call)
		p.spawn(t, c, args)
	case *ssa.Extract:
		regs[in.dst] = regs[in.o[0]].(Tuple)[x.Index]
	case *ssa.MakeInterface:
		regs[in.dst] = Iface{in.t, copyVal(regs[in.o[0]])}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		regs[in.dst] = regs[in.o[0]]
	case *ssa.Convert:
		regs[in.dst] = t.convert(x.X.Type(), x.Type(), regs[in.o[0]])
	case *ssa.MultiConvert:
		regs[in.dst] = t.convert(x.X.Type(), x.Type(), regs[in.o[0]])
	case *ssa.SliceToArrayPointer:
		s := regs[in.o[0]].(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s.a)) < n {
			p.panicRT("slice to array pointer conversion")
		}
		regs[in.dst] = &Cell{v: Agg(s.a[:n:n])}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.o)-1)
		for i := range env {
			env[i] = regs[in.o[i+1]]
		}
		regs[in.dst] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.MakeSlice:
		n := p.cint(regs[in.o[0]])
		c := p.cint(regs[in.o[1]])
		if n < 0 || c < n || c > 1<<24 {
			p.panicRT("makeslice: len out of range")
		}
		regs[in.dst] = Slice{p.newCells(int(n), int(c), x.Type().Underlying().(*types.Slice).Elem()), true}
	case *ssa.MakeMap:
		m := &Map{idx: map[string]int{}, kt: x.Type()}
		m.cell = &Cell{}
		if p.spec > 0 {
			m.ep = p.epoch
		}
		regs[in.dst] = m
	case *ssa.MakeChan:
		if p.spec > 0 {
			panic(specAbort{"chan"})
		}
		regs[in.dst] = &Chan{cap: int(p.cint(regs[in.o[0]])), elem: x.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Slice:
		regs[in.dst] = t.slice(x, regs[in.o[0]], oget(regs, in.o[1]), oget(regs, in.o[2]), oget(regs, in.o[3]))
	case *ssa.Lookup:
		regs[in.dst] = t.lookupMap(x, regs[in.o[0]], regs[in.o[1]])
	case *ssa.MapUpdate:
		m := regs[in.o[0]].(*Map)
		if m == nil {
			p.panicRT("assignment to entry in nil map")
		}
		p.mapSet(m, regs[in.o[1]], regs[in.o[2]])
	case *ssa.Range:
		regs[in.dst] = t.rangeIter(regs[in.o[0]])
	case *ssa.Next:
		regs[in.dst] = regs[in.o[0]].(iter).next(p)
	case *ssa.TypeAssert:
		regs[in.dst] = t.typeAssert(x, in.t, regs[in.o[0]])
	case *ssa.Send:
		if p.spec > 0 {
			panic(specAbort{"send"})
		}
		t.send(regs[in.o[0]].(*Chan), regs[in.o[1]])
	case *ssa.Select:
		if p.spec > 0 {
			panic(specAbort{"select"})
		}
		regs[in.dst] = t.selectOp(x, in, regs)
	default:
		unsup("instruction %T", ins)
	}
}

func oget(regs []Value, i int) Value {
	if i < 0 {
		return nil
	}
	return regs[i]
}

func (t *thread) prepCall(fr *frame, in *instr, cc *ssa.CallCommon) (*Closure, []Value) {
	p := t.p
	regs := fr.regs
	if cc.IsInvoke() {
		recv, ok := regs[in.o[0]].(Iface)
		if !ok {
			unsup("invoke on %T", regs[in.o[0]])
		}
		if recv.t == nil {
			p.panicRT("invalid memory address or nil pointer dereference (nil interface)")
		}
		fn := p.w.ex.prog.method(recv.t, cc.Method)
		if fn == nil {
			unsup("no method %s on %v", cc.Method, recv.t)
		}
		args := make([]Value, 0, len(in.o))
		args = append(args, recv.v)
		for _, o := range in.o[1:] {
			args = append(args, regs[o])
		}
		return &Closure{fn: fn}, args
	}
	c := regs[in.o[0]].(*Closure)
	args := make([]Value, 0, len(in.o)-1)
	for _, o := range in.o[1:] {
		args = append(args, regs[o])
	}
	return c, args
}

func (t *thread) doCall(fr *frame, in *instr, cc *ssa.CallCommon) Value {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		args := make([]Value, 0, len(in.o)-1)
		for _, o := range in.o[1:] {
			args = append(args, fr.regs[o])
		}
		return t.builtin(b, args, cc)
	}
	c, args := t.prepCall(fr, in, cc)
	return t.callClosure(c, args)
}

func (t *thread) indexAddr(bv, iv Value) Value {
	p := t.p
	var cells []Cell
	switch b := bv.(type) {
	case Slice:
		cells = b.a
	case *Cell:
		if b == nil {
			p.panicRT("invalid memory address or nil pointer dereference")
		}
		cells = b.v.(Agg)
	default:
		unsup("indexaddr of %T", bv)
	}
	i := t.boundIndex(iv, len(cells))
	return &cells[i]
}

func (t *thread) boundIndex(iv Value, n int) int64 {
	p := t.p
	if s, ok := iv.(*Term); ok {
		in := p.tc.And(p.tc.Le(p.tc.Int(0), s), p.tc.Lt(s, p.tc.Int(int64(n))))
		if !p.branch(in) {
			p.panicRT("index out of range")
		}
		i := p.concretize(s).(int64)
		if i < 0 || i >= int64(n) { // an arm that cannot be taken
			if p.spec > 0 {
				panic(specAbort{"index"})
			}
			unsup("index %d of %d", i, n)
		}
		return i
	}
	i := iv.(int64)
	if i < 0 || i >= int64(n) {
		p.panicRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
	}
	return i
}

func (t *thread) slice(x *ssa.Slice, v, lo, hi, mx Value) Value {
	p := t.p
	var cells []Cell
	nonNil := true
	switch b := v.(type) {
	case string:
		l, h := int64(0), int64(len(b))
		if lo != nil {
			l = p.cint(lo)
		}
		if hi != nil {
			h = p.cint(hi)
		}
		if l < 0 || h < l || h > int64(len(b)) {
			p.panicRT("slice bounds out of range")
		}
		return b[l:h]
	case Slice:
		cells = b.a
		nonNil = b.isN
	case *Cell:
		if b == nil {
			p.panicRT("invalid memory address or nil pointer dereference")
		}
		cells = b.v.(Agg)
	default:
		unsup("slice of %T", v)
	}
	l, h, m := int64(0), int64(len(cells)), int64(cap(cells))
	if lo != nil {
		l = p.cint(lo)
	}
	if hi != nil {
		h = p.cint(hi)
	}
	if mx != nil {
		m = p.cint(mx)
	}
	if l < 0 || h < l || m < h || m > int64(cap(cells)) {
		p.panicRT(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(cells)))
	}
	return Slice{cells[l:h:m], nonNil}
}

func (t *thread) typeAssert(x *ssa.TypeAssert, want types.Type, v Value) Value {
	p := t.p
	i := v.(Iface)
	ok := false
	var r Value
	if _, isI := want.Underlying().(*types.Interface); isI {
		if i.t != nil && p.w.ex.prog.implements(i.t, want) {
			ok = true
			r = i
		} else {
			r = Iface{}
		}
	} else {
		if i.t == want {
			ok = true
			r = copyVal(i.v)
		} else {
			r = zero(want)
		}
	}
	if x.CommaOk {
		return Tuple{r, ok}
	}
	if !ok {
		p.panicRT(fmt.Sprintf("interface conversion: %v is not %v", i.t, want))
	}
	return r
}

// --------------------------------------------------------------- arithmetic

func intRange(t types.Type) (int64, int64, int, bool) { // lo, hi, bits, unsigned
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return math.MinInt64, math.MaxInt64, 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, 8, false
	case types.Int16:
		return -32768, 32767, 16, false
	case types.Int32:
		return math.MinInt32, math.MaxInt32, 32, false
	case types.Uint8:
		return 0, 255, 8, true
	case types.Uint16:
		return 0, 65535, 16, true
	case types.Uint32:
		return 0, math.MaxUint32, 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, 64, true
	}
	return math.MinInt64, math.MaxInt64, 64, false
}

func wrapInt(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func (p *path) wrapTerm(t *Term, ty types.Type) Value {
	if t.isConst() {
		return wrapInt(t.c, ty)
	}
	lo, hi, bits, uns := intRange(ty)
	if t.lo >= lo && t.hi <= hi {
		return t
	}
	if bits < 64 && uns {
		// mathematical modulo
		m := int64(1) << bits
		r := p.tc.ModC(t, m)
		if t.lo < 0 {
			r = p.tc.Ite(p.tc.Lt(r, p.tc.Int(0)), p.tc.Add(r, p.tc.Int(m)), r)
		}
		return p.iv(r)
	}
	if bits < 64 {
		m := int64(1) << bits
		r := p.tc.ModC(p.tc.Sub(t, p.tc.Int(lo)), m)
		r = p.tc.Ite(p.tc.Lt(r, p.tc.Int(0)), p.tc.Add(r, p.tc.Int(m)), r)
		return p.iv(p.tc.Add(r, p.tc.Int(lo)))
	}
	unsup("64-bit overflow of a symbolic integer")
	return nil
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (t *thread) binop(op token.Token, xt types.Type, a, b Value, rt types.Type) Value {
	p := t.p
	tc := p.tc
	switch op {
	case token.EQL:
		return p.eqv(a, b)
	case token.NEQ:
		switch e := p.eqv(a, b).(type) {
		case bool:
			return !e
		case *Term:
			return p.bv(tc.Not(e))
		}
	}
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			return p.intop(op, x, y, xt, rt)
		}
	}
	switch {
	case isFloatT(xt):
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
			if b, ok := rt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		}
		return t.floatop(op, a, b)
	case isStringT(xt):
		x, y := a.(string), b.(string)
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case isIntT(xt):
		x, y := p.it(a), p.it(b)
		switch op {
		case token.ADD:
			return p.wrapTerm(tc.Add(x, y), rt)
		case token.SUB:
			return p.wrapTerm(tc.Sub(x, y), rt)
		case token.MUL:
			return p.wrapTerm(tc.Mul(x, y), rt)
		case token.QUO, token.REM:
			k := p.cint(b)
			if k == 0 {
				p.panicRT("integer divide by zero")
			}
			if k < 0 {
				unsup("division by negative constant")
			}
			if op == token.QUO {
				return p.iv(tc.DivC(x, k))
			}
			return p.iv(tc.ModC(x, k))
		case token.LSS:
			return p.bv(tc.Lt(x, y))
		case token.LEQ:
			return p.bv(tc.Le(x, y))
		case token.GTR:
			return p.bv(tc.Lt(y, x))
		case token.GEQ:
			return p.bv(tc.Le(y, x))
		case token.SHL:
			k := p.cint(b)
			if k < 0 || k > 40 {
				unsup("symbolic shift")
			}
			return p.wrapTerm(tc.Mul(x, tc.Int(int64(1)<<uint(k))), rt)
		case token.SHR:
			k := p.cint(b)
			if x.lo < 0 || k < 0 || k > 60 {
				unsup("symbolic shift")
			}
			return p.iv(tc.DivC(x, int64(1)<<uint(k)))
		case token.AND:
			// x & (2^k-1)
			if y.isConst() && x.lo >= 0 && y.c >= 0 && (y.c&(y.c+1)) == 0 {
				return p.iv(tc.ModC(x, y.c+1))
			}
			if x.isConst() && y.lo >= 0 && x.c >= 0 && (x.c&(x.c+1)) == 0 {
				return p.iv(tc.ModC(y, x.c+1))
			}
			return p.intop(op, p.cint(a), p.cint(b), xt, rt)
		default:
			return p.intop(op, p.cint(a), p.cint(b), xt, rt)
		}
	default:
		// booleans
		if op == token.LAND || op == token.AND {
			return p.bv(tc.And(p.bt(a), p.bt(b)))
		}
		if op == token.LOR || op == token.OR {
			return p.bv(tc.Or(p.bt(a), p.bt(b)))
		}
	}
	unsup("binop %v on %v", op, xt)
	return nil
}

func (t *thread) floatop(op token.Token, a, b Value) Value {
	p := t.p
	tc := p.tc
	switch op {
	case token.LSS:
		l, _, _ := p.fcmp(a, b)
		return p.bv(l)
	case token.GTR:
		_, _, g := p.fcmp(a, b)
		return p.bv(g)
	case token.LEQ:
		l, e, _ := p.fcmp(a, b)
		return p.bv(tc.Or(l, e))
	case token.GEQ:
		_, e, g := p.fcmp(a, b)
		return p.bv(tc.Or(g, e))
	}
	if f, ok := a.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
		return t.infop(op, f, b, true)
	}
	if f, ok := b.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
		return t.infop(op, f, a, false)
	}
	x, y := p.toSymF(a), p.toSymF(b)
	switch op {
	case token.ADD:
		return p.fadd(x, y, false)
	case token.SUB:
		return p.fadd(x, y, true)
	case token.MUL:
		return p.fmul(x, y)
	case token.QUO:
		z := tc.Int(0)
		if p.branch(tc.Eq(y.num, z)) {
			if y.lvl == 2 && !y.num.isConst() {
				// division by a rounding residue: not followed
				if p.spec > 0 {
					panic(specAbort{"residue"})
				}
				p.abort("assume", "")
			}
			if p.branch(tc.Eq(x.num, z)) {
				return math.NaN()
			}
			if p.branch(tc.Lt(x.num, z)) {
				return math.Inf(-1)
			}
			return math.Inf(1)
		}
		if y.num.lo >= 0 {
			return p.fdiv(x, y, false)
		}
		if y.num.hi <= 0 {
			return p.fdiv(x, y, true)
		}
		// merge both signs without forking when possible
		neg := tc.Lt(y.num, z)
		if v, ok := p.lookup(neg); ok {
			return p.fdiv(x, y, v)
		}
		if x.sqrt || y.sqrt {
			return p.fdiv(x, y, p.branch(neg))
		}
		n := tc.Mul(x.num, y.den)
		d := tc.Mul(x.den, y.num)
		if x.den == y.den {
			n, d = x.num, y.num
		}
		n2 := tc.Ite(neg, tc.Neg(n), n)
		d2 := p.posT(tc.Ite(neg, tc.Neg(d), d))
		lvl := uint8(2)
		if x.lvl == 0 && y.lvl == 0 {
			lvl = 1
		}
		return p.simpF(&SymF{num: n2, den: d2, lvl: lvl})
	}
	unsup("float op %v", op)
	return nil
}

func (t *thread) infop(op token.Token, f float64, o Value, left bool) Value {
	if math.IsNaN(f) {
		return f
	}
	s := t.p.toSymF(o)
	switch op {
	case token.ADD:
		return f
	case token.SUB:
		if left {
			return f
		}
		return -f
	case token.QUO:
		if !left {
			return 0.0
		}
		if t.p.branch(t.p.tc.Lt(s.num, t.p.tc.Int(0))) {
			return -f
		}
		return f
	case token.MUL:
		z := t.p.tc.Int(0)
		if t.p.branch(t.p.tc.Eq(s.num, z)) {
			return math.NaN()
		}
		if t.p.branch(t.p.tc.Lt(s.num, z)) {
			return -f
		}
		return f
	}
	unsup("infinity op")
	return nil
}

func (p *path) intop(op token.Token, x, y int64, xt, rt types.Type) Value {
	uns := isUnsT(xt)
	switch op {
	case token.LSS:
		if uns {
			return uint64(x) < uint64(y)
		}
		return x < y
	case token.LEQ:
		if uns {
			return uint64(x) <= uint64(y)
		}
		return x <= y
	case token.GTR:
		if uns {
			return uint64(x) > uint64(y)
		}
		return x > y
	case token.GEQ:
		if uns {
			return uint64(x) >= uint64(y)
		}
		return x >= y
	}
	var r int64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		if y == 0 {
			p.panicRT("integer divide by zero")
		}
		if uns {
			r = int64(uint64(x) / uint64(y))
		} else {
			r = x / y
		}
	case token.REM:
		if y == 0 {
			p.panicRT("integer divide by zero")
		}
		if uns {
			r = int64(uint64(x) % uint64(y))
		} else {
			r = x % y
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	case token.SHL:
		if uint64(y) >= 64 {
			r = 0
		} else {
			r = x << uint64(y)
		}
	case token.SHR:
		if uns {
			if uint64(y) >= 64 {
				r = 0
			} else {
				r = int64(uint64(x) >> uint64(y))
			}
		} else {
			if uint64(y) >= 64 {
				y = 63
			}
			r = x >> uint64(y)
		}
	default:
		unsup("int op %v", op)
	}
	return wrapInt(r, rt)
}

func (t *thread) unop(x *ssa.UnOp, v Value) Value {
	p := t.p
	switch x.Op {
	case token.MUL:
		c, ok := v.(*Cell)
		if !ok {
			unsup("load through %T", v)
		}
		return p.load(c)
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return p.bv(p.tc.Not(b))
		}
	case token.SUB:
		switch b := v.(type) {
		case int64:
			return wrapInt(-b, x.Type())
		case float64:
			return -b
		case *Term:
			return p.wrapTerm(p.tc.Neg(b), x.Type())
		case *SymF:
			return p.fneg(b)
		}
	case token.XOR:
		switch b := v.(type) {
		case int64:
			return wrapInt(^b, x.Type())
		}
	case token.ARROW:
		if p.spec > 0 {
			panic(specAbort{"recv"})
		}
		r, ok := t.recv(v.(*Chan))
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	}
	unsup("unop %v on %T", x.Op, v)
	return nil
}

func (t *thread) convert(from, to types.Type, v Value) Value {
	p := t.p
	ut, uf := to.Underlying(), from.Underlying()
	switch x := v.(type) {
	case int64:
		switch {
		case isIntT(ut):
			return wrapInt(x, ut)
		case isFloatT(ut):
			if isUnsT(uf) {
				return float64(uint64(x))
			}
			return float64(x)
		case isStringT(ut):
			return string(rune(x))
		}
	case *Term:
		switch {
		case isIntT(ut):
			return p.wrapTerm(x, ut)
		case isFloatT(ut):
			return &SymF{num: x, den: p.one()}
		}
	case float64:
		switch {
		case isIntT(ut):
			return wrapInt(int64(x), ut)
		case isFloatT(ut):
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
	case *SymDiff:
		return x
	case *SymF:
		switch {
		case isFloatT(ut):
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				unsup("float32 of symbolic")
			}
			return x
		case isIntT(ut):
			if !x.sqrt && x.den.isConst() && x.lvl == 0 {
				return p.wrapTerm(p.tc.DivC(x.num, x.den.c), ut)
			}
		}
	case string:
		switch e := ut.(type) {
		case *types.Slice:
			var vals []Value
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				for i := 0; i < len(x); i++ {
					vals = append(vals, int64(x[i]))
				}
			} else {
				for _, r := range x {
					vals = append(vals, int64(r))
				}
			}
			return p.mkSlice(vals)
		default:
			return x
		}
	case Slice:
		if isStringT(ut) {
			e := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
			var sb strings.Builder
			for i := range x.a {
				c := p.cint(x.a[i].v)
				if e.Kind() == types.Uint8 {
					sb.WriteByte(byte(c))
				} else {
					sb.WriteRune(rune(c))
				}
			}
			return sb.String()
		}
		return x
	case *Cell, *Map, *Chan, *Closure, Agg, Iface:
		return v
	case bool:
		return v
	}
	unsup("convert %v -> %v (%T)", from, to, v)
	return nil
}

func (p *path) mkSlice(vals []Value) Slice {
	a := make([]Cell, len(vals))
	for i := range vals {
		a[i].v = vals[i]
		if p.spec > 0 {
			a[i].ep = p.epoch
			stamp(vals[i], p.epoch)
		}
	}
	return Slice{a, true}
}
