package main

import (
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type instr struct {
	ins ssa.Instruction
	dst int
	o   []int
	t   types.Type // canonical auxiliary type
}

type blk struct {
	phis   []instr
	code   []instr
	ipdom  int // -1: function exit
	livein []int
	nw     int
	b      *ssa.BasicBlock
}

type fnInfo struct {
	stdInit bool // init of a standard-library package: not run
	fn      *ssa.Function
	name    string
	tmpl    []Value
	globals []struct {
		slot int
		g    *ssa.Global
	}
	blocks   []blk
	nparam   int
	nfree    int
	hasDefer bool
	intr     intrinsic
	liveOnce sync.Once
	slotOf   map[ssa.Value]int
}

var fnCache sync.Map // *ssa.Function -> *fnInfo
var fnMu sync.Mutex

func getFn(fn *ssa.Function) *fnInfo {
	if f, ok := fnCache.Load(fn); ok {
		return f.(*fnInfo)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if f, ok := fnCache.Load(fn); ok {
		return f.(*fnInfo)
	}
	f := compile(fn)
	fnCache.Store(fn, f)
	return f
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				return int64(c.Uint64())
			}
			return c.Int64()
		case u.Info()&types.IsFloat != 0:
			f := c.Float64()
			if u.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	return poison{}
}

func compile(fn *ssa.Function) *fnInfo {
	f := &fnInfo{fn: fn, name: fn.String(), slotOf: map[ssa.Value]int{}}
	f.intr = lookupIntrinsic(f.name)
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && !ownInit(fn.Pkg.Pkg.Path()) && !stdInits[fn.Pkg.Pkg.Path()] {
		f.stdInit = true
	}
	if fn.Blocks == nil {
		return f
	}
	slot := func(v ssa.Value) int {
		if v == nil {
			return -1
		}
		if s, ok := f.slotOf[v]; ok {
			return s
		}
		s := len(f.tmpl)
		f.slotOf[v] = s
		var tv Value
		switch x := v.(type) {
		case *ssa.Const:
			tv = constValue(x)
		case *ssa.Function:
			tv = &Closure{fn: x}
		case *ssa.Builtin:
			tv = &Closure{blt: x}
		case *ssa.Global:
			f.globals = append(f.globals, struct {
				slot int
				g    *ssa.Global
			}{s, x})
		}
		f.tmpl = append(f.tmpl, tv)
		return s
	}
	for _, p := range fn.Params {
		slot(p)
	}
	f.nparam = len(fn.Params)
	for _, p := range fn.FreeVars {
		slot(p)
	}
	f.nfree = len(fn.FreeVars)
	f.hasDefer = fn.Recover != nil
	f.blocks = make([]blk, len(fn.Blocks))
	for i, b := range fn.Blocks {
		bb := &f.blocks[i]
		bb.b = b
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			in := instr{ins: ins, dst: -1}
			for _, o := range ins.Operands(nil) {
				if *o == nil {
					in.o = append(in.o, -1)
				} else {
					in.o = append(in.o, slot(*o))
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				in.dst = slot(v)
			}
			switch x := ins.(type) {
			case *ssa.MakeInterface:
				in.t = canon(x.X.Type())
			case *ssa.TypeAssert:
				in.t = canon(x.AssertedType)
			case *ssa.Alloc:
				in.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Defer:
				f.hasDefer = true
				if x.DeferStack == nil && len(in.o) > 0 && in.o[len(in.o)-1] == -1 {
					in.o = in.o[:len(in.o)-1]
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				bb.phis = append(bb.phis, in)
			} else {
				bb.code = append(bb.code, in)
			}
		}
	}
	computeIpdom(f)
	computeLive(f)
	return f
}

func computeIpdom(f *fnInfo) {
	n := len(f.blocks)
	// post-dominator sets by iteration over bitsets; exit = n
	words := (n + 1 + 63) / 64
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = make([]uint64, words)
		if i < n {
			for w := range pd[i] {
				pd[i][w] = ^uint64(0)
			}
		}
	}
	pd[n][n/64] |= 1 << (n % 64)
	succs := func(i int) []int {
		var r []int
		for _, s := range f.fn.Blocks[i].Succs {
			r = append(r, s.Index)
		}
		if len(r) == 0 {
			if bi := f.fn.Blocks[i].Instrs; len(bi) > 0 {
				if _, ok := bi[len(bi)-1].(*ssa.Panic); ok {
					return nil // never rejoins
				}
			}
			r = append(r, n)
		}
		return r
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			nw := make([]uint64, words)
			for w := range nw {
				nw[w] = ^uint64(0)
			}
			for _, s := range succs(i) {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(a, b int) bool { return pd[a][b/64]>>(b%64)&1 == 1 } // b postdominates a
	cnt := func(a int) int {
		c := 0
		for b := 0; b <= n; b++ {
			if has(a, b) {
				c++
			}
		}
		return c
	}
	cs := make([]int, n+1)
	for i := range cs {
		cs[i] = cnt(i)
	}
	for i := 0; i < n; i++ {
		best := -1
		for b := 0; b <= n; b++ {
			if b != i && has(i, b) && cs[b] == cs[i]-1 {
				best = b
			}
		}
		if best == n {
			best = -1
		}
		f.blocks[i].ipdom = best
	}
}

// computeLive: registers live at block entry (after phis are resolved, phi
// destinations excluded).
func computeLive(f *fnInfo) {
	n := len(f.blocks)
	in := make([]map[int]bool, n)
	for i := range in {
		in[i] = map[int]bool{}
	}
	isReg := func(s int) bool { return s >= 0 }
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := &f.blocks[i]
			live := map[int]bool{}
			for _, s := range b.b.Succs {
				sb := &f.blocks[s.Index]
				for v := range in[s.Index] {
					live[v] = true
				}
				// phi uses along the edge
				for pi, pr := range s.Preds {
					if pr == b.b {
						for _, ph := range sb.phis {
							if isReg(ph.o[pi]) {
								live[ph.o[pi]] = true
							}
						}
					}
				}
			}
			for k := len(b.code) - 1; k >= 0; k-- {
				c := &b.code[k]
				if c.dst >= 0 {
					delete(live, c.dst)
				}
				for _, o := range c.o {
					if isReg(o) {
						live[o] = true
					}
				}
			}
			for _, ph := range b.phis {
				delete(live, ph.dst)
			}
			if len(live) != len(in[i]) {
				in[i] = live
				changed = true
			}
		}
	}
	for i := range in {
		for v := range in[i] {
			f.blocks[i].livein = append(f.blocks[i].livein, v)
		}
		sortInts(f.blocks[i].livein)
	}
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ownInit: packages whose initialisers are executed.
func ownInit(path string) bool {
	return strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/intdxdt/")
}
