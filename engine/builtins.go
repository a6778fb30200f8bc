package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iter interface {
	next(p *path) Value
}

type mapIter struct {
	m    *Map
	i    int
	done map[*mapEntry]bool // symbolic order only
	ep   int32
	t    types.Type
}

type strIter struct {
	rs  []rune
	off []int
	i   int
	ep  int32
}

func (t *thread) rangeIter(v Value) Value {
	p := t.p
	switch x := v.(type) {
	case *Map:
		if x != nil && p.race != nil && p.spec == 0 {
			p.race.read(p, x.cell)
		}
		it := &mapIter{m: x}
		if p.mapSym && p.mapLeft > 0 {
			it.done = map[*mapEntry]bool{}
		}
		if p.spec > 0 {
			it.ep = p.epoch
		}
		return it
	case string:
		it := &strIter{}
		for i, r := range x {
			it.rs = append(it.rs, r)
			it.off = append(it.off, i)
		}
		if p.spec > 0 {
			it.ep = p.epoch
		}
		return it
	}
	unsup("range over %T", v)
	return nil
}

func (it *mapIter) next(p *path) Value {
	if p.spec > 0 && it.ep < p.specEpoch {
		panic(specAbort{"iterator"})
	}
	if it.m == nil {
		return Tuple{false, int64(0), int64(0)}
	}
	if it.done != nil {
		var rest []*mapEntry
		for _, e := range it.m.ent {
			if !e.dead && !it.done[e] {
				rest = append(rest, e)
			}
		}
		if len(rest) == 0 {
			return Tuple{false, int64(0), int64(0)}
		}
		k := 0
		if n := min(len(rest), p.mapLeft+1); n > 1 {
			k = p.choose(n)
		}
		p.mapLeft -= k
		e := rest[k]
		it.done[e] = true
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	for it.i < len(it.m.ent) {
		e := it.m.ent[it.i]
		it.i++
		if !e.dead {
			return Tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	return Tuple{false, int64(0), int64(0)}
}

func (it *strIter) next(p *path) Value {
	if p.spec > 0 && it.ep < p.specEpoch {
		panic(specAbort{"iterator"})
	}
	if it.i >= len(it.rs) {
		return Tuple{false, int64(0), int64(0)}
	}
	i := it.i
	it.i++
	return Tuple{true, int64(it.off[i]), int64(it.rs[i])}
}

// ------------------------------------------------------------------- maps

func (p *path) mapWritable(m *Map) {
	if p.spec > 0 && m.ep < p.specEpoch {
		panic(specAbort{"map write"})
	}
	if p.race != nil && p.spec == 0 {
		p.race.write(p, m.cell)
	}
}

func (p *path) mapSet(m *Map, k, v Value) {
	p.mapWritable(m)
	ks := p.key(k)
	if i, ok := m.idx[ks]; ok {
		m.ent[i].v = copyVal(v)
		return
	}
	m.idx[ks] = len(m.ent)
	m.ent = append(m.ent, &mapEntry{k: p.concKey(k), v: copyVal(v)})
	m.n++
}

// concKey: the concrete form of a key whose symbolic parts were concretized.
func (p *path) concKey(k Value) Value {
	switch x := k.(type) {
	case *Term:
		return p.concretize(x)
	case Agg:
		r := make(Agg, len(x))
		for i := range x {
			r[i].v = p.concKey(x[i].v)
		}
		return r
	case Iface:
		return Iface{x.t, p.concKey(x.v)}
	}
	return k
}

func (p *path) mapGet(m *Map, k Value) (Value, bool) {
	if m == nil {
		return nil, false
	}
	if p.race != nil && p.spec == 0 {
		p.race.read(p, m.cell)
	}
	ks := p.key(k)
	if i, ok := m.idx[ks]; ok {
		return m.ent[i].v, true
	}
	return nil, false
}

func (p *path) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	p.mapWritable(m)
	ks := p.key(k)
	if i, ok := m.idx[ks]; ok {
		m.ent[i].dead = true
		delete(m.idx, ks)
		m.n--
	}
}

func (t *thread) lookupMap(x *ssa.Lookup, mv, k Value) Value {
	p := t.p
	if s, ok := mv.(string); ok {
		i := p.cint(k)
		if i < 0 || i >= int64(len(s)) {
			p.panicRT("index out of range")
		}
		return int64(s[i])
	}
	m := mv.(*Map)
	v, ok := p.mapGet(m, k)
	if !ok {
		v = zero(x.X.Type().Underlying().(*types.Map).Elem())
	} else {
		v = copyVal(v)
	}
	if x.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

// ---------------------------------------------------------------- builtins

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(old, need int, esz int64) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return nc
	}
	mem := int64(nc) * esz
	if mem <= 32768 {
		for _, c := range sizeClasses {
			if int64(c) >= mem {
				return int(int64(c) / esz)
			}
		}
	}
	const page = 8192
	mem = (mem + page - 1) / page * page
	return int(mem / esz)
}

func (p *path) setCell(c *Cell, v Value) {
	if a, ok := v.(Agg); ok {
		if d, ok := c.v.(Agg); ok && len(d) == len(a) {
			p.store(c, a)
			return
		}
		p.write(c, copyVal(a))
		return
	}
	p.write(c, v)
}

func (p *path) appendVals(s Slice, add []Value, et types.Type) Slice {
	n := len(s.a) + len(add)
	if n <= cap(s.a) {
		full := s.a[:n]
		for i, v := range add {
			p.setCell(&full[len(s.a)+i], v)
		}
		return Slice{full, true}
	}
	nc := growCap(cap(s.a), n, stdSizes.Sizeof(et))
	if nc < n {
		nc = n
	}
	na := make([]Cell, nc)
	for i := range s.a {
		v := s.a[i].v
		if p.race != nil && p.spec == 0 {
			p.race.read(p, &s.a[i])
		}
		na[i].v = copyVal(v)
	}
	for i, v := range add {
		na[len(s.a)+i].v = copyVal(v)
	}
	if n < nc {
		z := zero(et)
		for i := n; i < nc; i++ {
			na[i].v = copyVal(z)
		}
	}
	if p.spec > 0 {
		for i := range na {
			na[i].ep = p.epoch
			stamp(na[i].v, p.epoch)
		}
	}
	return Slice{na[:n], true}
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	unsup("element of %v", t)
	return nil
}

func (p *path) sliceVals(v Value) []Value {
	switch x := v.(type) {
	case Slice:
		r := make([]Value, len(x.a))
		for i := range x.a {
			r[i] = p.load(&x.a[i])
		}
		return r
	case string:
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = int64(x[i])
		}
		return r
	}
	unsup("slice values of %T", v)
	return nil
}

func (t *thread) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	p := t.p
	tc := p.tc
	switch b.Name() {
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			unsup("append to %T", args[0])
		}
		if len(args) == 1 {
			return s
		}
		add := p.sliceVals(args[1])
		if len(add) == 0 {
			return s
		}
		sig := b.Type().(*types.Signature)
		return p.appendVals(s, add, elemOf(sig.Params().At(0).Type()))
	case "copy":
		d := args[0].(Slice)
		src := p.sliceVals(args[1])
		n := len(d.a)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			p.setCell(&d.a[i], src[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return int64(len(x.a))
		case string:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			if p.race != nil && p.spec == 0 {
				p.race.read(p, x.cell)
			}
			return int64(x.n)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case *Cell:
			return int64(len(x.v.(Agg)))
		case Agg:
			return int64(len(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.a))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		case Agg:
			return int64(len(x))
		case *Cell:
			return int64(len(x.v.(Agg)))
		}
	case "delete":
		p.mapDelete(args[0].(*Map), args[1])
		return nil
	case "panic":
		if p.spec > 0 {
			panic(specAbort{"panic"})
		}
		panic(progPanic{val: args[0], msg: panicString(args[0])})
	case "recover":
		if p.spec > 0 {
			panic(specAbort{"recover"})
		}
		fr, _ := p.hostMem["panicframe"].(*frame)
		if fr == nil || fr.panicking == nil {
			return Iface{}
		}
		pp := fr.panicking
		fr.panicking = nil
		fr.recovered = true
		if v, ok := pp.val.(Iface); ok {
			return v
		}
		return Iface{canon(types.Typ[types.String]), pp.msg}
	case "print", "println":
		return nil
	case "close":
		if p.spec > 0 {
			panic(specAbort{"close"})
		}
		t.closeChan(args[0].(*Chan))
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = t.minmax(b.Name() == "min", r, a)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				p.mapWritable(x)
				for _, e := range x.ent {
					e.dead = true
				}
				x.idx = map[string]int{}
				x.n = 0
			}
		case Slice:
			if len(x.a) > 0 {
				z := zero(elemOf(b.Type().(*types.Signature).Params().At(0).Type()))
				for i := range x.a {
					p.setCell(&x.a[i], copyVal(z))
				}
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			p.panicRT("value method called using nil pointer")
		}
		return args[0]
	case "real", "imag", "complex":
		unsup("complex numbers")
	}
	_ = tc
	unsup("builtin %s(%s)", b.Name(), describeTypes(args))
	return nil
}

func describeTypes(args []Value) string {
	var s []string
	for _, a := range args {
		s = append(s, fmt.Sprintf("%T", a))
	}
	return strings.Join(s, ",")
}

func isF(v Value) bool {
	switch v.(type) {
	case float64, *SymF:
		return true
	}
	return false
}

func (t *thread) minmax(isMin bool, a, b Value) Value {
	p := t.p
	if isF(a) {
		fa, ok1 := a.(float64)
		fb, ok2 := b.(float64)
		if ok1 && ok2 {
			if isMin {
				return math.Min(fa, fb)
			}
			return math.Max(fa, fb)
		}
		if ok1 && math.IsNaN(fa) {
			return a
		}
		if ok2 && math.IsNaN(fb) {
			return b
		}
		if ok1 && math.IsInf(fa, 0) {
			if (fa > 0) == isMin {
				return b
			}
			return a
		}
		if ok2 && math.IsInf(fb, 0) {
			if (fb > 0) == isMin {
				return a
			}
			return b
		}
		l, e, _ := p.fcmp(a, b)
		c := p.tc.Or(l, e)
		x, y := a, b
		if !isMin {
			x, y = b, a
		}
		if v, ok := p.lookup(c); ok {
			if v {
				return x
			}
			return y
		}
		if v, ok := p.ite(c, x, y); ok {
			return v
		}
		if p.branch(c) {
			return x
		}
		return y
	}
	if x, ok := a.(string); ok {
		y := b.(string)
		if (x < y) == isMin {
			return x
		}
		return y
	}
	x, y := p.it(a), p.it(b)
	c := p.tc.Le(x, y)
	if !isMin {
		x, y = y, x
	}
	return p.iv(p.tc.Ite(c, x, y))
}
