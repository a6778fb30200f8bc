package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value: int64 (every concrete integer type), bool, float64, string, *Term
// (symbolic int or bool), *SymF (symbolic float), *Cell (pointer), Agg
// (struct or array), Slice, *Map, *Chan, *Closure, Iface, Tuple, *MapIter,
// unsafe/complex values are unsupported.
type Value interface{}

type Cell struct {
	v  Value
	ep int32
}

type Agg []Cell

type Slice struct {
	a   []Cell
	isN bool // non-nil (a may be empty)
}

type Tuple []Value

type Iface struct {
	t types.Type // canonical; nil for nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	// host implements a function in the engine (used for swap functions)
	host func(t *thread, args []Value) Value
	blt  *ssa.Builtin
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	idx  map[string]int
	ent  []*mapEntry
	n    int
	ep   int32
	kt   types.Type
	vc   int // race token
	cell *Cell
}

type poison struct{}

var canonMu sync.Mutex
var canonMap typeutil.Map

func canon(t types.Type) types.Type {
	canonMu.Lock()
	defer canonMu.Unlock()
	if c := canonMap.At(t); c != nil {
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	return t
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return 0.0
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Cell)(nil)
		}
		unsup("zero of %v", t)
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i].v = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			for i := range a {
				if i == 0 {
					a[i].v = z
				} else {
					a[i].v = copyVal(z)
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	unsup("zero of %v", t)
	return nil
}

func copyVal(v Value) Value {
	if a, ok := v.(Agg); ok {
		b := make(Agg, len(a))
		for i := range a {
			if s, ok := a[i].v.(Agg); ok {
				b[i].v = copyVal(s)
			} else {
				b[i].v = a[i].v
			}
		}
		return b
	}
	return v
}

func stamp(v Value, ep int32) {
	if a, ok := v.(Agg); ok {
		for i := range a {
			a[i].ep = ep
			if s, ok := a[i].v.(Agg); ok {
				stamp(s, ep)
			}
		}
	}
}

// keyString serialises a concrete map key.
func (p *path) keyString(sb *strings.Builder, v Value) {
	switch x := v.(type) {
	case int64:
		fmt.Fprintf(sb, "i%d", x)
	case bool:
		fmt.Fprintf(sb, "b%v", x)
	case float64:
		if len(p.fsym) > 0 {
			fmt.Fprintf(sb, "f%v", p.floatClass(x))
			return
		}
		p.fkeys[x+0] = true
		fmt.Fprintf(sb, "f%v", x+0)
	case string:
		fmt.Fprintf(sb, "s%d:%s", len(x), x)
	case *Cell:
		fmt.Fprintf(sb, "p%p", x)
	case Agg:
		sb.WriteByte('{')
		for i := range x {
			p.keyString(sb, x[i].v)
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	case Iface:
		if x.t == nil {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "<%p>", x.t)
		p.keyString(sb, x.v)
	case *Chan:
		fmt.Fprintf(sb, "c%p", x)
	case *Term:
		p.keyString(sb, p.concretize(x))
	case *SymF:
		fmt.Fprintf(sb, "f%v", p.floatClass(x))
	default:
		unsup("map key %T", v)
	}
}

// floatClass: the class of equal floats that x belongs to. Floats that serve
// as map keys are told apart by branching on their equality with those seen
// before on this path.
func (p *path) floatClass(v Value) Value {
	if p.spec > 0 {
		panic(specAbort{"map key"})
	}
	if x, ok := v.(float64); ok {
		if p.fkeys[x+0] {
			return x + 0
		}
	} else {
		var ks []float64
		for k := range p.fkeys {
			ks = append(ks, k)
		}
		sort.Float64s(ks)
		for _, k := range ks {
			if p.truth(p.eqv(v, k)) {
				return k
			}
		}
	}
	for i, s := range p.fsym {
		if p.truth(p.eqv(v, s)) {
			return fmt.Sprintf("sym%d", i)
		}
	}
	if x, ok := v.(float64); ok {
		p.fkeys[x+0] = true
		return x + 0
	}
	p.fsym = append(p.fsym, v.(*SymF))
	return fmt.Sprintf("sym%d", len(p.fsym)-1)
}

func (p *path) key(v Value) string {
	var sb strings.Builder
	p.keyString(&sb, v)
	return sb.String()
}

func isTrue(v Value) bool { b, ok := v.(bool); return ok && b }

// eqv: equality of two values of the same type.
func (p *path) eqv(a, b Value) Value {
	tc := p.tc
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			return p.bv(tc.Eq(tc.Bool(x), y))
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Term:
			return p.bv(tc.Eq(tc.Int(x), y))
		}
	case *Term:
		switch y := b.(type) {
		case bool:
			return p.bv(tc.Eq(x, tc.Bool(y)))
		case int64:
			if y > ilim || y < -ilim {
				return false
			}
			return p.bv(tc.Eq(x, tc.Int(y)))
		case *Term:
			return p.bv(tc.Eq(x, y))
		}
	case float64, *SymF, *SymDiff:
		_, e, _ := p.fcmp(a, b)
		return p.bv(e)
	case string:
		return x == b.(string)
	case *Cell:
		y, ok := b.(*Cell)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		if !ok {
			return x == nil
		}
		return x == y
	case *Chan:
		y, ok := b.(*Chan)
		if !ok {
			return x == nil
		}
		return x == y
	case *Closure:
		y, ok := b.(*Closure)
		if ok {
			return x == nil && y == nil
		}
		return x == nil
	case Slice:
		y := b.(Slice)
		return !x.isN && !y.isN
	case Agg:
		y := b.(Agg)
		r := tc.tru
		for i := range x {
			switch e := p.eqv(x[i].v, y[i].v).(type) {
			case bool:
				if !e {
					return false
				}
			case *Term:
				r = tc.And(r, e)
			}
		}
		return p.bv(r)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("interface comparison with %T", b)
		}
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return p.eqv(x.v, y.v)
	}
	unsup("comparison %T == %T", a, b)
	return nil
}

// bv: a bool term as a Value (concrete when constant).
func (p *path) bv(t *Term) Value {
	if t.isConst() {
		return t.c == 1
	}
	return t
}

func (p *path) iv(t *Term) Value {
	if t.isConst() {
		return t.c
	}
	return t
}

func (p *path) it(v Value) *Term {
	switch x := v.(type) {
	case int64:
		return p.tc.Int(x)
	case *Term:
		return x
	case bool:
		return p.tc.Bool(x)
	}
	unsup("not an integer: %T", v)
	return nil
}

func (p *path) bt(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return p.tc.Bool(x)
	case *Term:
		return x
	}
	unsup("not a bool: %T", v)
	return nil
}

// ite merges two values; ok=false when they cannot be merged.
func (p *path) ite(q *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return x, true
			}
			return p.bv(p.tc.Ite(q, p.tc.Bool(x), p.tc.Bool(y))), true
		case *Term:
			return p.bv(p.tc.Ite(q, p.tc.Bool(x), y)), true
		}
		return nil, false
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return x, true
			}
			if x > 1<<60 || x < -(1<<60) || y > 1<<60 || y < -(1<<60) {
				return nil, false
			}
			return p.iv(p.tc.Ite(q, p.tc.Int(x), p.tc.Int(y))), true
		case *Term:
			if x > 1<<60 || x < -(1<<60) {
				return nil, false
			}
			return p.iv(p.tc.Ite(q, p.tc.Int(x), y)), true
		}
		return nil, false
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.isBool {
				return p.bv(p.tc.Ite(q, x, y)), true
			}
			return p.iv(p.tc.Ite(q, x, y)), true
		case bool:
			return p.bv(p.tc.Ite(q, x, p.tc.Bool(y))), true
		case int64:
			if y > 1<<60 || y < -(1<<60) {
				return nil, false
			}
			return p.iv(p.tc.Ite(q, x, p.tc.Int(y))), true
		}
		return nil, false
	case float64, *SymF:
		switch b.(type) {
		case float64, *SymF:
			return p.fite(q, a, b)
		}
		return nil, false
	case string:
		y, ok := b.(string)
		return x, ok && x == y
	case *Cell:
		y, ok := b.(*Cell)
		return x, ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return x, ok && x == y
	case *Chan:
		y, ok := b.(*Chan)
		return x, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x != nil && y != nil && x.fn != nil && x.fn == y.fn && len(x.env) == 0 && len(y.env) == 0 {
			return x, true
		}
		return nil, false
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return nil, false
		}
		if x.isN != y.isN || len(x.a) != len(y.a) || cap(x.a) != cap(y.a) {
			return nil, false
		}
		if cap(x.a) == 0 {
			return x, true
		}
		return x, &x.a[:1][0] == &y.a[:1][0]
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := p.ite(q, x[i].v, y[i].v)
			if !ok {
				return nil, false
			}
			r[i].v = v
		}
		return r, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := p.ite(q, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.t != y.t {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		v, ok := p.ite(q, x.v, y.v)
		return Iface{x.t, v}, ok
	case poison:
		return poison{}, true
	case *mapIter:
		y, ok := b.(*mapIter)
		return x, ok && x == y
	case *strIter:
		y, ok := b.(*strIter)
		return x, ok && x == y
	}
	return nil, false
}

// describe renders a value under a model (for observations).
func (p *path) describe(v Value, m Model, sb *strings.Builder) {
	switch x := v.(type) {
	case *Term:
		r := p.tc.Eval(x, m)
		if x.isBool {
			fmt.Fprintf(sb, "%v", r == 1)
		} else {
			fmt.Fprintf(sb, "%d", r)
		}
	case int64, bool, string:
		fmt.Fprintf(sb, "%v", x)
	case Slice:
		sb.WriteByte('[')
		for i := range x.a {
			if i > 0 {
				sb.WriteByte(' ')
			}
			p.describe(x.a[i].v, m, sb)
		}
		sb.WriteByte(']')
	case []Value:
		sb.WriteByte('[')
		for i := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			p.describe(x[i], m, sb)
		}
		sb.WriteByte(']')
	default:
		fmt.Fprintf(sb, "?")
	}
}
