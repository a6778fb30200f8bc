package main

// Terms: booleans and mathematical integers with intervals.  Integers are
// printed as two's-complement bit-vectors just wide enough for their interval,
// so no operation ever wraps in the encoding; an operation whose interval
// would leave 62 bits aborts the path as "unsupported" (reduced bound).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OIte
	OLt
	OLe
	OEq
	OAnd
	OOr
	ONot
	ODiv // truncated division by positive constant
	OMod // truncated remainder by positive constant
)

type Term struct {
	id      int
	h       uint64 // structural hash: ordering must not depend on the worker
	op      Op
	isBool  bool
	heavy   bool // contains a product of two symbolic terms, or a division
	x, y, z *Term
	c       int64
	name    string
	lo, hi  int64
	// solver state
	emitted int64
	// evaluation memo
	evGen int64
	ev    int64
}

type tkey struct {
	op      Op
	x, y, z int
	c       int64
	b       bool
}

type TermCtx struct {
	tab     map[tkey]*Term
	vars    map[string]*Term
	list    []*Term
	tru     *Term
	fls     *Term
	evGen   int64
	emitGen int64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.tru = c.mk(OConst, true, nil, nil, nil, 1, 1, 1)
	c.fls = c.mk(OConst, true, nil, nil, nil, 0, 0, 0)
	return c
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, b bool, x, y, z *Term, k int64, lo, hi int64) *Term {
	key := tkey{op, tid(x), tid(y), tid(z), k, b}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: len(c.list), op: op, isBool: b, x: x, y: y, z: z, c: k, lo: lo, hi: hi}
	h := mix(uint64(op)*0x9e3779b97f4a7c15 ^ uint64(k))
	t.heavy = op == OMul && !x.isConst() && !y.isConst() || op == ODiv || op == OMod
	for _, a := range [3]*Term{x, y, z} {
		if a != nil {
			t.heavy = t.heavy || a.heavy
			h = mix(h ^ a.h)
		} else {
			h = mix(h)
		}
	}
	if b {
		h = ^h
	}
	t.h = h
	c.list = append(c.list, t)
	c.tab[key] = t
	return t
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

const ilim = int64(1) << 61

func addI(a, b int64) int64 {
	r := a + b
	if r > ilim || r < -ilim {
		unsup("integer interval overflow")
	}
	return r
}

func mulI(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	ua, ub := a, b
	if ua < 0 {
		ua = -ua
	}
	if ub < 0 {
		ub = -ub
	}
	hi, lo := bits.Mul64(uint64(ua), uint64(ub))
	if hi != 0 || lo > uint64(ilim) {
		unsup("integer interval overflow (mul)")
	}
	return a * b
}

func (c *TermCtx) Int(k int64) *Term {
	if k > ilim || k < -ilim {
		unsup("constant too large")
	}
	return c.mk(OConst, false, nil, nil, nil, k, k, k)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *TermCtx) Var(name string, isBool bool, lo, hi int64) *Term {
	// the same name may have another range on another path
	key := fmt.Sprintf("%s|%v|%d|%d", name, isBool, lo, hi)
	if t, ok := c.vars[key]; ok {
		return t
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	t := &Term{id: len(c.list), h: mix(h), op: OVar, isBool: isBool, name: name, lo: lo, hi: hi}
	c.list = append(c.list, t)
	c.vars[key] = t
	return t
}

func mix(h uint64) uint64 {
	h ^= h >> 31
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 27
	h *= 0x94d049bb133111eb
	return h ^ h>>31
}

// after orders terms by structure.
func (a *Term) after(b *Term) bool {
	if a.h != b.h {
		return a.h > b.h
	}
	return a.id > b.id
}

func (t *Term) isConst() bool { return t.op == OConst }

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(addI(a.c, b.c))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.y.isConst() {
			return c.Add(a.x, c.Int(addI(a.y.c, b.c)))
		}
		if a.op == OIte && a.y.isConst() && a.z.isConst() {
			return c.Ite(a.x, c.Add(a.y, b), c.Add(a.z, b))
		}
	} else if a.after(b) {
		a, b = b, a
	}
	return c.mk(OAdd, false, a, b, nil, 0, addI(a.lo, b.lo), addI(a.hi, b.hi))
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }

func (c *TermCtx) Sub(a, b *Term) *Term {
	if b.isConst() {
		return c.Add(a, c.Int(-b.c))
	}
	if a == b {
		return c.Int(0)
	}
	if a.op == OAdd && b.op == OAdd && a.y.isConst() && b.y.isConst() {
		return c.Add(c.Sub(a.x, b.x), c.Int(a.y.c-b.y.c))
	}
	if a.op == OAdd && a.y.isConst() {
		return c.Add(c.Sub(a.x, b), a.y)
	}
	if a.op == OAdd && a.y == b {
		return a.x
	}
	if a.op == OAdd && a.x == b {
		return a.y
	}
	return c.mk(OSub, false, a, b, nil, 0, addI(a.lo, -b.hi), addI(a.hi, -b.lo))
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Int(mulI(a.c, b.c))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if a.op == OMul && a.y.isConst() {
			return c.Mul(a.x, c.Int(mulI(a.y.c, b.c)))
		}
	} else if a.after(b) {
		a, b = b, a
	}
	p := [4]int64{mulI(a.lo, b.lo), mulI(a.lo, b.hi), mulI(a.hi, b.lo), mulI(a.hi, b.hi)}
	lo, hi := p[0], p[0]
	for _, v := range p {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	if a == b {
		if lo < 0 {
			lo = 0
		}
		if a.lo > 0 || a.hi < 0 {
			lo = mulI(a.lo, a.lo)
			if m := mulI(a.hi, a.hi); m < lo {
				lo = m
			}
		}
	}
	return c.mk(OMul, false, a, b, nil, 0, lo, hi)
}

func (c *TermCtx) DivC(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	if a.isConst() {
		return c.Int(a.c / k)
	}
	return c.mk(ODiv, false, a, nil, nil, k, a.lo/k, a.hi/k)
}

func (c *TermCtx) ModC(a *Term, k int64) *Term {
	if a.isConst() {
		return c.Int(a.c % k)
	}
	lo, hi := -(k - 1), k-1
	if a.lo >= 0 {
		lo = 0
	}
	if a.hi <= 0 {
		hi = 0
	}
	if a.lo >= 0 && a.hi < k {
		return a
	}
	return c.mk(OMod, false, a, nil, nil, k, lo, hi)
}

func (c *TermCtx) Ite(q, a, b *Term) *Term {
	if q.isConst() {
		if q.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.isBool {
		if a == c.tru && b == c.fls {
			return q
		}
		if a == c.fls && b == c.tru {
			return c.Not(q)
		}
		if a == c.tru {
			return c.Or(q, b)
		}
		if a == c.fls {
			return c.And(c.Not(q), b)
		}
		if b == c.tru {
			return c.Or(c.Not(q), a)
		}
		if b == c.fls {
			return c.And(q, a)
		}
		return c.mk(OIte, true, q, a, b, 0, 0, 1)
	}
	if q.op == ONot {
		return c.Ite(q.x, b, a)
	}
	if b.op == OIte && b.x == q {
		return c.Ite(q, a, b.z)
	}
	if a.op == OIte && a.x == q {
		return c.Ite(q, a.y, b)
	}
	alo, ahi := refine(a, q, true)
	blo, bhi := refine(b, q, false)
	if alo > ahi { // the branch is infeasible
		alo, ahi = blo, bhi
	} else if blo > bhi {
		blo, bhi = alo, ahi
	}
	lo, hi := alo, ahi
	if blo < lo {
		lo = blo
	}
	if bhi > hi {
		hi = bhi
	}
	if lo > hi {
		lo, hi = a.lo, a.hi
		if b.lo < lo {
			lo = b.lo
		}
		if b.hi > hi {
			hi = b.hi
		}
	}
	return c.mk(OIte, false, q, a, b, 0, lo, hi)
}

// refine gives the interval of t where q has the given truth value.
func refine(t, q *Term, val bool) (int64, int64) {
	lo, hi := t.lo, t.hi
	u := t
	neg := false
	if t.op == OSub && t.x.op == OConst && t.x.c == 0 {
		u, neg = t.y, true
	}
	if q.op != OLt && q.op != OLe {
		return lo, hi
	}
	l, h := u.lo, u.hi
	switch {
	case q.x == u && q.y.isConst():
		k := q.y.c
		if q.op == OLt {
			k--
		}
		if val {
			if k < h {
				h = k
			}
		} else if k+1 > l {
			l = k + 1
		}
	case q.y == u && q.x.isConst():
		k := q.x.c
		if q.op == OLt {
			k++
		}
		if val {
			if k > l {
				l = k
			}
		} else if k-1 < h {
			h = k - 1
		}
	default:
		return lo, hi
	}
	if neg {
		l, h = -h, -l
	}
	return l, h
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.c == 0)
	}
	if a.op == ONot {
		return a.x
	}
	if a.op == OLt {
		return c.Le(a.y, a.x)
	}
	if a.op == OLe {
		return c.Lt(a.y, a.x)
	}
	return c.mk(ONot, true, a, nil, nil, 0, 0, 1)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.fls
	}
	if a.after(b) {
		a, b = b, a
	}
	return c.mk(OAnd, true, a, b, nil, 0, 0, 1)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == c.Not(b) {
		return c.tru
	}
	if a.after(b) {
		a, b = b, a
	}
	return c.mk(OOr, true, a, b, nil, 0, 0, 1)
}

func (c *TermCtx) Lt(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return c.fls
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.op == OAdd && a.y.isConst() && b.op == OAdd && b.y.isConst() && a.y == b.y {
		return c.Lt(a.x, b.x)
	}
	return c.mk(OLt, true, a, b, nil, 0, 0, 1)
}

func (c *TermCtx) Le(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return c.tru
	}
	if a.lo > b.hi {
		return c.fls
	}
	return c.mk(OLe, true, a, b, nil, 0, 0, 1)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.isBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.after(b) {
			a, b = b, a
		}
		return c.mk(OEq, true, a, b, nil, 0, 0, 1)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.fls
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte && (a.y.isConst() || a.z.isConst()) {
		return c.Ite(a.x, c.Eq(a.y, b), c.Eq(a.z, b))
	}
	if !b.isConst() && a.after(b) {
		a, b = b, a
	}
	return c.mk(OEq, true, a, b, nil, 0, 0, 1)
}

// ---------------------------------------------------------------- evaluation

type Model map[string]int64

func (c *TermCtx) Eval(t *Term, m Model) int64 {
	c.evGen++
	return c.eval(t, m)
}

// EvalMany keeps the memo across several terms.
func (c *TermCtx) newEval() { c.evGen++ }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func varDefault(t *Term) int64 {
	if t.isBool {
		return 0
	}
	if t.lo <= 0 && t.hi >= 0 {
		return 0
	}
	return t.lo
}

func (c *TermCtx) eval(t *Term, m Model) int64 {
	if t.op == OConst {
		return t.c
	}
	if t.evGen == c.evGen {
		return t.ev
	}
	var r int64
	switch t.op {
	case OVar:
		v, ok := m[t.name]
		if !ok {
			v = varDefault(t)
		}
		r = v
	case OAdd:
		r = c.eval(t.x, m) + c.eval(t.y, m)
	case OSub:
		r = c.eval(t.x, m) - c.eval(t.y, m)
	case OMul:
		r = c.eval(t.x, m) * c.eval(t.y, m)
	case ODiv:
		r = c.eval(t.x, m) / t.c
	case OMod:
		r = c.eval(t.x, m) % t.c
	case OIte:
		if c.eval(t.x, m) == 1 {
			r = c.eval(t.y, m)
		} else {
			r = c.eval(t.z, m)
		}
	case OLt:
		r = b2i(c.eval(t.x, m) < c.eval(t.y, m))
	case OLe:
		r = b2i(c.eval(t.x, m) <= c.eval(t.y, m))
	case OEq:
		r = b2i(c.eval(t.x, m) == c.eval(t.y, m))
	case OAnd:
		r = b2i(c.eval(t.x, m) == 1 && c.eval(t.y, m) == 1)
	case OOr:
		r = b2i(c.eval(t.x, m) == 1 || c.eval(t.y, m) == 1)
	case ONot:
		r = 1 - c.eval(t.x, m)
	}
	t.ev, t.evGen = r, c.evGen
	return r
}

// ---------------------------------------------------------------- printing

func width(lo, hi int64) int {
	w := 1
	for w < 63 {
		if lo >= -(int64(1)<<(w-1)) && hi <= (int64(1)<<(w-1))-1 {
			return w
		}
		w++
	}
	return 63
}

func (t *Term) w() int { return width(t.lo, t.hi) }

func bvconst(c int64, w int) string {
	u := uint64(c)
	if w < 64 {
		u &= (uint64(1) << w) - 1
	}
	return fmt.Sprintf("(_ bv%d %d)", u, w)
}

// ref prints t at width w (sign extended or truncated).
func ref(t *Term, w int) string {
	if t.op == OConst {
		return bvconst(t.c, w)
	}
	n := fmt.Sprintf("t%d", t.id)
	tw := t.w()
	if tw == w {
		return n
	}
	if tw < w {
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-tw, n)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, n)
}

func bref(t *Term) string {
	if t.op == OConst {
		if t.c == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func max3(a, b, c int) int {
	if b > a {
		a = b
	}
	if c > a {
		a = c
	}
	return a
}

// define emits definitions of t and everything below it.
func define(sb *strings.Builder, t *Term, g int64) {
	if t.emitted == g || t.op == OConst {
		return
	}
	t.emitted = g
	for _, s := range [3]*Term{t.x, t.y, t.z} {
		if s != nil {
			define(sb, s, g)
		}
	}
	if t.op == OVar {
		if t.isBool {
			fmt.Fprintf(sb, "(declare-const t%d Bool)\n", t.id)
		} else {
			fmt.Fprintf(sb, "(declare-const t%d (_ BitVec %d))\n", t.id, t.w())
		}
		return
	}
	sort := "Bool"
	w := 0
	if !t.isBool {
		w = t.w()
		sort = fmt.Sprintf("(_ BitVec %d)", w)
	}
	var body string
	switch t.op {
	case OAdd, OSub, OMul:
		ww := max3(w, t.x.w(), t.y.w())
		nm := map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul"}[t.op]
		// all three are exact modulo 2^w, so w bits of each operand suffice
		_ = ww
		body = fmt.Sprintf("(%s %s %s)", nm, ref(t.x, w), ref(t.y, w))
	case ODiv, OMod:
		ww := max3(w, t.x.w(), width(0, t.c))
		nm := "bvsdiv"
		if t.op == OMod {
			nm = "bvsrem"
		}
		body = fmt.Sprintf("(%s %s %s)", nm, ref(t.x, ww), bvconst(t.c, ww))
		if ww > w {
			body = fmt.Sprintf("((_ extract %d 0) %s)", w-1, body)
		}
	case OIte:
		if t.isBool {
			body = fmt.Sprintf("(ite %s %s %s)", bref(t.x), bref(t.y), bref(t.z))
		} else {
			body = fmt.Sprintf("(ite %s %s %s)", bref(t.x), ref(t.y, w), ref(t.z, w))
		}
	case OLt, OLe, OEq:
		if t.x.isBool {
			body = fmt.Sprintf("(= %s %s)", bref(t.x), bref(t.y))
		} else {
			ww := max3(t.x.w(), t.y.w(), 0)
			nm := map[Op]string{OLt: "bvslt", OLe: "bvsle", OEq: "="}[t.op]
			body = fmt.Sprintf("(%s %s %s)", nm, ref(t.x, ww), ref(t.y, ww))
		}
	case OAnd:
		body = fmt.Sprintf("(and %s %s)", bref(t.x), bref(t.y))
	case OOr:
		body = fmt.Sprintf("(or %s %s)", bref(t.x), bref(t.y))
	case ONot:
		body = fmt.Sprintf("(not %s)", bref(t.x))
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sort, body)
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.isBool {
			return fmt.Sprint(t.c == 1)
		}
		return fmt.Sprint(t.c)
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}
