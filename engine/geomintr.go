package main

// Exact summaries of the geometry kernels of github.com/intdxdt/geom and
// robust (dependencies, not code of /repo), used when an argument is symbolic.
// Their results are those of exact real arithmetic.

import (
	"go/types"
	"math"
)

type xy = [2]Value

func (p *path) ptXY(v Value) (xy, bool) {
	var a Agg
	switch x := v.(type) {
	case *Cell:
		if x == nil {
			return xy{}, false
		}
		a, _ = x.v.(Agg)
	case Agg:
		a = x
	case Slice:
		if len(x.a) < 2 {
			return xy{}, false
		}
		return xy{x.a[0].v, x.a[1].v}, true
	}
	if len(a) < 2 {
		return xy{}, false
	}
	return xy{a[0].v, a[1].v}, true
}

func symXY(pts ...xy) bool {
	for _, q := range pts {
		if anySym(q[0], q[1]) {
			return true
		}
	}
	return false
}

func (p *path) cross(a, b, c xy) Value {
	l := p.mulv(p.subv(b[0], a[0]), p.subv(c[1], a[1]))
	r := p.mulv(p.subv(b[1], a[1]), p.subv(c[0], a[0]))
	return p.subv(l, r)
}

func (p *path) ltv(a, b Value) *Term { l, _, _ := p.fexact(a, b); return l }
func (p *path) lev(a, b Value) *Term { l, e, _ := p.fexact(a, b); return p.tc.Or(l, e) }

func (p *path) segIntersects(a, b, c, d xy) *Term {
	tc := p.tc
	r := tc.tru
	for k := 0; k < 2; k++ {
		sep1 := tc.And(tc.And(p.ltv(a[k], c[k]), p.ltv(a[k], d[k])), tc.And(p.ltv(b[k], c[k]), p.ltv(b[k], d[k])))
		sep2 := tc.And(tc.And(p.ltv(c[k], a[k]), p.ltv(d[k], a[k])), tc.And(p.ltv(c[k], b[k]), p.ltv(d[k], b[k])))
		r = tc.And(r, tc.And(tc.Not(sep1), tc.Not(sep2)))
		if r == tc.fls {
			return r
		}
	}
	same := func(u, v Value) *Term {
		return tc.Or(
			tc.And(p.ltv(u, 0.0), p.ltv(v, 0.0)),
			tc.And(p.ltv(0.0, u), p.ltv(0.0, v)))
	}
	r = tc.And(r, tc.Not(same(p.cross(a, b, c), p.cross(a, b, d))))
	if r == tc.fls {
		return r
	}
	return tc.And(r, tc.Not(same(p.cross(c, d, a), p.cross(c, d, b))))
}

func (p *path) sq(v Value) Value { return p.mulv(v, v) }

func (p *path) dist2(a, b xy) Value {
	return p.addv(p.sq(p.subv(a[0], b[0])), p.sq(p.subv(a[1], b[1])))
}

func concXY(q xy) (float64, float64, bool) {
	x, ok1 := q[0].(float64)
	y, ok2 := q[1].(float64)
	return x, y, ok1 && ok2
}

// ptSegSq: squared distance of q to segment ab, exactly.
func (p *path) ptSegSq(a, b, q xy) Value {
	tc := p.tc
	if !symXY(a, b, q) {
		ax, ay, _ := concXY(a)
		bx, by, _ := concXY(b)
		qx, qy, _ := concXY(q)
		dx, dy := bx-ax, by-ay
		if dx == 0 && dy == 0 {
			return (qx-ax)*(qx-ax) + (qy-ay)*(qy-ay)
		}
		t := (qx-ax)*dx + (qy-ay)*dy
		l := dx*dx + dy*dy
		if t <= 0 {
			return (qx-ax)*(qx-ax) + (qy-ay)*(qy-ay)
		}
		if t >= l {
			return (qx-bx)*(qx-bx) + (qy-by)*(qy-by)
		}
		c := dx*(qy-ay) - dy*(qx-ax)
		// keep exact rationals when everything is integral
		if n, d := p.F(c*c), p.F(l); n.den.c == 1 && d.den.c == 1 {
			if math.Mod(c*c, l) == 0 {
				return c * c / l
			}
			return &SymF{num: n.num, den: d.num, lvl: 2, nn: true}
		}
		return c * c / l
	}
	dx, dy := p.subv(b[0], a[0]), p.subv(b[1], a[1])
	d0 := p.dist2(q, a)
	l := p.addv(p.sq(dx), p.sq(dy))
	if f, ok := l.(float64); ok && f == 0 {
		return d0
	}
	t := p.addv(p.mulv(p.subv(q[0], a[0]), dx), p.mulv(p.subv(q[1], a[1]), dy))
	d1 := p.dist2(q, b)
	c := p.F(p.cross(a, b, q))
	lf := p.F(l)
	num := tc.Mul(tc.Mul(c.num, c.num), lf.den)
	den := p.posT(tc.Mul(tc.Mul(c.den, c.den), lf.num))
	if den.isConst() && num.isConst() && num.c%den.c == 0 {
		num, den = tc.Int(num.c/den.c), tc.Int(1)
	}
	inner := &SymF{num: num, den: den, lvl: 2, nn: true}
	before := p.lev(t, 0.0)
	after := p.lev(l, t)
	mk := func(q *Term, x, y Value) Value {
		if q.isConst() {
			if q.c == 1 {
				return x
			}
			return y
		}
		r, ok := p.fite(q, x, y)
		if !ok {
			unsup("distance merge")
		}
		return r
	}
	r := mk(before, d0, mk(after, d1, p.simpF(inner)))
	if s, ok := r.(*SymF); ok && s.lvl < 2 {
		r = &SymF{num: s.num, den: s.den, lvl: 2, nn: true}
	}
	return r
}

func (p *path) fmin(a, b Value) Value {
	l := p.ltv(a, b)
	if l.isConst() {
		if l.c == 1 {
			return a
		}
		return b
	}
	r, ok := p.fite(l, a, b)
	if !ok {
		unsup("min merge")
	}
	return r
}

func (p *path) zeroIf(q *Term, v Value) Value {
	if q.isConst() {
		if q.c == 1 {
			return 0.0
		}
		return v
	}
	r, ok := p.fite(q, 0.0, v)
	if !ok {
		unsup("zero merge")
	}
	return r
}

func (p *path) segSegSq(a, b, c, d xy) Value { return p.segSeg(a, b, c, d, false) }

func (p *path) segSeg(a, b, c, d xy, root bool) Value {
	r := p.ptSegSq(a, b, c)
	r = p.fmin(r, p.ptSegSq(a, b, d))
	r = p.fmin(r, p.ptSegSq(c, d, a))
	r = p.fmin(r, p.ptSegSq(c, d, b))
	if root {
		r = p.sqrtV(r)
	}
	return p.zeroIf(p.segIntersects(a, b, c, d), r)
}

func (p *path) sqrtV(v Value) Value {
	if f, ok := v.(float64); ok {
		return math.Sqrt(f)
	}
	s := p.fsqrt(v.(*SymF)).(*SymF)
	s.lvl = 2
	return s
}

func (p *path) pts(args []Value) ([]xy, bool) {
	var r []xy
	s := false
	for _, a := range args {
		q, ok := p.ptXY(a)
		if !ok {
			return nil, false
		}
		s = s || symXY(q)
		r = append(r, q)
	}
	return r, s
}

func orient2D(t *thread, f *fnInfo, args []Value) (Value, bool) {
	p := t.p
	q, ok := p.pts(args)
	if !ok {
		return nil, false
	}
	a, b, c := q[0], q[1], q[2]
	l := p.mulv(p.subv(a[1], c[1]), p.subv(b[0], c[0]))
	r := p.mulv(p.subv(a[0], c[0]), p.subv(b[1], c[1]))
	return p.subv(l, r), true
}

func ptDist(root bool) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		q, ok := t.p.pts(args)
		if !ok {
			return nil, false
		}
		r := t.p.ptSegSq(q[0], q[1], q[2])
		if root {
			r = t.p.sqrtV(r)
		}
		return r, true
	}
}

func segDist(root bool) intrinsic {
	return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
		q, ok := t.p.pts(args)
		if !ok {
			return nil, false
		}
		return t.p.segSeg(q[0], q[1], q[2], q[3], root), true
	}
}

func segInter(t *thread, f *fnInfo, args []Value) (Value, bool) {
	q, ok := t.p.pts(args)
	if !ok {
		return nil, false
	}
	return t.p.bv(t.p.segIntersects(q[0], q[1], q[2], q[3])), true
}

// ----------------------------------------------------------------- shapes

type shape struct {
	kind  string // point, line, poly
	rings [][]xy
	sym   bool
}

func (p *path) lineXY(v Value) ([]xy, bool) {
	c, ok := v.(*Cell)
	if !ok || c == nil {
		return nil, false
	}
	a, ok := c.v.(Agg)
	if !ok || len(a) < 1 {
		return nil, false
	}
	co, ok := a[0].v.(Agg)
	if !ok || len(co) != 2 {
		return nil, false
	}
	pn, ok1 := co[0].v.(Slice)
	ix, ok2 := co[1].v.(Slice)
	if !ok1 || !ok2 {
		return nil, false
	}
	var r []xy
	for i := range ix.a {
		k, ok := ix.a[i].v.(int64)
		if !ok || k < 0 || int(k) >= len(pn.a) {
			return nil, false
		}
		q, ok := p.ptXY(&pn.a[k])
		if !ok {
			return nil, false
		}
		r = append(r, q)
	}
	return r, len(r) > 1
}

func typeName(t types.Type) string {
	return types.TypeString(t, nil)
}

func (t *thread) shapeOf(ty types.Type, v Value, depth int) (*shape, bool) {
	p := t.p
	if ty == nil {
		return nil, false
	}
	s := &shape{}
	switch typeName(ty) {
	case "*" + igeom + "LineString":
		c, ok := p.lineXY(v)
		if !ok {
			return nil, false
		}
		s.kind, s.rings = "line", [][]xy{c}
	case "*" + igeom + "Polygon":
		c, ok := v.(*Cell)
		if !ok || c == nil {
			return nil, false
		}
		a := c.v.(Agg)
		s.kind = "poly"
		rings := []Value{a[0].v}
		for i := range a[1].v.(Slice).a {
			rings = append(rings, a[1].v.(Slice).a[i].v)
		}
		for _, r := range rings {
			rc, ok := r.(*Cell)
			if !ok || rc == nil {
				return nil, false
			}
			l, ok := p.lineXY(rc.v.(Agg)[0].v)
			if !ok {
				return nil, false
			}
			s.rings = append(s.rings, l)
		}
	case igeom + "Point", "*" + igeom + "Point":
		q, ok := p.ptXY(v)
		if !ok {
			return nil, false
		}
		s.kind, s.rings = "point", [][]xy{{q, q}}
	case "*" + igeom + "Segment":
		return nil, false
	default:
		if depth > 3 {
			return nil, false
		}
		fn := p.w.ex.prog.methodByName(ty, "Geometry")
		if fn == nil {
			return nil, false
		}
		g, ok := t.call(getFn(fn), []Value{v}, nil).(Iface)
		if !ok || g.t == nil || g.t == ty {
			return nil, false
		}
		return t.shapeOf(g.t, g.v, depth+1)
	}
	for _, r := range s.rings {
		s.sym = s.sym || symXY(r...)
	}
	return s, true
}

func (p *path) chainsIntersect(a, b []xy) *Term {
	r := p.tc.fls
	for i := 0; i+1 < len(a); i++ {
		for j := 0; j+1 < len(b); j++ {
			r = p.tc.Or(r, p.segIntersects(a[i], a[i+1], b[j], b[j+1]))
			if r == p.tc.tru {
				return r
			}
		}
	}
	return r
}

// inRing: parity of crossings of the ray in +x direction.
func (p *path) inRing(ring []xy, q xy) *Term {
	tc := p.tc
	in := tc.fls
	for i := 1; i < len(ring); i++ {
		a, b := ring[i], ring[i-1]
		au, bu := p.ltv(q[1], a[1]), p.ltv(q[1], b[1])
		straddle := tc.Not(tc.Eq(au, bu))
		if straddle == tc.fls {
			continue
		}
		// sign of x1*y2 - y1*x2 over y2-y1
		x1, y1 := p.subv(a[0], q[0]), p.subv(a[1], q[1])
		x2, y2 := p.subv(b[0], q[0]), p.subv(b[1], q[1])
		det := p.subv(p.mulv(x1, y2), p.mulv(y1, x2))
		up := p.ltv(y1, y2)
		hit := tc.Ite(up, p.ltv(0.0, det), p.ltv(det, 0.0))
		h := tc.And(straddle, hit)
		in = tc.Not(tc.Eq(in, h))
	}
	return in
}

func (p *path) lineInPoly(l []xy, poly *shape) *Term {
	tc := p.tc
	r := p.chainsIntersect(l, poly.rings[0])
	if r == tc.tru {
		return r
	}
	inside := p.inRing(poly.rings[0], l[0])
	hitHole, inHole := tc.fls, tc.fls
	for _, h := range poly.rings[1:] {
		hitHole = tc.Or(hitHole, p.chainsIntersect(l, h))
		inHole = tc.Or(inHole, p.inRing(h, l[0]))
	}
	return tc.Or(r, tc.And(inside, tc.Or(hitHole, tc.Not(inHole))))
}

func (p *path) shapesIntersect(a, b *shape) *Term {
	tc := p.tc
	if a.kind != "poly" && b.kind == "poly" {
		a, b = b, a
	}
	if a.kind != "poly" {
		return p.chainsIntersect(a.rings[0], b.rings[0])
	}
	if b.kind != "poly" {
		return p.lineInPoly(b.rings[0], a)
	}
	if len(a.rings) > 1 || len(b.rings) > 1 {
		unsup("polygon/polygon with holes")
	}
	r := p.chainsIntersect(a.rings[0], b.rings[0])
	if r == tc.tru {
		return r
	}
	r = tc.Or(r, p.inRing(a.rings[0], b.rings[0][0]))
	return tc.Or(r, p.inRing(b.rings[0], a.rings[0][0]))
}

func (p *path) shapesDistance(a, b *shape) Value {
	inter := p.shapesIntersect(a, b)
	if inter == p.tc.tru {
		return 0.0
	}
	var r Value
	for _, ra := range a.rings {
		for _, rb := range b.rings {
			for i := 0; i+1 < len(ra); i++ {
				for j := 0; j+1 < len(rb); j++ {
					d := p.segSegSq(ra[i], ra[i+1], rb[j], rb[j+1])
					if r == nil {
						r = d
					} else {
						r = p.fmin(r, d)
					}
				}
			}
		}
	}
	return p.zeroIf(inter, p.sqrtV(r))
}

func geomIntrinsics() {
	two := func(fn func(p *path, a, b *shape) Value) intrinsic {
		return func(t *thread, f *fnInfo, args []Value) (Value, bool) {
			rt := f.fn.Signature.Recv().Type()
			o, ok := args[1].(Iface)
			if !ok || o.t == nil {
				return nil, false
			}
			a, ok := t.shapeOf(rt, args[0], 0)
			if !ok {
				return nil, false
			}
			b, ok := t.shapeOf(o.t, o.v, 0)
			if !ok || !(a.sym || b.sym) {
				return nil, false
			}
			return fn(t.p, a, b), true
		}
	}
	inter := two(func(p *path, a, b *shape) Value { return p.bv(p.shapesIntersect(a, b)) })
	dist := two(func(p *path, a, b *shape) Value { return p.shapesDistance(a, b) })
	for _, r := range []string{"(*" + igeom + "Polygon)", "(*" + igeom + "LineString)", "(" + igeom + "Point)", "(*" + igeom + "Point)"} {
		intrinsics[r+".Intersects"] = inter
		intrinsics[r+".Distance"] = dist
	}
}
