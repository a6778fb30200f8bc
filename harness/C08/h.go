package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

func contexts(gs ...geometry.IGeometry) *ctx.ContextGeometries {
	cs := ctx.NewContexts()
	for _, g := range gs {
		cs.Push(ctx.New(g, 0, -1).AsContextNeighbour())
	}
	return cs
}

// rep is a point of the constraint: one that is wound around, if the
// constraint touches neither stretch nor segment, stands for all of it.
func rep(c lib.Con) lib.Pt {
	if len(c.Rings) > 0 {
		return c.Rings[0][0]
	}
	return c.Ps[0]
}

// swept: does a constraint forbid that the segment replaces the stretch?
func swept(c lib.Con, ps []lib.Pt) (exclusive, wound, both bool) {
	m, s := c.Meets(ps), c.Meets(lib.Chord(ps))
	return sym.Not(sym.Iff(m, s)), sym.And(sym.Not(m), sym.Not(s), sym.Not(lib.Winds(ps, rep(c)) == 0)), sym.And(m, s)
}

// HPoint: one stretch, one point anywhere: the relation is exact.
func HPoint() {
	ps := lib.Curves[sym.Choose("curve", len(lib.Curves))]
	c := lib.Dot.At(sym.Grid("x", -7, 16), sym.Grid("y", -7, 12))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDirRelateValid(&h, contexts(c.Geom()))
	sym.ObserveBool("valid", got)
	x, w, _ := swept(c, ps)
	sym.Assert(sym.Iff(got, sym.Not(sym.Or(x, w))), "a point prevents replacing exactly if it is touched by one only or wound around")
	sym.Reach("end")
}

// HShape: lines and polygons.
func HShape() {
	ps := lib.Curves[sym.Choose("curve", len(lib.Curves))]
	k := 1 + sym.Choose("con", sym.Param(3, 4))
	c := lib.Cons[k].At(sym.Grid("x", -7, 16), float64(-7+2*sym.Choose("y", sym.Param(9, 10))))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDirRelateValid(&h, contexts(c.Geom()))
	sym.ObserveBool("valid", got)
	x, w, b := swept(c, ps)
	sym.Assert(sym.Implies(got, sym.Not(x)), "a constraint touched by stretch or segment only prevents replacing")
	sym.Assert(sym.Implies(got, sym.Not(w)), "a constraint wound around prevents replacing")
	sym.Assert(sym.Implies(b, got), "a constraint touched by both does not prevent replacing")
	sym.Reach("end")
}

// HTwo: two constraints; each counts.
func HTwo() {
	cv := [][]lib.Pt{lib.Double, lib.Whirl, lib.Hook, lib.Tents[0], lib.Ess, lib.Arch, lib.Fold, lib.Back, lib.Whole, lib.Twist, lib.Flat}
	ps := cv[sym.Choose("curve", sym.Param(4, len(cv)))]
	a := lib.Dot.At(sym.Grid("x", -4, 13), float64(1+2*sym.Choose("row", sym.Param(1, 4))))
	b := lib.Cons[sym.Choose("con", 2)].At(5, sym.Grid("y", -6, 10))
	var cs *ctx.ContextGeometries
	if sym.Choose("order", 2) == 0 {
		cs = contexts(a.Geom(), b.Geom())
	} else {
		cs = contexts(b.Geom(), a.Geom())
	}
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDirRelateValid(&h, cs)
	sym.ObserveBool("valid", got)
	for _, c := range []lib.Con{a, b} {
		x, w, _ := swept(c, ps)
		sym.Assert(sym.Implies(got, sym.Not(sym.Or(x, w))), "each constraint counts")
	}
	sym.Reach("end")
}

// tangle goes around a left place, around a right one, and back around both:
// it winds around neither, yet is caught by the two together.
var tangle = []lib.Pt{{5, -9}, {5, 0},
	{4, 4}, {-4, 4}, {-4, -4}, {4, -4}, {5, 0},
	{6, -4}, {14, -4}, {14, 4}, {6, 4}, {5, 0},
	{4, -4}, {-4, -4}, {-4, 4}, {4, 4}, {5, 0},
	{6, 4}, {14, 4}, {14, -4}, {6, -4}, {5, 0}, {6, -9}}

func HTangle() {
	p := lib.Dot.At(sym.Grid("x", -3, 3), float64(-3+2*sym.Choose("y", sym.Param(2, 4))))
	q := lib.Dot.At(float64(7+3*sym.Choose("u", sym.Param(2, 3))), sym.Grid("v", -3, 3))
	n := len(tangle)
	h := lib.Stretch(tangle, 0, n-1)
	switch sym.Choose("who", 3) {
	case 0:
		got := relate.IsDirRelateValid(&h, contexts(p.Geom(), q.Geom()))
		sym.ObserveBool("both", got)
		sym.Assert(!got, "the two together prevent replacing")
	case 1:
		got := relate.IsDirRelateValid(&h, contexts(p.Geom()))
		sym.ObserveBool("left", got)
		sym.Assert(got, "the left one alone does not")
	case 2:
		got := relate.IsDirRelateValid(&h, contexts(q.Geom()))
		sym.ObserveBool("right", got)
		sym.Assert(got, "the right one alone does not")
	}
	sym.Reach("end")
}

func options(thr float64) *opts.Opts {
	o := &opts.Opts{Threshold: thr, DirRelation: true, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", sym.Param(2, 4)) {
	case 1:
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true, true
	case 2:
		o.MinDist, o.DistRelation, o.GeomRelation = 2, true, true
	case 3:
		o.AvoidNewSelfIntersects = true
	}
	return o
}

// HLine: the whole simplification of one line, with a constraint anywhere.
func HLine() {
	all := [][]lib.Pt{lib.Spiral, lib.Whirl, lib.Wave, lib.Bay, lib.Double, lib.Whole, lib.Ring, lib.Loop, lib.Touch, lib.Fold}
	ps := all[sym.Choose("line", sym.Param(4, len(all)))]
	o := options(float64(sym.Param(4, 3) + 6*sym.Choose("t", sym.Param(2, 3))))
	k := sym.Choose("con", sym.Param(1, 3))
	y := float64(-2 + 3*sym.Choose("y", sym.Param(2, 5)))
	c := lib.Cons[k].At(sym.Grid("x", -4, 25), y)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	sym.Observe("kept", lib.Kept(d)...)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		if r.Size() == 1 {
			continue
		}
		x, w, _ := swept(c, ps[r.I:r.J+1])
		sym.Assert(sym.Not(x), "no segment kept and the stretch it replaces differ in touching a constraint")
		sym.Assert(sym.Not(w), "no stretch replaced winds around a constraint")
	}
	sym.Reach("end")
}

// HCrowd: a constraint anywhere among a dozen others.
func HCrowd() {
	o := options(float64(9 - 5*sym.Choose("t", sym.Param(1, 2))))
	y := float64(2 - 2*sym.Choose("y", sym.Param(2, 5)))
	cs := lib.Among(lib.Cons[sym.Choose("con", sym.Param(1, 3))].At(sym.Grid("x", sym.Param(4, 0), sym.Param(12, 24)), y))
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", lib.Wave), lib.Geoms(cs), o, lib.Score, lib.SqScore)
	d.Simplify(id)
	sym.Observe("kept", lib.Kept(d)...)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		if r.Size() == 1 {
			continue
		}
		for _, c := range cs {
			x, w, _ := swept(c, lib.Wave[r.I:r.J+1])
			sym.Assert(sym.Not(sym.Or(x, w)), "no stretch replaced is swept across any constraint")
		}
	}
	sym.Reach("end")
}

// HTent: short lines with room for the constraint between stretch and segment,
// under any combination of the other switches.
func HTent() {
	ps := lib.Tents[sym.Choose("line", sym.Param(2, 3))]
	o := &opts.Opts{Threshold: 30, MinDist: 1.5}
	lib.Switch(o, 4)
	y := float64(-2 + 3*sym.Choose("y", sym.Param(4, 6)))
	c := lib.Cons[sym.Choose("con", sym.Param(2, 3))].At(sym.Grid("x", -2, 18), y)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	clear(d, ps, c)
	sym.Reach("end")
}

// clear asserts that no stretch was swept across a constraint.
func clear(d *constdp.ConstDP, ps []lib.Pt, c lib.Con) {
	sym.Observe("kept", lib.Kept(d)...)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		if r.Size() == 1 {
			continue
		}
		x, w, _ := swept(c, ps[r.I:r.J+1])
		sym.Assert(sym.Not(x), "no segment kept and the stretch it replaces differ in touching a constraint")
		sym.Assert(sym.Not(w), "no stretch replaced winds around a constraint")
	}
}

// HAmid: a point anywhere among several that lie in the way of the search, but
// not of the stretch.
func HAmid() {
	ps := lib.Tents[2*sym.Choose("line", sym.Param(1, 2))]
	c := lib.Dot.At(sym.Grid("x", -1, 20), float64(1+4*sym.Choose("y", sym.Param(3, 4))))
	var gs []geometry.IGeometry
	n := []int{6, 12}[sym.Choose("n", 2)]
	at := n / 6 * sym.Choose("at", sym.Param(4, 7))
	for i := 0; i < n; i++ {
		if i == at {
			gs = append(gs, c.Geom())
		}
		x := float64(i % 2)
		if i%4 > 1 {
			x = float64(16 - i%2)
		}
		gs = append(gs, lib.Dot.At(x, float64(13-i/2)).Geom())
	}
	if at >= n {
		gs = append(gs, c.Geom())
	}
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDirRelateValid(&h, contexts(gs...))
	sym.ObserveBool("valid", got)
	x, w, _ := swept(c, ps)
	sym.Assert(sym.Iff(got, sym.Not(sym.Or(x, w))), "the point prevents replacing wherever it is among others")
	sym.Reach("end")
}

// HFinger: a long finger that zigzags between points, so that it can be drawn
// back only from its tip, bend by bend; a point anywhere in the middle.
func HFinger() {
	n := sym.Param(15, 19)
	bend := func(i int) lib.Pt { return lib.Pt{X: float64(4 * i), Y: float64(8 * (i % 2))} }
	var ps []lib.Pt
	var gs []geometry.IGeometry
	for i := 0; i < n; i++ {
		b := bend(i)
		ps = append(ps, lib.Pt{X: b.X, Y: b.Y - 1})
		if i > 0 {
			gs = append(gs, lib.Dot.At(b.X, 4).Geom())
		}
	}
	for i := n - 1; i >= 0; i-- {
		b := bend(i)
		ps = append(ps, lib.Pt{X: b.X, Y: b.Y + 1})
	}
	m := 4 * (1 + sym.Choose("m", sym.Param(2, n-2)))
	c := lib.Dot.At(sym.Grid("x", m-3, m+3), sym.Grid("y", -1, 10))
	gs = append(gs, c.Geom())
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDirRelateValid(&h, contexts(gs...))
	sym.ObserveBool("valid", got)
	x, w, _ := swept(c, ps)
	sym.Assert(sym.Iff(got, sym.Not(sym.Or(x, w))), "a finger between points can be drawn back unless there is a point in it")
	sym.Reach("end")
}
