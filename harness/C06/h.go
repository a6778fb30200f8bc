package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

func contexts(gs ...geometry.IGeometry) *ctx.ContextGeometries {
	cs := ctx.NewContexts()
	for _, g := range gs {
		cs.Push(ctx.New(g, 0, -1).AsContextNeighbour())
	}
	return cs
}

// HPredicate: one stretch, one constraint anywhere.
func HPredicate() {
	ps := lib.Curves[sym.Choose("curve", len(lib.Curves))]
	k := sym.Choose("con", len(lib.Cons))
	c := lib.Cons[k].At(sym.Grid("x", -7, 16), sym.Grid("y", -7, 12))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsGeomRelateValid(&h, contexts(c.Geom()))
	sym.ObserveBool("valid", got)
	sym.Assert(sym.Iff(got, sym.Iff(c.Meets(ps), c.Meets(lib.Chord(ps)))), "replacing is valid exactly if stretch and segment agree on meeting the constraint")
	sym.Reach("end")
}

// HTwo: two constraints; both have to agree.
func HTwo() {
	ps := lib.Curves[sym.Choose("curve", sym.Param(4, len(lib.Curves)))]
	a := lib.Dot.At(sym.Grid("x", -4, 13), 2)
	b := lib.Bar.At(5, sym.Grid("y", -6, 10))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsGeomRelateValid(&h, contexts(a.Geom(), b.Geom()))
	sym.ObserveBool("valid", got)
	ch := lib.Chord(ps)
	sym.Assert(sym.Iff(got, sym.And(sym.Iff(a.Meets(ps), a.Meets(ch)), sym.Iff(b.Meets(ps), b.Meets(ch)))), "each constraint counts")
	sym.Reach("end")
}

// agrees asserts the relation for everything kept of a line.
func agrees(d *constdp.ConstDP, ps []lib.Pt, cs []lib.Con) {
	sym.Observe("kept", lib.Kept(d)...)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		if r.Size() == 1 {
			continue
		}
		part := ps[r.I : r.J+1]
		for _, c := range cs {
			sym.Assert(sym.Iff(c.Meets(part), c.Meets(lib.Chord(part))), "a segment kept meets the constraint exactly if the stretch it replaces does")
		}
	}
}

func options(thr float64) *opts.Opts {
	o := &opts.Opts{Threshold: thr, GeomRelation: true, MinDist: 0, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", sym.Param(2, 4)) {
	case 1:
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true, true
	case 2:
		o.MinDist, o.DistRelation, o.DirRelation = 2, true, true
	case 3:
		o.AvoidNewSelfIntersects = true
	}
	return o
}

// HLine: the whole simplification of one line, with a constraint anywhere.
func HLine() {
	all := [][]lib.Pt{lib.Spiral, lib.Wave, lib.Fold, lib.Bay, lib.Back, lib.Whole, lib.Ring, lib.Loop, lib.Touch}
	ps := all[sym.Choose("line", sym.Param(5, len(all)))]
	o := options(float64(sym.Param(3, 2) + 5*sym.Choose("t", sym.Param(2, 3))))
	k := sym.Choose("con", sym.Param(2, 3))
	y := float64(-2 + 3*sym.Choose("y", sym.Param(2, 5)))
	c := lib.Cons[k].At(sym.Grid("x", -4, 25), y)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	agrees(d, ps, []lib.Con{c})
	sym.Reach("end")
}

// HCrowd: a constraint anywhere among a dozen others.
func HCrowd() {
	o := options(float64(9 - 5*sym.Choose("t", sym.Param(1, 2))))
	y := float64(2 - 2*sym.Choose("y", sym.Param(2, 5)))
	cs := lib.Among(lib.Cons[sym.Choose("con", sym.Param(1, 3))].At(sym.Grid("x", sym.Param(3, 0), sym.Param(14, 24)), y))
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", lib.Wave), lib.Geoms(cs), o, lib.Score, lib.SqScore)
	d.Simplify(id)
	agrees(d, lib.Wave, cs)
	sym.Reach("end")
}

// HTent: short lines with room for the constraint between stretch and segment,
// under any combination of the other switches.
func HTent() {
	ps := lib.Tents[sym.Choose("line", sym.Param(2, 3))]
	o := &opts.Opts{Threshold: 30, MinDist: []float64{1.5, 50, 0.25}[sym.Choose("mindist", sym.Param(2, 3))]}
	lib.Switch(o, 1)
	y := float64(-2 + 3*sym.Choose("y", sym.Param(4, 6)))
	c := lib.Cons[sym.Choose("con", sym.Param(2, 3))].At(sym.Grid("x", -2, 18), y)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	agrees(d, ps, []lib.Con{c})
	sym.Reach("end")
}

// HSame: two constraints of the same bounds, which only one of the two fills.
func HSame() {
	ps := lib.Tents[0]
	x, y := sym.Grid("x", -1, 16), float64(1+3*sym.Choose("y", sym.Param(2, 4)))
	cs := []lib.Con{
		{Ps: []lib.Pt{{x - 1, y - 1}, {x - 1, y + 2}, {x + 2, y + 2}}},
		{Ps: []lib.Pt{{x - 1, y - 1}, {x + 2, y - 1}, {x + 2, y + 2}}},
		{Ps: []lib.Pt{{x + 2, y - 1}, {x - 1, y + 2}}},
	}
	k := sym.Choose("first", 3)
	cs = []lib.Con{cs[k], cs[(k+1+sym.Choose("second", 2))%3]}
	o := &opts.Opts{Threshold: 30, GeomRelation: true}
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), lib.Geoms(cs), o, lib.Score, lib.SqScore)
	d.Simplify(id)
	agrees(d, ps, cs)
	sym.Reach("end")
}

// HAmid: a point anywhere among several that do no harm.
func HAmid() {
	ps := lib.Tents[2*sym.Choose("line", sym.Param(1, 2))]
	c := lib.Dot.At(sym.Grid("x", -1, 20), float64(1+4*sym.Choose("y", sym.Param(3, 4))))
	var gs []geometry.IGeometry
	n := []int{6, 12}[sym.Choose("n", 2)]
	at := n / 6 * sym.Choose("at", 7)
	for i := 0; i <= n; i++ {
		if i == at {
			gs = append(gs, c.Geom())
		}
		x := float64(i % 2)
		if i%4 > 1 {
			x = float64(16 - i%2)
		}
		gs = append(gs, lib.Dot.At(x, float64(15-i/2)).Geom())
	}
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsGeomRelateValid(&h, contexts(gs...))
	sym.ObserveBool("valid", got)
	sym.Assert(sym.Iff(got, sym.Iff(c.Meets(ps), c.Meets(lib.Chord(ps)))), "the point counts wherever it is among others")
	sym.Reach("end")
}
