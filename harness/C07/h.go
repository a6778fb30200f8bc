package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/ctx"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/relate"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

func contexts(gs ...geometry.IGeometry) *ctx.ContextGeometries {
	cs := ctx.NewContexts()
	for _, g := range gs {
		cs.Push(ctx.New(g, 0, -1).AsContextNeighbour())
	}
	return cs
}

// tiny is the leeway for rounding: a distance is not told apart from the
// minimum when their squares differ by less.
const tiny = 1.0 / 64

// newly: is the segment clearly closer than d, the stretch clearly not?
func newly(c lib.Con, part []lib.Pt, d float64) bool {
	return sym.And(c.Within(lib.Chord(part), d*d-tiny), sym.Not(c.Within(part, d*d+tiny)))
}

// lost: the replacement the predicate refuses must be one that comes closer.
func harmless(c lib.Con, part []lib.Pt, d float64) bool {
	return sym.Or(sym.Not(c.Within(lib.Chord(part), d*d+tiny)), c.Within(part, d*d-tiny))
}

// HPredicate: one stretch, one constraint anywhere.
func HPredicate() {
	ps := lib.Curves[sym.Choose("curve", len(lib.Curves))]
	k := sym.Choose("con", sym.Param(3, len(lib.Cons)))
	c := lib.Cons[k].At(sym.Grid("x", -9, 18), float64(2*sym.Choose("y", sym.Param(2, 8))-3))
	d := float64(3 - 2*sym.Choose("d", sym.Param(1, 2)))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDistRelateValid(&opts.Opts{MinDist: d}, &h, contexts(c.Geom()))
	sym.Assert(sym.Not(sym.And(got, newly(c, ps, d))), "a replacement that comes newly closer than the minimum is refused")
	sym.Assert(sym.Or(got, sym.Not(harmless(c, ps, d))), "a replacement that does not come newly closer is allowed")
	sym.Reach("end")
}

// HLine: the whole simplification of one line, with a constraint anywhere.
func HLine() {
	all := [][]lib.Pt{lib.Wave, lib.Spiral, lib.Fold, lib.Bay, lib.Back, lib.Whole, lib.Ring, lib.Loop}
	ps := all[sym.Choose("line", sym.Param(2, len(all)))]
	d := float64(3 - 2*sym.Choose("d", sym.Param(1, 2)))
	o := &opts.Opts{Threshold: float64(3 + 5*sym.Choose("t", sym.Param(1, 2))), MinDist: d, DistRelation: true, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", sym.Param(2, 3)) {
	case 1:
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true, true
	case 2:
		o.GeomRelation, o.DirRelation = true, true
	}
	k := sym.Choose("con", sym.Param(2, 3))
	x, y := sym.Grid("x", -4, 25), float64(-6+5*sym.Choose("y", sym.Param(2, 4)))
	c := lib.Cons[k].At(x, y)
	id := iter.NewIgen()
	dp := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	dp.Simplify(id)
	sym.Observe("kept", lib.Kept(dp)...)
	for i := range dp.Hulls {
		r := dp.Hulls[i].Range
		if r.Size() > 1 {
			sym.Assert(sym.Not(newly(c, ps[r.I:r.J+1], d)), "no segment kept comes newly closer than the minimum distance")
		}
	}
	sym.Reach("end")
}

// HTie: distances that equal the minimum exactly. The stretches run along the
// axes and the constraint stands on whole numbers, so that the distances are
// exact in floating point, too.
func HTie() {
	ps := [][]lib.Pt{
		{{0, 0}, {0, 6}, {9, 6}, {9, 0}},
		{{0, 0}, {0, 4}, {-3, 4}, {-3, -5}, {7, -5}, {7, 0}},
		{{0, 8}, {6, 8}, {6, 1}, {2, 1}, {2, 5}, {0, 5}},
	}[sym.Choose("curve", sym.Param(2, 3))]
	k := sym.Choose("con", 2)
	x, y := float64(sym.ConcInt(sym.Int("x", -6, 12))), float64(sym.ConcInt(sym.Int("y", -8, 11)))
	c := lib.Dot.At(x, y)
	if k == 1 {
		c = lib.Con{Ps: []lib.Pt{{x, y}, {x, y + 2}}}
	}
	d := float64(1 + sym.Choose("d", sym.Param(3, 5)))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDistRelateValid(&opts.Opts{MinDist: d}, &h, contexts(c.Geom()))
	near := sym.And(c.Within(lib.Chord(ps), d*d), sym.Not(touches(c, lib.Chord(ps), d)))
	was := sym.And(c.Within(ps, d*d), sym.Not(touches(c, ps, d)))
	sym.ObserveBool("valid", got)
	sym.Assert(sym.Iff(got, sym.Or(sym.Not(near), was)), "exactly a replacement that comes newly closer than the minimum is refused")
	sym.Reach("end")
}

// touches: is the distance exactly d?
func touches(c lib.Con, ps []lib.Pt, d float64) bool {
	return sym.And(c.Within(ps, d*d), sym.Not(c.Within(ps, d*d-tiny)))
}

// HCrowd: a constraint anywhere among a dozen others.
func HCrowd() {
	const d = 1.5
	o := &opts.Opts{Threshold: float64(9 - 5*sym.Choose("t", sym.Param(1, 2))), MinDist: d, DistRelation: true, NonPlanarDisplacement: 1}
	y := float64(1 - 2*sym.Choose("y", sym.Param(1, 4)))
	cs := lib.Among(lib.Cons[sym.Choose("con", sym.Param(1, 3))].At(sym.Grid("x", sym.Param(4, 0), sym.Param(12, 24)), y))
	id := iter.NewIgen()
	dp := constdp.NewConstDP(id.Next(), lib.Line("0", lib.Wave), lib.Geoms(cs), o, lib.Score, lib.SqScore)
	dp.Simplify(id)
	sym.Observe("kept", lib.Kept(dp)...)
	for i := range dp.Hulls {
		r := dp.Hulls[i].Range
		for _, c := range cs {
			if r.Size() > 1 {
				sym.Assert(sym.Not(newly(c, lib.Wave[r.I:r.J+1], d)), "no segment kept comes newly closer to any constraint than the minimum distance")
			}
		}
	}
	sym.Reach("end")
}

// HTent: short lines with room for the constraint between stretch and segment,
// under any combination of the other switches.
func HTent() {
	ps := lib.Tents[sym.Choose("line", sym.Param(2, 3))]
	min := []float64{1.5, 0.75, 5}[sym.Choose("mindist", sym.Param(2, 3))]
	o := &opts.Opts{Threshold: 30, MinDist: min}
	lib.Switch(o, 2)
	y := float64(-2 + 3*sym.Choose("y", sym.Param(4, 6)))
	c := lib.Cons[sym.Choose("con", sym.Param(2, 3))].At(sym.Grid("x", -2, 18), y)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{c.Geom()}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	sym.Observe("kept", lib.Kept(d)...)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		if r.Size() > 1 {
			sym.Assert(sym.Not(newly(c, ps[r.I:r.J+1], min)), "no segment kept comes newly closer than the minimum distance")
		}
	}
	sym.Reach("end")
}

// HNarrow: a segment shorter than the minimum distance.
func HNarrow() {
	ps := []lib.Pt{{0, 0}, {0, 9}, {4, 9}, {4, 0}}
	d := float64(5 + sym.Choose("d", 2))
	c := lib.Dot.At(float64(sym.Choose("x", 5)), sym.GridDen("y", -25, -17, 4))
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDistRelateValid(&opts.Opts{MinDist: d}, &h, contexts(c.Geom()))
	sym.ObserveBool("valid", got)
	sym.Assert(sym.Not(sym.And(got, newly(c, ps, d))), "a replacement that comes newly closer than the minimum is refused")
	sym.Assert(sym.Or(got, sym.Not(harmless(c, ps, d))), "a replacement that does not come newly closer is allowed")
	sym.Reach("end")
}

// HAmid: a point anywhere among several that do no harm.
func HAmid() {
	ps := lib.Tents[2*sym.Choose("line", sym.Param(1, 2))]
	c := lib.Dot.At(sym.Grid("x", -1, 20), float64(1+4*sym.Choose("y", sym.Param(3, 4))))
	var gs []geometry.IGeometry
	n := []int{6, 12}[sym.Choose("n", 2)]
	at := n / 6 * sym.Choose("at", 7)
	for i := 0; i <= n; i++ {
		if i == at {
			gs = append(gs, c.Geom())
		}
		x := float64(i % 2)
		if i%4 > 1 {
			x = float64(16 - i%2)
		}
		gs = append(gs, lib.Dot.At(x, float64(15-i/2)).Geom())
	}
	h := lib.Stretch(ps, 0, len(ps)-1)
	got := relate.IsDistRelateValid(&opts.Opts{MinDist: 3}, &h, contexts(gs...))
	sym.ObserveBool("valid", got)
	sym.Assert(sym.Not(sym.And(got, newly(c, ps, 3))), "the point counts wherever it is among others")
	sym.Assert(sym.Or(got, sym.Not(harmless(c, ps, 3))), "and does no harm where it is far away")
	sym.Reach("end")
}
