package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

type part struct {
	d  *constdp.ConstDP
	ps []lib.Pt
}

func parts(d *constdp.ConstDP, ps []lib.Pt) []part {
	var r []part
	for i := range d.Hulls {
		g := d.Hulls[i].Range
		r = append(r, part{d, ps[g.I : g.J+1]})
	}
	sym.Observe("kept", lib.Kept(d)...)
	return r
}

// consistent asserts that segments cross only where their stretches meet.
func consistent(ps []part, across bool) {
	for i := range ps {
		for j := 0; j < i; j++ {
			a, b := ps[i], ps[j]
			if len(a.ps) == 2 && len(b.ps) == 2 {
				continue
			}
			if across == (a.d == b.d) {
				continue
			}
			ca, cb := lib.Chord(a.ps), lib.Chord(b.ps)
			sym.Assert(sym.Implies(lib.Proper(ca[0], ca[1], cb[0], cb[1]), lib.Meet(a.ps, b.ps)), "segments kept cross only where the stretches they replace meet")
		}
	}
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 20), AvoidNewSelfIntersects: true, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", sym.Param(2, 3)) {
	case 1:
		o.GeomRelation, o.DirRelation = true, true
	case 2:
		o.PlanarSelf, o.NonPlanarSelf = true, true
	}
	return o
}

func row(name string, lo, hi, step int) float64 {
	return float64(lo + step*sym.ConcInt(sym.Int(name, 0, (hi-lo)/step)))
}

// HLine: one line with one vertex moved along a row, any threshold.
func HLine() {
	all := [][]lib.Pt{lib.Spiral, lib.Bay, lib.Loop, lib.Wave, lib.Ring}
	ps := append([]lib.Pt{}, all[sym.Choose("line", sym.Param(3, len(all)))]...)
	k := 1 + sym.Choose("at", sym.Param(3, 6))
	ps[k].X = row("x", -4, 16, sym.Param(4, 1))
	o := options()
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), []geometry.IGeometry{geometry.CreatePoint("c", []float64{7, 3}, "")}, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	consistent(parts(d, ps), false)
	sym.Reach("end")
}

// HPair: two lines of a class, one moved along the other.
func HPair() {
	all := [][]lib.Pt{lib.Wave, lib.Spiral, lib.Bay, lib.Loop}
	a := all[sym.Choose("a", sym.Param(3, 4))]
	b := lib.Shift(lib.Arch, row("x", -8, 20, sym.Param(4, 1)), row("y", -6, 10, sym.Param(8, 4)))
	o := options()
	id := iter.NewIgen()
	cs := []geometry.IGeometry{geometry.CreatePoint("c", []float64{7, 3}, "")}
	da := constdp.NewConstDP(id.Next(), lib.Line("0", a), cs, o, lib.Score, lib.SqScore)
	db := constdp.NewConstDP(id.Next(), lib.Line("1", b), cs, o, lib.Score, lib.SqScore)
	constdp.SimplifyFeatureClass(id, []*constdp.ConstDP{da, db}, o)
	consistent(append(parts(da, a), parts(db, b)...), true)
	sym.Reach("end")
}

func class(o *opts.Opts, lines ...[]lib.Pt) {
	id := iter.NewIgen()
	var ds []*constdp.ConstDP
	for _, ps := range lines {
		ds = append(ds, constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, o, lib.Score, lib.SqScore))
	}
	constdp.SimplifyFeatureClass(id, ds, o)
	var all []part
	for i, d := range ds {
		all = append(all, parts(d, lines[i])...)
	}
	consistent(all, true)
	sym.Reach("end")
}

func reorder(k int, lines [][]lib.Pt) [][]lib.Pt {
	var r [][]lib.Pt
	for len(lines) > 0 {
		i := k % len(lines)
		k /= len(lines)
		r = append(r, lines[i])
		lines = append(append([][]lib.Pt{}, lines[:i]...), lines[i+1:]...)
	}
	return r
}

// HLate: a line passes over the bump of another, which is flattened at first
// and restored later because of a third.
func HLate() {
	bump := []lib.Pt{{0, 0}, {5, 10}, {10, 0}}
	if sym.ConcBool(sym.Bool("long")) {
		bump = []lib.Pt{{0, 0}, {2, 5}, {5, 10}, {8, 5}, {10, 0}}
	}
	y := row("y", 1, 9, 1)
	over := []lib.Pt{{-5, y}, {-4, 16}, {5, 18}, {14, 16}, {15, y}}
	post := []lib.Pt{{row("x", 1, 9, 2), -3}, {5, 1}}
	o := &opts.Opts{Threshold: sym.Grid("t", 5, 25), AvoidNewSelfIntersects: true, NonPlanarDisplacement: 1}
	class(o, reorder(sym.Choose("order", sym.Param(2, 6)), [][]lib.Pt{over, bump, post})...)
}

// HTwins: two lines with as many vertices lie in the way of a third once that
// is restored, because of a fourth.
func HTwins() {
	y := row("y", 3, 7, sym.Param(2, 1))
	d := row("d", -1, 1, sym.Param(2, 1))
	outer := []lib.Pt{{-4, y}, {-4, -3}, {25, -3}, {25, 15}, {-4, 15}}
	inner := []lib.Pt{{-2 + d, y}, {-2 + d, -2}, {24, -2}, {24, 14}, {-2 + d, 14}}
	long := []lib.Pt{{-20, 0}, {-18, 10}, {18, 9}, {20, 0}}
	post := []lib.Pt{{-10, -3}, {-10, 3}}
	o := &opts.Opts{Threshold: sym.Grid("t", 5, 40), AvoidNewSelfIntersects: true, NonPlanarDisplacement: 1}
	class(o, reorder(sym.Choose("order", sym.Param(4, 24)), [][]lib.Pt{outer, inner, long, post})...)
}

// HOwn: a stretch is refined because of another line, and one of its pieces
// then lies across a stretch of the line itself.
func HOwn() {
	a := []lib.Pt{{0, 0}, {0, 12}, {10, 14}, {20, 12}, {20, 0}, {22, -6}, {10, -8}, {3, -6}, {1, -4}, {-3, -4}, {-3, 0}, {3, 4}, {row("ax", -1, 4, 1), 6}}
	x := row("x", 8, 20, sym.Param(4, 1))
	b := []lib.Pt{{x, -1}, {x + 1, 5}}
	o := &opts.Opts{Threshold: 1, AvoidNewSelfIntersects: true, NonPlanarDisplacement: float64(4 * sym.Choose("d", sym.Param(2, 3)))}
	f := lib.Fixed([][2]int{{0, 4}, {4, 8}, {8, 11}}, 4, 8, 11, 2)
	id := iter.NewIgen()
	da := constdp.NewConstDP(id.Next(), lib.Line("0", a), nil, o, f, f)
	db := constdp.NewConstDP(id.Next(), lib.Line("1", b), nil, o, f, f)
	ds := []*constdp.ConstDP{da, db}
	if sym.ConcBool(sym.Bool("swap")) {
		ds[0], ds[1] = db, da
	}
	constdp.SimplifyFeatureClass(id, ds, o)
	pa := parts(da, a)
	consistent(pa, false)
	consistent(append(pa, parts(db, b)...), true)
	sym.Reach("end")
}

// HMerged: two pieces of a stretch that was refined for a constraint are put
// together again, across another stretch of the line.
func HMerged() {
	ps := []lib.Pt{{0, 0}, {8, 12}, {16, 0}, {24, 8}, {32, 0}, {36, 20}, {6, 20}, {6, 16}, {-8, 16}, {-8, -8}, {6, -8}, {6, row("y", -2, 3, 1)}}
	o := &opts.Opts{Threshold: 1, AvoidNewSelfIntersects: true, NonPlanarDisplacement: 1, GeomRelation: true}
	f := lib.Fixed([][2]int{{0, 4}, {7, 11}}, 4, 7, 2, 3)
	id := iter.NewIgen()
	c := []geometry.IGeometry{geometry.CreatePoint("c", []float64{row("cx", 20, 28, sym.Param(4, 1)), 0}, "")}
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), c, o, f, f)
	d.Simplify(id)
	consistent(parts(d, ps), false)
	sym.Reach("end")
}

// HAlike: two lines of as many vertices, wound about each other, so that
// their stretches have the same numbers of vertices.
func HAlike() {
	a := []lib.Pt{{0, 0}, {4, 6}, {6, 6}, {10, 0}}
	b := []lib.Pt{{5, -4}, {-3, -1}, {row("x", -4, 4, 1), 8}, {5, row("y", 1, 9, 2)}}
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 20), AvoidNewSelfIntersects: true, NonPlanarDisplacement: 1}
	lines := [][]lib.Pt{a, b}
	if sym.ConcBool(sym.Bool("third")) {
		lines = append(lines, lib.Shift(a, 40, 3))
	}
	class(o, reorder(sym.Choose("order", sym.Param(2, 6)), lines)...)
}
