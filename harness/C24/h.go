package h

import (
	"math"

	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

// part is a stretch kept: where it starts and ends in its line, and the line.
type part struct {
	d    *constdp.ConstDP
	i, j int
	ps   []lib.Pt
}

func parts(d *constdp.ConstDP, ps []lib.Pt) []part {
	var r []part
	for i := range d.Hulls {
		g := d.Hulls[i].Range
		r = append(r, part{d, g.I, g.J, ps[g.I : g.J+1]})
	}
	sym.Observe("kept", lib.Kept(d)...)
	return r
}

func cross(a, b, c lib.Pt) float64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }

func between(a, b, c lib.Pt) bool {
	return math.Min(a.X, b.X) <= c.X && c.X <= math.Max(a.X, b.X) && math.Min(a.Y, b.Y) <= c.Y && c.Y <= math.Max(a.Y, b.Y)
}

// meeting lists the points two lines share: crossings, touchings, and the ends
// of pieces they have in common. All coordinates are small whole numbers, so
// the signs are exact.
func meeting(a, b []lib.Pt) []lib.Pt {
	var r []lib.Pt
	for i := 1; i < len(a); i++ {
		for j := 1; j < len(b); j++ {
			p, q, s, t := a[i-1], a[i], b[j-1], b[j]
			o1, o2, o3, o4 := cross(p, q, s), cross(p, q, t), cross(s, t, p), cross(s, t, q)
			if o1*o2 < 0 && o3*o4 < 0 {
				u := o1 / (o1 - o2)
				r = append(r, lib.Pt{X: s.X + u*(t.X-s.X), Y: s.Y + u*(t.Y-s.Y)})
				continue
			}
			if o1 == 0 && between(p, q, s) {
				r = append(r, s)
			}
			if o2 == 0 && between(p, q, t) {
				r = append(r, t)
			}
			if o3 == 0 && between(s, t, p) {
				r = append(r, p)
			}
			if o4 == 0 && between(s, t, q) {
				r = append(r, q)
			}
		}
	}
	return r
}

const eps = 1e-6

// settled asserts that stretches that meet are replaced by segments that meet,
// and not farther away than allowed.
func settled(ps []part, far float64, across bool) {
	for i := range ps {
		for j := 0; j < i; j++ {
			a, b := ps[i], ps[j]
			if len(a.ps) == 2 && len(b.ps) == 2 {
				continue
			}
			if a.d == b.d && (across || a.i == b.j || a.j == b.i) {
				continue
			}
			was := meeting(a.ps, b.ps)
			if len(was) == 0 {
				continue
			}
			is := meeting(lib.Chord(a.ps), lib.Chord(b.ps))
			sym.Assert(len(is) > 0, "stretches that meet are replaced by segments that meet")
			for _, p := range was {
				for _, q := range is {
					sym.Assert(math.Hypot(p.X-q.X, p.Y-q.Y) <= far+eps, "a crossing kept is not displaced farther than allowed")
				}
			}
		}
	}
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 20), AvoidNewSelfIntersects: true}
	o.NonPlanarDisplacement = []float64{1, 4, 0, 9}[sym.Choose("far", sym.Param(2, 4))]
	switch sym.Choose("opts", sym.Param(1, 3)) {
	case 1:
		o.PlanarSelf = true
	case 2:
		o.NonPlanarSelf = true
	}
	return o
}

// Knot crosses itself several times, at long and at short distance.
var knot = []lib.Pt{{X: 0, Y: 0}, {X: 5, Y: 8}, {X: 12, Y: 11}, {X: 19, Y: 7}, {X: 21, Y: 0}, {X: 17, Y: -5}, {X: 9, Y: -4}, {X: 3, Y: 3},
	{X: 2, Y: 10}, {X: 8, Y: 15}, {X: 14, Y: 13}, {X: 15, Y: 6}, {X: 11, Y: 1}, {X: 11, Y: -9}}

func row(name string, lo, hi, step int) float64 {
	return float64(lo + step*sym.ConcInt(sym.Int(name, 0, (hi-lo)/step)))
}

// HLine: one line that crosses itself, one vertex moved along a row.
func HLine() {
	all := [][]lib.Pt{knot, lib.Loop, lib.Spiral, lib.Touch}
	ps := append([]lib.Pt{}, all[sym.Choose("line", sym.Param(2, len(all)))]...)
	k := 2 + sym.Choose("at", sym.Param(3, 5))
	ps[k].X = row("x", -4, 20, sym.Param(6, 2))
	o := options()
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	settled(parts(d, ps), o.NonPlanarDisplacement, false)
	sym.Reach("end")
}

// HPair: two lines of a class that cross, one moved.
func HPair() {
	all := [][]lib.Pt{lib.Wave, lib.Spiral, knot}
	a := all[sym.Choose("a", sym.Param(2, 3))]
	b := lib.Shift([][]lib.Pt{lib.Cross, lib.Arch, lib.Hook}[sym.Choose("b", sym.Param(2, 3))], row("x", -8, 16, sym.Param(6, 2)), row("y", -6, 6, sym.Param(6, 3)))
	o := options()
	id := iter.NewIgen()
	da := constdp.NewConstDP(id.Next(), lib.Line("0", a), nil, o, lib.Score, lib.SqScore)
	db := constdp.NewConstDP(id.Next(), lib.Line("1", b), nil, o, lib.Score, lib.SqScore)
	ds, ls := []*constdp.ConstDP{da, db}, [][]lib.Pt{a, b}
	if sym.Choose("swap", sym.Param(1, 2)) == 1 {
		ds[0], ds[1] = ds[1], ds[0]
		ls[0], ls[1] = ls[1], ls[0]
	}
	constdp.SimplifyFeatureClass(id, ds, o)
	settled(append(parts(ds[0], ls[0]), parts(ds[1], ls[1])...), o.NonPlanarDisplacement, true)
	sym.Reach("end")
}

// HLevel: two lines that meet near one end only of the piece their segments
// have in common.
func HLevel() {
	m := 1.0
	if sym.ConcBool(sym.Bool("mirror")) {
		m = -1
	}
	a := []lib.Pt{{X: 0, Y: 0}, {X: 2 * m, Y: 1}, {X: 6 * m, Y: 5}, {X: 12 * m, Y: 0}}
	b := []lib.Pt{{X: m, Y: 0}, {X: m, Y: row("y", 1, 5, sym.Param(2, 1))}, {X: 5 * m, Y: 8}, {X: m * row("x", 0, 15, sym.Param(3, 1)), Y: row("v", -1, 1, 1)}}
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 20), AvoidNewSelfIntersects: true, NonPlanarDisplacement: []float64{1, 4, 9}[sym.Choose("far", sym.Param(2, 3))]}
	id := iter.NewIgen()
	ds, ls := []*constdp.ConstDP{}, [][]lib.Pt{a, b}
	if sym.ConcBool(sym.Bool("swap")) {
		ls[0], ls[1] = b, a
	}
	var all []part
	for i, ps := range ls {
		ds = append(ds, constdp.NewConstDP(id.Next(), lib.Line(sym.Str(i), ps), nil, o, lib.Score, lib.SqScore))
	}
	constdp.SimplifyFeatureClass(id, ds, o)
	for i, d := range ds {
		all = append(all, parts(d, ls[i])...)
	}
	settled(all, o.NonPlanarDisplacement, true)
	sym.Reach("end")
}
