package main

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

// zbase are lines that cross, touch and repeat one another.
var zbase = [][]lib.Pt{
	lib.Wave,
	lib.Cross,
	lib.Touch,
	lib.Spiral,
	lib.Wave,
	lib.Loop,
	{{0, 0}, {5, 5}, {8, -3}, {12, 4}, {16, 6}, {24, 0}},
	lib.Bay,
}

func zopts() *opts.Opts {
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 20), MinDist: 2, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", 5) {
	case 0:
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true, true
		o.GeomRelation, o.DistRelation, o.DirRelation = true, true, true
	case 1:
		o.AvoidNewSelfIntersects = true
	case 2:
		o.PlanarSelf, o.DirRelation = true, true
	case 3:
		o.GeomRelation, o.NonPlanarSelf = true, true
	}
	return o
}

func zcons() []geometry.IGeometry {
	tri := lib.Tri.At(14, 3)
	return []geometry.IGeometry{
		geometry.CreatePoint("a", []float64{9, 5}, ""),
		lib.Line("b", []lib.Pt{{3, 2}, {4, 6}, {11, 7}}),
		tri.Geom(),
	}
}

// zsame asserts that the vertices are those the line was made of.
func zsame(p *geometry.Polyline, ps []lib.Pt) {
	sym.Assert(p.Coordinates.Len() == len(ps) && len(p.Coordinates.Pnts) == len(ps), "the line has its vertices")
	for i := range ps {
		q := p.Coordinates.Pnts[i]
		sym.Assert(p.Coordinates.Idxs[i] == i && q[0] == ps[i].X && q[1] == ps[i].Y && q[2] == float64(i), "the vertices of the line are not touched")
	}
}

type zrun struct {
	kept  [][]int
	lines []*geometry.Polyline
}

// zindependent simplifies lines, given by their numbers, independently.
func zindependent(o *opts.Opts, cons []geometry.IGeometry, which ...int) zrun {
	var r zrun
	for k, w := range which {
		r.lines = append(r.lines, lib.Line("idx:"+sym.Str(k)+"-pos:0", zbase[w]))
	}
	simplifyInstances(r.lines, o, cons, offsetDictionary["dp"])
	for k, w := range which {
		zsame(r.lines[k], zbase[w])
		r.kept = append(r.kept, append([]int{}, r.lines[k].Simple.Idxs...))
		sym.Observe("kept", r.kept[k]...)
	}
	return r
}

func zequal(a, b []int, why string) {
	sym.Assert(len(a) == len(b), why)
	for i := range a {
		sym.Assert(a[i] == b[i], why)
	}
}

func zintact(cons []geometry.IGeometry) {
	for i, c := range zcons() {
		sym.Assert(cons[i].Geometry().WKT() == c.Geometry().WKT(), "the constraints are not touched")
	}
}

// HCompany: a line on its own, with others, and in other orders.
func HCompany() {
	sym.SameTies()
	sets := [][]int{{0, 1, 2}, {3, 5, 1}, {0, 4, 6, 2}, {7, 6, 0, 1, 2, 3, 4, 5}}
	s := sets[sym.Choose("set", 4)]
	o := zopts()
	cons := zcons()
	with := zindependent(o, cons, s...)
	back := make([]int, len(s))
	for i := range s {
		back[(i+1)%len(s)] = s[len(s)-1-i]
	}
	turned := zindependent(o, cons, back...)
	for i := range s {
		alone := zindependent(o, cons, s[i])
		zequal(with.kept[i], alone.kept[0], "a line is simplified as it would be alone")
		zequal(turned.kept[(len(s)-i)%len(s)], alone.kept[0], "the order of the lines does not matter")
	}
	zintact(cons)
	sym.Reach("end")
}

// HAgain: the same lines again, and with the internal maps in other orders.
func HAgain() {
	sym.SameTies()
	sets := [][]int{{0, 1}, {3, 2}, {5, 6}}
	s := sets[sym.Choose("set", 3)]
	o := zopts()
	cons := zcons()
	once := zindependent(o, cons, s...)
	sym.MapOrders(sym.Param(2, 3))
	again := zindependent(o, cons, s...)
	for i := range s {
		zequal(once.kept[i], again.kept[i], "the same lines give the same result")
	}
	zintact(cons)
	sym.Reach("end")
}

// HClass: a feature class again, with the internal maps in other orders.
func HClass() {
	sym.SameTies()
	sets := [][]int{{0, 1}, {3, 2}, {5, 6, 1}}
	s := sets[sym.Choose("set", 3)]
	o := zopts()
	cons := zcons()
	run := func() [][]int {
		var lines []*geometry.Polyline
		for k, w := range s {
			lines = append(lines, lib.Line("idx:"+sym.Str(k)+"-pos:0", zbase[w]))
		}
		simplifyFeatureClass(lines, o, cons, offsetDictionary["dp"])
		var r [][]int
		for k, w := range s {
			zsame(lines[k], zbase[w])
			r = append(r, append([]int{}, lines[k].Simple.Idxs...))
			sym.Observe("kept", r[k]...)
		}
		return r
	}
	once := run()
	sym.MapOrders(sym.Param(1, 2))
	again := run()
	for i := range s {
		zequal(once[i], again[i], "the same lines give the same result")
	}
	zintact(cons)
	sym.Reach("end")
}

// HReuse: simplifying an instance a second time gives the same.
func HReuse() {
	sym.SameTies()
	k := sym.Choose("line", len(zbase))
	o := zopts()
	cons := zcons()
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", zbase[k]), cons, o, lib.Score, lib.SqScore)
	d.Simplify(id)
	a := lib.Kept(d)
	d.Simplify(id)
	zequal(a, lib.Kept(d), "simplifying again gives the same result")
	zintact(cons)
	sym.Reach("end")
}
