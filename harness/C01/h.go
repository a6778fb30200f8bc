package main

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

// kept asserts that an instance kept the end vertices and an increasing
// selection of vertex numbers, and that its stretches tile the line.
func kept(d *constdp.ConstDP, n int) {
	k := lib.Kept(d)
	sym.Observe("kept", k...)
	sym.Assert(len(k) >= 2 && k[0] == 0 && k[len(k)-1] == n-1, "keeps the first and last vertex")
	for i := 1; i < len(k); i++ {
		sym.Assert(k[i-1] < k[i], "keeps vertices in their order, each once")
	}
	// the stretches, in whatever order they are held, tile the line
	at := make([]int, n)
	for i := range d.Hulls {
		r := d.Hulls[i].Range
		sym.Assert(0 <= r.I && r.I < r.J && r.J < n, "stretch within the line")
		at[r.I]++
		for v := r.I; v < r.J; v++ {
			if v > r.I {
				at[v] += 10
			}
		}
	}
	for v := 0; v < n-1; v++ {
		sym.Assert(at[v] == 1 || at[v] == 10, "every segment of the line is covered by exactly one stretch")
	}
}

// HArbitraryScores: one line, no relations, any scoring.
func HArbitraryScores() {
	id := iter.NewIgen()
	n := sym.Param(6, 7)
	or := lib.NewOracle("o", n, 2)
	o := &opts.Opts{Threshold: 1}
	d := constdp.NewConstDP(id.Next(), lib.Line("0", lib.Zig(n)), nil, o, or.Fn)
	d.Simplify(id)
	kept(d, n)
	sym.Reach("end")
}

// simple asserts that the line written out consists of input vertices, in
// order, from the first to the last.
func simple(p *geometry.Polyline, ps []lib.Pt) {
	got := p.Simple.Points()
	at := 0
	sym.Assert(len(got) >= 2, "at least two vertices are written")
	for i := range got {
		z := int(got[i][2])
		if i == 0 {
			sym.Assert(z == 0, "the first vertex is written first")
		} else {
			sym.Assert(z > at, "vertices are written in input order")
		}
		at = z
		sym.Assert(z < len(ps) && got[i][0] == ps[z].X && got[i][1] == ps[z].Y, "every vertex written is an input vertex, unmoved")
	}
	sym.Assert(at == len(ps)-1, "the last vertex is written last")
	sym.Observe("written", len(got))
}

func anyOpts() *opts.Opts {
	o := &opts.Opts{Threshold: sym.Grid("t", 0, 16), MinDist: 2, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", 5) {
	case 1:
		o.PlanarSelf, o.NonPlanarSelf = true, true
	case 2:
		o.AvoidNewSelfIntersects = true
	case 3:
		o.GeomRelation, o.DistRelation, o.DirRelation = true, true, true
	case 4:
		o.PlanarSelf, o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true, true
		o.GeomRelation, o.DistRelation, o.DirRelation = true, true, true
	}
	return o
}

func constraints() []geometry.IGeometry {
	return []geometry.IGeometry{
		geometry.CreatePoint("a", []float64{9, 5}, ""),
		lib.Line("b", []lib.Pt{{3, 2}, {4, 6}}),
	}
}

// HInstances: the pipeline for independent lines, with any threshold.
func HInstances() {
	k := sym.Choose("line", len(lib.Lines))
	pl := lib.Line("idx:0-pos:0", lib.Lines[k])
	simplifyInstances([]*geometry.Polyline{pl}, anyOpts(), constraints(), offsetDictionary["dp"])
	simple(pl, lib.Lines[k])
	sym.Reach("end")
}

// HFeatureClass: the pipeline for a feature class.
func HFeatureClass() {
	k := sym.Choose("line", 3)
	a, b := lib.Lines[k], lib.Lines[k+3]
	pa, pb := lib.Line("idx:0-pos:0", a), lib.Line("idx:1-pos:0", b)
	simplifyFeatureClass([]*geometry.Polyline{pa, pb}, anyOpts(), constraints(), offsetDictionary["dp"])
	simple(pa, a)
	simple(pb, b)
	sym.Reach("end")
}
