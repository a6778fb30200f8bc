package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func same(a, b lib.Pt) bool { return sym.And(sym.FEq(a.X, b.X), sym.FEq(a.Y, b.Y)) }

// repeated tells whether vertex i coincides with another vertex.
func repeated(ps []lib.Pt, i int) bool {
	r := false
	for j := range ps {
		if j != i {
			r = sym.Or(r, same(ps[i], ps[j]))
		}
	}
	return r
}

// HDetect: the vertices found are exactly the repeated ones, grouped by
// position.
func HDetect() {
	n := sym.Param(5, 6)
	den := 4
	if sym.Choose("den", 2) == 1 {
		den = 1
	}
	ps := lib.FreeIn("p", n, 2, 1, den)
	found := make([]bool, n)
	for _, c := range lnr.SelfIntersection(lib.Line("0", ps), true, false).DataView() {
		g := c.Meta.Planar
		sym.Assert(c.IsPlanarVertex() && len(g) >= 2, "a group has two or more vertices")
		for k, v := range g {
			sym.Assert(0 <= v && v < n && !found[v], "a vertex is in one group")
			found[v] = true
			sym.Assert(k == 0 || g[k-1] < v, "a group is in order")
			sym.Assert(same(ps[g[0]], ps[v]), "a group is at one position")
		}
		for v := 0; v < n; v++ {
			sym.Assert(sym.Or(found[v], sym.Not(same(ps[g[0]], ps[v]))), "a group has every vertex at its position")
		}
	}
	for v := 0; v < n; v++ {
		sym.Assert(sym.Iff(found[v], repeated(ps, v)), "exactly the repeated vertices are found")
	}
	sym.Observe("found", sym.B2I(found[0]), sym.B2I(found[n-1]))
	sym.Reach("end")
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: 1, PlanarSelf: true, MinDist: 1, NonPlanarDisplacement: 1}
	if sym.Choose("opts", 2) == 1 {
		o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true
	}
	return o
}

func check(d *constdp.ConstDP, ps []lib.Pt) {
	kept := make([]bool, len(ps))
	for _, k := range lib.Kept(d) {
		kept[k] = true
	}
	for i := range ps {
		sym.Assert(sym.Implies(repeated(ps, i), kept[i]), "a vertex the line passes more than once is kept")
		sym.ObserveBool("kept", kept[i])
	}
}

// HFree: one vertex anywhere on a grid; a score that would drop everything.
func HFree() {
	ps := append([]lib.Pt(nil), [][]lib.Pt{
		{{0, 0}, {4, 2}, {2, 4}, {0, 2}, {2, 0}, {4, 4}, {6, 2}},
		{{0, 4}, {2, 2}, {4, 0}, {6, 2}, {4, 4}, {2, 0}, {0, 0}},
	}[sym.Choose("line", sym.Param(1, 2))]...)
	i := []int{3, 6, 1, 0, 2, 4, 5}[sym.Choose("i", sym.Param(3, 7))]
	ps[i] = lib.Pt{float64(2 + 2*sym.Choose("x", sym.Param(1, 3))), sym.Grid("y", 0, 4)}
	for k := 1; k < len(ps); k++ {
		sym.Assume(sym.Not(same(ps[k], ps[k-1])))
	}
	id := iter.NewIgen()
	all := func(c geom.Coords) (int, float64) { return c.Len() / 2, 0 }
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, options(), all)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HScores: lines through a vertex twice or three times, any scoring.
func HScores() {
	ps := [][]lib.Pt{
		{{0, 0}, {5, 5}, {9, 2}, {5, 5}, {0, 9}},
		{{0, 0}, {8, -2}, {12, 4}, {8, 9}, {0, 0}},
		{{5, 5}, {9, 8}, {12, 4}, {5, 5}, {2, 9}, {1, 4}},
		{{0, 0}, {9, 9}, {3, 7}, {5, 1}, {9, 9}, {12, 3}},
		{{0, 0}, {6, 1}, {4, 5}, {1, 3}, {6, 1}, {4, 5}, {7, 9}},
		{{1, 1}, {3, 6}, {7, 2}, {3, 6}, {8, 8}, {3, 6}, {1, 9}},
		{{0, 0}, {8, -2}, {12, 4}, {8, 9}, {3, 8}, {0, 0}},
	}[sym.Choose("line", sym.Param(3, 7))]
	n := len(ps)
	or := lib.NewOracle("o", n, 2)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, options(), or.Fn)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HLong: a line with a repeated vertex moved along it, any threshold.
func HLong() {
	ps := append([]lib.Pt(nil), lib.Wave...)
	i := 1 + sym.Choose("i", sym.Param(4, 8))
	j := i + 2 + 2*sym.Choose("gap", sym.Param(2, 5))
	sym.Assume(j < len(ps))
	ps[j] = ps[i]
	o := options()
	o.Threshold = sym.Grid("t", 0, 20)
	id := iter.NewIgen()
	var d *constdp.ConstDP
	if sym.Choose("squared", sym.Param(1, 2)) == 0 {
		d = lib.DP(id, lib.Line("0", ps), nil, o)
	} else {
		d = constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, o, offset.MaxOffset)
	}
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HThrice: a line that passes three and four times through two vertices, any
// threshold.
func HThrice() {
	p, q := lib.Pt{10, 4}, lib.Pt{20, 9}
	ps := []lib.Pt{{0, 0}, {4, 3}, p, {14, 12}, {6, 15}, {3, 9}, p, {13, -5}, {20, -4}, q, {24, 3}, {17, 1}, p, {9, 9}, {12, 10}, q, {22, 14}, {27, 9}, q, {15, 20}, {8, 17}, p, {30, 2}}
	if sym.Choose("turn", 2) == 1 {
		for i := range ps {
			ps[i] = lib.Pt{ps[i].Y, -ps[i].X}
		}
	}
	if k := sym.Choose("cut", sym.Param(4, 9)); k > 0 {
		ps = append(append([]lib.Pt{}, ps[2*k:]...), ps[0])
	}
	o := options()
	o.Threshold = sym.Grid("t", 0, 30)
	id := iter.NewIgen()
	d := lib.DP(id, lib.Line("0", ps), nil, o)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}
