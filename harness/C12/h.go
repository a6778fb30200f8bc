package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func same(a, b lib.Pt) bool { return sym.And(sym.FEq(a.X, b.X), sym.FEq(a.Y, b.Y)) }

// inside: does p lie within the segment, off its ends?
func inside(p, a, b lib.Pt) bool {
	return sym.And(sym.SegInter(p.X, p.Y, p.X, p.Y, a.X, a.Y, b.X, b.Y), sym.Not(same(p, a)), sym.Not(same(p, b)))
}

// crossed: do the segments share a point that is not an end of both?
func crossed(ps []lib.Pt, i, j int) bool {
	a, b, c, d := ps[i], ps[i+1], ps[j], ps[j+1]
	return sym.Or(lib.Proper(a, b, c, d), inside(a, c, d), inside(b, c, d), inside(c, a, b), inside(d, a, b))
}

func distinct(ps []lib.Pt) {
	for k := 1; k < len(ps); k++ {
		sym.Assume(sym.Not(same(ps[k], ps[k-1])))
	}
}

// detect: the crossings found are exactly those there, each with the ends of
// its two segments.
func detect(ps []lib.Pt, planar bool) {
	n := len(ps)
	found := map[[2]int]bool{}
	for _, c := range lnr.SelfIntersection(lib.Line("0", ps), planar, true).DataView() {
		if c.IsPlanarVertex() {
			sym.Assert(planar, "no planar vertices unless asked for")
			continue
		}
		sym.Assert(c.IsNonPlanarVertex(), "every result is of one kind")
		g := c.Meta.NonPlanar
		sym.Assert(len(g) == 3 || len(g) == 4, "a crossing has the ends of two segments")
		i, j := g[0], g[len(g)-2]
		ok := g[1] == i+1 && g[len(g)-1] == j+1 && i < j && (j > i+1) == (len(g) == 4)
		sym.Assert(ok, "the ends are those of two segments, in order")
		found[[2]int{i, j}] = true
	}
	for i := 0; i < n-1; i++ {
		for j := i + 1; j < n-1; j++ {
			f := found[[2]int{i, j}]
			sym.ObserveBool("found", f)
			sym.Assert(sym.Iff(f, crossed(ps, i, j)), "exactly the crossing pairs are found")
		}
	}
	sym.Reach("end")
}

// HDetect: lines of four vertices, anywhere on a small grid.
func HDetect() {
	ps := lib.FreeIn("p", 4, 2, sym.Param(1, 2), []int{4, 1}[sym.Choose("den", 2)])
	distinct(ps)
	detect(ps, false)
}

// HDetectLong: one vertex anywhere on a line of seven.
func HDetectLong() {
	ps := append([]lib.Pt(nil), [][]lib.Pt{
		{{0, 0}, {6, 0}, {6, 4}, {2, 4}, {2, -2}, {4, -2}, {4, 2}},
		{{0, 0}, {4, 4}, {8, 0}, {4, 0}, {0, 4}, {8, 4}, {4, -2}},
	}[sym.Choose("line", 2)]...)
	i := []int{3, 6, 1, 0, 2, 4, 5}[sym.Choose("i", sym.Param(2, 7))]
	ps[i] = lib.Pt{sym.Grid("x", 0, 8), float64(sym.Choose("y", sym.Param(2, 5)))}
	distinct(ps)
	detect(ps, sym.Choose("planar", 2) == 1)
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: 1, NonPlanarSelf: true, MinDist: 1, NonPlanarDisplacement: 1}
	switch sym.Choose("opts", 3) {
	case 1:
		o.PlanarSelf = true
	case 2:
		o.PlanarSelf, o.AvoidNewSelfIntersects = true, true
	}
	return o
}

func check(d *constdp.ConstDP, ps []lib.Pt) {
	kept := make([]bool, len(ps))
	for _, k := range lib.Kept(d) {
		kept[k] = true
	}
	for i := range ps {
		sym.ObserveBool("kept", kept[i])
	}
	for i := 0; i < len(ps)-1; i++ {
		for j := i + 1; j < len(ps)-1; j++ {
			if kept[i] && kept[i+1] && kept[j] && kept[j+1] {
				continue
			}
			sym.Assert(sym.Not(crossed(ps, i, j)), "the ends of segments that cross are kept")
		}
	}
}

// HFree: one vertex anywhere on a grid; a score that would drop everything.
func HFree() {
	ps := append([]lib.Pt(nil), [][]lib.Pt{
		{{0, 0}, {6, 0}, {6, 4}, {2, 4}, {2, -2}, {4, -2}, {4, 2}},
		{{0, 0}, {4, 4}, {8, 0}, {4, 0}, {0, 4}, {8, 4}, {4, -2}},
	}[sym.Choose("line", sym.Param(1, 2))]...)
	i := []int{3, 6, 1, 0, 2, 4, 5}[sym.Choose("i", sym.Param(2, 7))]
	ps[i] = lib.Pt{float64(1 + 2*sym.Choose("x", sym.Param(1, 4))), sym.Grid("y", -1, 4)}
	distinct(ps)
	id := iter.NewIgen()
	all := func(c geom.Coords) (int, float64) { return c.Len() / 2, 0 }
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, options(), all)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HScores: crossing lines with any scoring.
func HScores() {
	ps := [][]lib.Pt{
		{{0, 0}, {8, 6}, {8, 0}, {1, 7}, {-2, 3}},
		{{0, 0}, {9, 0}, {5, 6}, {5, -4}, {2, -1}, {7, 3}},
		{{0, 0}, {4, 1}, {10, 6}, {8, 13}, {5, 9}, {7, 2}, {14, -1}},
		{{0, 0}, {10, 0}, {10, 5}, {4, 5}, {4, 0}, {2, -3}},
	}[sym.Choose("line", sym.Param(2, 4))]
	or := lib.NewOracle("o", len(ps), 2)
	id := iter.NewIgen()
	d := constdp.NewConstDP(id.Next(), lib.Line("0", ps), nil, options(), or.Fn)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HLong: longer crossing lines, one free coordinate, any threshold.
func HLong() {
	ps := append([]lib.Pt(nil), lib.Wave...)
	k := sym.Choose("k", sym.Param(2, 4))
	j := 6 + 2*k
	ps[j] = lib.Pt{float64(3 + 3*k), float64(-5 + 2*sym.Choose("y", sym.Param(3, 6)))}
	o := options()
	o.Threshold = sym.Grid("t", 0, 20)
	id := iter.NewIgen()
	d := lib.DP(id, lib.Line("0", ps), nil, o)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}

// HStrokes: long slanting strokes side by side, each within reach of all the
// others, and a last segment that crosses a few of them near their lower ends.
func HStrokes() {
	m := sym.Param(6, 9)
	var ps []lib.Pt
	for i := 0; i < m; i++ {
		x := float64(2 * i)
		ps = append(ps, lib.Pt{x, 0}, lib.Pt{x + 12, 8})
	}
	x := float64(sym.ConcInt(sym.Int("x", 0, 2*m-2)))
	ps = append(ps, lib.Pt{24, -1}, lib.Pt{x - 1, 2}, lib.Pt{x + 1, 1})
	if sym.Choose("whole", 2) == 0 {
		detect(ps, false)
		return
	}
	o := options()
	o.Threshold = sym.Grid("t", 0, 20)
	id := iter.NewIgen()
	d := lib.DP(id, lib.Line("0", ps), nil, o)
	d.Simplify(id)
	check(d, ps)
	sym.Reach("end")
}
