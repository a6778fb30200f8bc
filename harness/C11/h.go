package h

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/lnr"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func same(a, b lib.Pt) bool { return sym.And(sym.FEq(a.X, b.X), sym.FEq(a.Y, b.Y)) }

// shared tells whether vertex i of line l lies where another vertex does.
func shared(lines [][]lib.Pt, l, i int) bool {
	r := false
	for m, ps := range lines {
		for j := range ps {
			if m != l || j != i {
				r = sym.Or(r, same(lines[l][i], ps[j]))
			}
		}
	}
	return r
}

// detect: the junctions found are exactly the vertices shared.
func detect(lines [][]lib.Pt) {
	fids := []int{7, 2, 40, 5}
	var fc []*lnr.FC
	for l, ps := range lines {
		fc = append(fc, lnr.NewFC(lib.Coords(ps), fids[l]))
	}
	got := lnr.FCPlanarSelfIntersection(fc)
	known := map[int]bool{}
	for l, ps := range lines {
		known[fids[l]] = true
		found := make([]bool, len(ps))
		for _, v := range got[fids[l]] {
			sym.Assert(0 <= v && v < len(ps) && !found[v], "a junction is a vertex of its line, once")
			found[v] = true
		}
		for i := range ps {
			sym.ObserveBool("found", found[i])
			sym.Assert(sym.Iff(found[i], shared(lines, l, i)), "exactly the shared vertices are found")
		}
	}
	for k := range got {
		sym.Assert(known[k], "junctions are of lines given")
	}
	sym.Reach("end")
}

// HDetect: two or three short lines anywhere on a small grid, of step 1/4 or 1.
func HDetect() {
	if sym.Choose("lines", 2) == 0 {
		detect([][]lib.Pt{lib.FreeIn("a", 3, 2, 1, 4), lib.FreeIn("b", 2, 2, 1, 4)})
	} else {
		detect([][]lib.Pt{lib.Free("a", 2, sym.Param(1, 2), 1), lib.Free("b", 2, sym.Param(1, 2), 1), lib.Free("c", sym.Param(1, 2), 1, 1)})
	}
}

// HDetectMany: longer lines, one free vertex.
func HDetectMany() {
	lines := [][]lib.Pt{
		append([]lib.Pt{}, lib.Touch...),
		append([]lib.Pt{}, lib.Ring...),
		{{-3, 9}, {12, 4}, {0, 0}, {20, 20}},
		{{20, 20}, {5, 5}, {8, -2}},
	}
	l := sym.Choose("line", 4)
	i := sym.Choose("i", sym.Param(3, 7))
	sym.Assume(i < len(lines[l]))
	lines[l][i] = lib.Pt{sym.Grid("x", -3, 20), sym.Grid("y", -2, 20)}
	detect(lines[:sym.Param(4, 3+sym.Choose("n", 2))])
}

func options() *opts.Opts {
	o := &opts.Opts{Threshold: 1, PlanarSelf: true, MinDist: 1, NonPlanarDisplacement: 1}
	if sym.Choose("opts", 2) == 1 {
		o.NonPlanarSelf, o.AvoidNewSelfIntersects = true, true
	}
	return o
}

// class simplifies the lines together and asserts what the property says.
func class(o *opts.Opts, f func(geom.Coords) (int, float64), lines ...[]lib.Pt) {
	id := iter.NewIgen()
	for k := 0; k < 3; k++ {
		id.Next() // lines need not be numbered from nought
	}
	var ds []*constdp.ConstDP
	for l, ps := range lines {
		ds = append(ds, constdp.NewConstDP(id.Next(), lib.Line(sym.Str(l), ps), nil, o, f))
	}
	constdp.SimplifyFeatureClass(id, ds, o)
	for l, ps := range lines {
		kept := make([]bool, len(ps))
		for _, k := range lib.Kept(ds[l]) {
			kept[k] = true
		}
		cut := make([]bool, len(ps))
		for i := range ds[l].Hulls {
			cut[ds[l].Hulls[i].Range.I] = true
			cut[ds[l].Hulls[i].Range.J] = true
		}
		for i := range ps {
			sym.ObserveBool("kept", kept[i])
			s := shared(lines, l, i)
			sym.Assert(sym.Implies(s, kept[i]), "a vertex shared is kept in every line that has it")
			sym.Assert(sym.Implies(s, cut[i]), "a vertex shared ends the stretches there")
		}
	}
	sym.Reach("end")
}

func all(c geom.Coords) (int, float64) { return c.Len() / 2, 0 }

func move(lines [][]lib.Pt, l, i int, x, y float64) {
	lines[l] = append([]lib.Pt{}, lines[l]...)
	lines[l][i] = lib.Pt{x, y}
	for _, ps := range lines {
		for k := 1; k < len(ps); k++ {
			sym.Assume(sym.Not(same(ps[k], ps[k-1])))
		}
	}
}

// HPair: two lines, a vertex of one anywhere; a score that drops everything.
func HPair() {
	lines := [][]lib.Pt{
		{{0, 0}, {2, 4}, {4, 1}, {6, 4}, {8, 0}},
		{{0, 6}, {4, 1}, {5, 5}, {7, 7}},
	}
	move(lines, 1, 2-sym.Choose("i", sym.Param(1, 3)), float64(2*sym.Choose("x", sym.Param(3, 5))), sym.Grid("y", 0, 4))
	if sym.Choose("swap", 2) == 1 {
		lines[0], lines[1] = lines[1], lines[0]
	}
	class(options(), all, lines...)
}

// HThree: three lines, one closed, sharing vertices, some by choice; any
// threshold.
func HThree() {
	lines := [][]lib.Pt{
		{{0, 0}, {3, 1}, {6, -1}, {9, 1}, {12, 0}},
		{{6, -1}, {8, 5}, {3, 7}, {1, 4}, {6, -1}},
		{{12, 0}, {10, 3}, {8, 5}, {5, 9}},
	}
	k := sym.Choose("to", sym.Param(4, 5))
	l := sym.Choose("other", 2)
	p := lines[l][k]
	i := 1 + sym.Choose("i", 2)
	move(lines, 2, i, p.X, p.Y)
	o := options()
	o.Threshold = sym.Grid("t", 0, 12)
	class(o, lib.Score, lines...)
}

// HMany: more lines than workers, all through one vertex at different places.
func HMany() {
	n := sym.Param(10, 18)
	var lines [][]lib.Pt
	for l := 0; l < n; l++ {
		x, y := float64(4*l-20), float64(30-l)
		ps := []lib.Pt{{x, y}, {x + 1, y + 2}, {x + 3, y + 3}, {x + 4, y}, {x + 6, y + 1}}
		ps[1+l%3] = lib.Pt{0, -9}
		lines = append(lines, ps)
	}
	o := options()
	o.Threshold = sym.Grid("t", 0, 40)
	class(o, lib.Score, lines...)
}

// HAlong: two lines that run along one another, sharing most of their
// vertices, one of which moves; any threshold.
func HAlong() {
	a := lib.Wave
	b := append([]lib.Pt{{-3, 2}}, a[2:]...)
	b = append(b, lib.Pt{26, 3}, lib.Pt{28, -1})
	lines := [][]lib.Pt{a, b}
	i := 2 + 3*sym.Choose("i", sym.Param(2, 4))
	p := b[i]
	move(lines, 1, i, p.X, sym.Grid("y", int(p.Y)-1, int(p.Y)+1))
	if sym.Choose("turn", 2) == 1 {
		for l, r := 0, len(b)-1; l < r; l, r = l+1, r-1 {
			lines[1][l], lines[1][r] = lines[1][r], lines[1][l]
		}
	}
	o := options()
	o.Threshold = float64(20 - 17*sym.Choose("t", sym.Param(1, 2)))
	class(o, lib.Score, lines...)
}
