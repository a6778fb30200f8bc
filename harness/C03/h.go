package h

import (
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
)

// chords whose length is a whole number or nothing
var chords = [][4]float64{{0, 0, 4, 0}, {0, 0, 3, 4}, {1, 1, 1, 1}, {2, 3, -2, 0}, {0, 0, 0, -3}, {-1, 2, 4, 2}, {0, 0, 2, 1}}

func check(ps []lib.Pt) {
	n := len(ps) - 1
	a, b := ps[0], ps[n]
	k, s := offset.MaxOffset(lib.Coords(ps))
	q, sq := offset.SquareMaxOffset(lib.Coords(ps))
	sym.Observe("k", sym.ConcInt(k))
	if n < 2 {
		sym.Assert(k == n && s == 0 && q == n && sq == 0, "a lone segment has no deviation")
		return
	}
	k, q = sym.ConcInt(k), sym.ConcInt(q)
	sym.Assert(0 < k && k < n, "the vertex chosen is an interior vertex")
	sym.Assert(0 < q && q < n, "the vertex chosen is an interior vertex (squared)")
	d := make([]float64, n)
	for i := 1; i < n; i++ {
		d[i] = sym.PtSegDist2(ps[i].X, ps[i].Y, a.X, a.Y, b.X, b.Y)
	}
	for i := 1; i < n; i++ {
		sym.Assert(sym.FLe(d[i], d[k]), "no interior vertex is farther from the chord than the one chosen")
		sym.Assert(sym.FLe(d[i], d[q]), "no interior vertex is farther from the chord than the one chosen (squared)")
	}
	sym.Assert(sym.FLe(0, s) && sym.FEq(s*s, d[k]), "the deviation is the distance of the chosen vertex to the chord")
	sym.Assert(sym.FEq(sq, d[q]), "the squared deviation is the squared distance of the chosen vertex to the chord")
}

// HChord: a fixed chord, any interior vertices.
func HChord() {
	c := chords[sym.Choose("chord", len(chords))]
	m := sym.Param(3, 4)
	ps := []lib.Pt{{c[0], c[1]}}
	for i := 0; i < m; i++ {
		ps = append(ps, lib.Pt{sym.Grid("x", -5, 7), sym.Grid("y", -5, 7)})
	}
	ps = append(ps, lib.Pt{c[2], c[3]})
	check(ps)
	sym.Reach("end")
}

// HShort: lines of two and three vertices, all of them free.
func HShort() {
	n := 2 + sym.Choose("n", 2)
	ps := make([]lib.Pt, n)
	for i := range ps {
		ps[i] = lib.Pt{float64(sym.ConcInt(sym.Int("x", 0, 3))), float64(sym.ConcInt(sym.Int("y", 0, 2)))}
	}
	check(ps)
	sym.Reach("end")
}

// HLong: one free vertex anywhere in a longer line.
func HLong() {
	ps := append([]lib.Pt{}, lib.Wave...)
	k := 1 + sym.Choose("at", len(ps)-2)
	ps[k] = lib.Pt{sym.Grid("x", -5, 29), sym.Grid("y", -9, 9)}
	check(ps)
	sym.Reach("end")
}
