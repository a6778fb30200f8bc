package h

import (
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
)

// a fixed trajectory chord: start, end and the two times
type chord struct{ ax, ay, bx, by, at, bt float64 }

var chords = []chord{
	{1, 1, 1, 1, 0, 3}, {2, 3, -2, 0, 1, 3}, {0, 0, 0, -3, 2, 5}, {0, 0, 4, 0, 5, 1}, {1, 0, 4, 4, 2, 2}, {0, 5, -5, 5, 0, 5},
	{0, 0, 4, 0, 0, 4}, {0, 0, 3, 4, 0, 4}, {1, 0, -5, -8, 0, 4}, {-2, -1, 4, -9, 3, 7},
}

func check(ps []geom.Point) {
	n := len(ps) - 1
	a, b := ps[0], ps[n]
	k, s := offset.MaxSEDOffset(geom.Coordinates(ps))
	q, sq := offset.SqureMaxSEDOffset(geom.Coordinates(ps))
	if n < 2 {
		sym.Assert(k == n && s == 0 && q == n && sq == 0, "a lone segment has no deviation")
		return
	}
	k, q = sym.ConcInt(k), sym.ConcInt(q)
	sym.Observe("k", k)
	sym.Assert(0 < k && k < n, "the vertex chosen is an interior vertex")
	sym.Assert(0 < q && q < n, "the vertex chosen is an interior vertex (squared)")
	d := make([]float64, n)
	for i := 1; i < n; i++ {
		w := 0.0 // no time between the ends: expected at the first
		if a[2] != b[2] {
			w = (ps[i][2] - a[2]) / (b[2] - a[2])
		}
		x, y := ps[i][0]-(a[0]+(b[0]-a[0])*w), ps[i][1]-(a[1]+(b[1]-a[1])*w)
		d[i] = x*x + y*y
	}
	for i := 1; i < n; i++ {
		sym.Assert(sym.FLe(d[i], d[k]), "no interior vertex deviates more than the one chosen")
		sym.Assert(sym.FLe(d[i], d[q]), "no interior vertex deviates more than the one chosen (squared)")
	}
	sym.Assert(sym.FLe(0, s) && sym.FEq(s*s, d[k]), "the deviation is the distance to the position expected at that time")
	sym.Assert(sym.FEq(sq, d[q]), "the squared deviation is the squared distance to the position expected at that time")
}

// HChord: a fixed chord; positions and times of the interior vertices free.
func HChord() {
	c := chords[sym.Choose("chord", sym.Param(5, len(chords)))]
	lo, hi := int(c.at), int(c.bt)
	down := lo > hi
	if down {
		lo, hi = hi, lo
	}
	m, r := sym.Param(2, 3), sym.Param(3, 4)
	ps := []geom.Point{{c.ax, c.ay, c.at}}
	for i := 0; i < m; i++ {
		x := float64(2*i - 1)
		if i == 1 {
			x = sym.Grid("x", -r, r)
		}
		ps = append(ps, geom.Point{x, sym.Grid("y", -r, r), float64(sym.ConcInt(sym.Int("t", lo-1, hi+1)))})
		sym.Assume(sym.FLe(ps[i][2], ps[i+1][2]) != down)
	}
	ps = append(ps, geom.Point{c.bx, c.by, c.bt})
	check(ps)
	sym.Reach("end")
}

// HLong: one free vertex and time in a longer trajectory.
func HLong() {
	n := len(lib.Wave)
	ps := make([]geom.Point, n)
	for i := range ps {
		ps[i] = geom.Point{lib.Wave[i].X, lib.Wave[i].Y, float64(3 * i)}
	}
	k := 1 + 2*sym.Choose("at", sym.Param(3, (n-1)/2))
	ps[k] = geom.Point{sym.Grid("x", -5, 29), sym.Grid("y", -9, 9), float64([]int{3*k - 1, 3*k + 2, -4, 3*n + 5}[sym.Choose("t", 4)])}
	check(ps)
	sym.Reach("end")
}
