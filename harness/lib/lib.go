// Package lib holds what several harnesses share.
package lib

import (
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/offset"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// Pts makes a coordinate list; x is the flat list x0 y0 x1 y1 ...
func Pts(xy ...float64) geom.Coords {
	ps := make([]geom.Point, len(xy)/2)
	for i := range ps {
		ps[i] = geom.Point{xy[2*i], xy[2*i+1], 0}
	}
	return geom.Coordinates(ps)
}

// Pt is one vertex.
type Pt struct{ X, Y float64 }

// Graph is a polyline of n vertices at x = 0, dx, 2dx, ... with every y an
// input in [lo, hi].
func Graph(name string, n, dx, lo, hi int) []Pt {
	ps := make([]Pt, n)
	for i := range ps {
		ps[i] = Pt{float64(i * dx), sym.Grid(name, lo, hi)}
	}
	return ps
}

// Free is a polyline of n vertices anywhere on the grid [0,w] x [0,h], with
// consecutive vertices distinct.
func Free(name string, n, w, h int) []Pt { return FreeIn(name, n, w, h, 1) }

// FreeIn is the same on a grid of step 1/den.
func FreeIn(name string, n, w, h, den int) []Pt {
	ps := make([]Pt, n)
	for i := range ps {
		ps[i] = Pt{sym.GridDen(name+"x", 0, w, den), sym.GridDen(name+"y", 0, h, den)}
		if i > 0 {
			sym.Assume(sym.Not(sym.And(sym.FEq(ps[i].X, ps[i-1].X), sym.FEq(ps[i].Y, ps[i-1].Y))))
		}
	}
	return ps
}

// Coords converts vertices to the plugin's coordinate type.
func Coords(ps []Pt) geom.Coords {
	r := make([]geom.Point, len(ps))
	for i := range ps {
		r[i] = geom.Point{ps[i].X, ps[i].Y, float64(i)}
	}
	return geom.Coordinates(r)
}

// Line makes a polyline.
func Line(id string, ps []Pt) *geometry.Polyline {
	return geometry.CreatePolyline(id, Coords(ps), "")
}

// DP makes a simplifier instance with the plain (perpendicular) offset.
func DP(id *iter.Igen, pln *geometry.Polyline, cons []geometry.IGeometry, o *opts.Opts) *constdp.ConstDP {
	return constdp.NewConstDP(id.Next(), pln, cons, o, offset.MaxOffset, offset.SquareMaxOffset)
}

// Kept returns the indices an instance kept, in output order.
func Kept(d *constdp.ConstDP) []int {
	vs := d.SimpleSet.Values()
	r := make([]int, len(vs))
	for i := range vs {
		r[i] = vs[i].(int)
	}
	return r
}

// Oracle is an arbitrary scoring function: for every stretch of a line, an
// arbitrary interior vertex and an arbitrary score in [0, hi].  It recognises
// the stretch by the vertex numbers Coords stores in the third ordinate.
type Oracle struct {
	n     int
	pick  []int
	score []float64
}

// Scale divides all the scores.
func (o *Oracle) Scale(d float64) *Oracle {
	for i := range o.score {
		o.score[i] /= d
	}
	return o
}

// NewOracle draws the tables of a line of n vertices.
func NewOracle(name string, n, hi int) *Oracle {
	o := &Oracle{n, make([]int, n*n), make([]float64, n*n)}
	for i := 0; i < n; i++ {
		for j := i + 2; j < n; j++ {
			o.pick[i*n+j] = sym.Int(name+"k", 1, j-i-1)
			o.score[i*n+j] = sym.Grid(name+"s", 0, hi)
		}
	}
	return o
}

func ends(c geom.Coords) (int, int) {
	return int(c.Pt(0)[2]), int(c.Pt(c.Len() - 1)[2])
}

// Fn is the scoring function.
func (o *Oracle) Fn(c geom.Coords) (int, float64) {
	m := c.Len() - 1
	if m <= 1 {
		return m, 0
	}
	i, j := ends(c)
	return o.pick[i*o.n+j], o.score[i*o.n+j]
}

// SqFn is the same function with squared scores.
func (o *Oracle) SqFn(c geom.Coords) (int, float64) {
	k, s := o.Fn(c)
	return k, s * s
}

// At is the score of the stretch i..j.
func (o *Oracle) At(i, j int) float64 {
	if j-i < 2 {
		return 0
	}
	return o.score[i*o.n+j]
}

// Pick is the vertex at which the stretch i..j splits.
func (o *Oracle) Pick(i, j int) int { return i + o.pick[i*o.n+j] }

// Zig is a concrete x-monotone line of n vertices, none of whose stretches
// of three or more vertices is straight.
func Zig(n int) []Pt {
	ps := make([]Pt, n)
	for i := range ps {
		ps[i] = Pt{float64(4 * i), float64((i * i * 3) % 7)}
	}
	return ps
}

// Concrete lines the harnesses place their symbolic inputs around.
var (
	// Spiral winds inwards: dropping vertices makes its arms cross.
	Spiral = []Pt{{0, 0}, {13, 1}, {12, 10}, {2, 11}, {1, 3}, {9, 4}, {8, 8}, {4, 7}}
	// Loop crosses itself away from its vertices.
	Loop = []Pt{{0, 0}, {4, 1}, {10, 6}, {12, 10}, {8, 13}, {5, 9}, {7, 2}, {14, -1}}
	// Touch passes twice through the vertex (5,5).
	Touch = []Pt{{0, 0}, {5, 5}, {9, 8}, {12, 4}, {5, 5}, {2, 9}, {1, 14}}
	// Ring is closed.
	Ring = []Pt{{0, 0}, {8, -2}, {12, 4}, {8, 9}, {3, 8}, {-2, 4}, {0, 0}}
	// Wave is a long line of gentle bends.
	Wave = []Pt{{0, 0}, {2, 3}, {4, 4}, {6, 2}, {8, -3}, {10, -4}, {12, -1}, {14, 5}, {16, 6}, {18, 2}, {20, -2}, {22, -1}, {24, 0}}
	// Cross meets Wave, Spiral and Loop.
	Cross = []Pt{{-2, 9}, {3, 5}, {6, 6}, {11, 1}, {13, -3}, {17, -2}}
	// Bay is a bay with a narrow mouth.
	Bay = []Pt{{0, 0}, {6, 0}, {5, 6}, {9, 9}, {13, 6}, {11, 0}, {17, 1}}
)

// Lines are those, numbered.
var Lines = [][]Pt{Spiral, Loop, Touch, Ring, Wave, Cross, Bay}

// Shift moves a line.
func Shift(ps []Pt, dx, dy float64) []Pt {
	r := make([]Pt, len(ps))
	for i := range ps {
		r[i] = Pt{ps[i].X + dx, ps[i].Y + dy}
	}
	return r
}

// Score and SqScore are the plugin's perpendicular scores.
var Score, SqScore = offset.MaxOffset, offset.SquareMaxOffset

// Fixed is a scoring function that accepts (scores zero) the stretches that
// lie within one of the given ones, rejects all others, and splits a stretch
// at the first of the given stops inside it, or in the middle.
func Fixed(accept [][2]int, stops ...int) func(geom.Coords) (int, float64) {
	return func(c geom.Coords) (int, float64) {
		m := c.Len() - 1
		if m <= 1 {
			return m, 0
		}
		i, j := ends(c)
		score := 9.0
		for _, a := range accept {
			if a[0] <= i && j <= a[1] {
				score = 0
			}
		}
		for _, k := range stops {
			if i < k && k < j {
				return k - i, score
			}
		}
		return m / 2, score
	}
}
