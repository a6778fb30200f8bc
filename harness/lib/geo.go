package lib

import (
	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

// Con is a constraint: a point, a line, or a polygon of one ring and any
// number of holes (rings are closed, convex and counter-clockwise).
type Con struct {
	Ps    []Pt
	Rings [][]Pt
}

// Shapes of constraints, about the origin.
var (
	Dot   = Con{Ps: []Pt{{0, 0}}}
	Bar   = Con{Ps: []Pt{{-1, -1}, {2, 1}}}
	Elbow = Con{Ps: []Pt{{-2, 0}, {0, 2}, {1, -1}}}
	Tri   = Con{Rings: [][]Pt{{{-2, -1}, {2, -1}, {0, 2}, {-2, -1}}}}
	Frame = Con{Rings: [][]Pt{{{-6, -6}, {6, -6}, {6, 6}, {-6, 6}, {-6, -6}}, {{-5, -5}, {5, -5}, {5, 5}, {-5, 5}, {-5, -5}}}}
	Cons  = []Con{Dot, Bar, Tri, Elbow, Frame}
)

// At moves a constraint.
func (c Con) At(x, y float64) Con {
	r := Con{Ps: Shift(c.Ps, x, y)}
	for _, g := range c.Rings {
		r.Rings = append(r.Rings, Shift(g, x, y))
	}
	return r
}

// Geom is the plugin's form of a constraint.
func (c Con) Geom() geometry.IGeometry {
	if len(c.Rings) > 0 {
		var cs []geom.Coords
		for _, g := range c.Rings {
			cs = append(cs, flat(g))
		}
		return geometry.CreatePolygon("c", cs, "")
	}
	if len(c.Ps) == 1 {
		return geometry.CreatePoint("c", []float64{c.Ps[0].X, c.Ps[0].Y}, "")
	}
	return geometry.CreatePolyline("c", flat(c.Ps), "")
}

func flat(ps []Pt) geom.Coords {
	r := make([]geom.Point, len(ps))
	for i := range ps {
		r[i] = geom.Point{ps[i].X, ps[i].Y, 0}
	}
	return geom.Coordinates(r)
}

// edges lists the segments of a constraint; a point is one of no length.
func (c Con) edges() [][2]Pt {
	var r [][2]Pt
	for _, g := range append([][]Pt{c.Ps}, c.Rings...) {
		if len(g) == 1 {
			r = append(r, [2]Pt{g[0], g[0]})
		}
		for i := 1; i < len(g); i++ {
			r = append(r, [2]Pt{g[i-1], g[i]})
		}
	}
	return r
}

// covers: is p inside the polygon (edges aside, and not in a hole)?
func (c Con) covers(p Pt) bool {
	in := false
	for k, g := range c.Rings {
		var side []bool
		for i := 1; i < len(g); i++ {
			side = append(side, sym.FLt(0, sym.Cross(g[i-1].X, g[i-1].Y, g[i].X, g[i].Y, p.X, p.Y)))
		}
		if k == 0 {
			in = sym.And(side...)
		} else {
			in = sym.And(in, sym.Not(sym.And(side...)))
		}
	}
	return in
}

// Meets: do the constraint and the line share a point?
func (c Con) Meets(ps []Pt) bool {
	var t []bool
	for _, e := range c.edges() {
		for i := 1; i < len(ps); i++ {
			a, b := ps[i-1], ps[i]
			t = append(t, sym.SegInter(a.X, a.Y, b.X, b.Y, e[0].X, e[0].Y, e[1].X, e[1].Y))
		}
	}
	if len(c.Rings) > 0 {
		t = append(t, c.covers(ps[0]))
	}
	return sym.Or(t...)
}

// Within: is the squared distance of the constraint and the line at most q?
func (c Con) Within(ps []Pt, q float64) bool {
	var t []bool
	for _, e := range c.edges() {
		for i := 1; i < len(ps); i++ {
			a, b := ps[i-1], ps[i]
			t = append(t, sym.FLe(sym.SegSegDist2(a.X, a.Y, b.X, b.Y, e[0].X, e[0].Y, e[1].X, e[1].Y), q))
		}
	}
	if len(c.Rings) > 0 {
		t = append(t, sym.And(c.covers(ps[0]), q >= 0))
	}
	return sym.Or(t...)
}

// Winds is how often the closed curve of the line and its reversed chord
// passes around p (anticlockwise), for p not on the curve.
func Winds(ps []Pt, p Pt) int {
	w := 0
	n := len(ps)
	for i := range ps {
		a, b := ps[i], ps[(i+1)%n]
		up := sym.And(sym.FLe(a.Y, p.Y), sym.FLt(p.Y, b.Y))
		dn := sym.And(sym.FLe(b.Y, p.Y), sym.FLt(p.Y, a.Y))
		c := sym.Cross(a.X, a.Y, b.X, b.Y, p.X, p.Y)
		w += sym.B2I(sym.And(up, sym.FLt(0, c)))
		w -= sym.B2I(sym.And(dn, sym.FLt(c, 0)))
	}
	return w
}

// Proper: do the segments cross at a point inside both?
func Proper(a, b, c, d Pt) bool {
	o1, o2 := sym.Cross(a.X, a.Y, b.X, b.Y, c.X, c.Y), sym.Cross(a.X, a.Y, b.X, b.Y, d.X, d.Y)
	o3, o4 := sym.Cross(c.X, c.Y, d.X, d.Y, a.X, a.Y), sym.Cross(c.X, c.Y, d.X, d.Y, b.X, b.Y)
	return sym.And(
		sym.Or(sym.And(sym.FLt(o1, 0), sym.FLt(0, o2)), sym.And(sym.FLt(0, o1), sym.FLt(o2, 0))),
		sym.Or(sym.And(sym.FLt(o3, 0), sym.FLt(0, o4)), sym.And(sym.FLt(0, o3), sym.FLt(o4, 0))))
}

// Meet: do the two lines share a point?
func Meet(a, b []Pt) bool {
	var t []bool
	for i := 1; i < len(a); i++ {
		for j := 1; j < len(b); j++ {
			p, q, r, s := a[i-1], a[i], b[j-1], b[j]
			t = append(t, sym.SegInter(p.X, p.Y, q.X, q.Y, r.X, r.Y, s.X, s.Y))
		}
	}
	return sym.Or(t...)
}

// Chord is the segment that replaces a stretch.
func Chord(ps []Pt) []Pt { return []Pt{ps[0], ps[len(ps)-1]} }

// Stretch is the stretch of a line from vertex i to vertex j.
func Stretch(ps []Pt, i, j int) node.Node {
	id := iter.NewIgen()
	r := rng.Range(i, j)
	return node.CreateNode(id, Line("0", ps).SubCoordinates(r), r, common.Geometry, nil)
}

// Curves are stretches to be replaced by their chord.
var (
	Arch   = []Pt{{0, 0}, {1, 5}, {6, 7}, {11, 4}, {12, 0}}
	Hook   = []Pt{{0, 0}, {9, 2}, {10, 8}, {4, 9}, {3, 5}, {7, 5}}
	Ess    = []Pt{{0, 0}, {3, 6}, {6, 0}, {9, -6}, {12, 0}}
	Fold   = []Pt{{0, 0}, {10, 0}, {-3, 0}, {6, 0}}
	Back   = []Pt{{0, 0}, {6, 3}, {12, 6}, {4, 2}}
	Whole  = []Pt{{0, 0}, {8, 0}, {8, 8}, {0, 8}, {0, 0}}
	Twist  = []Pt{{0, 0}, {10, 8}, {10, 0}, {0, 8}, {-3, 4}}
	Whirl  = []Pt{{0, 0}, {12, 0}, {12, 10}, {2, 10}, {2, 3}, {9, 3}, {9, 7}, {5, 6}}
	Double = []Pt{{0, 0}, {10, -2}, {8, 8}, {0, 6}, {1, -1}, {9, -3}, {11, 9}, {-3, 8}, {-2, 1}}
	Flat   = []Pt{{0, 0}, {4, 0}, {5, 0}, {12, 0}}
	Curves = [][]Pt{Arch, Hook, Ess, Fold, Back, Whole, Twist, Whirl, Double, Flat}
)

// Crowd are points within the hull of Wave, but on the far side of it from its
// chord.
var Crowd = []Pt{{7, 3}, {8, 2}, {9, 3.5}, {10, 2.5}, {11, 3}, {12, 4}, {10, 4.5}, {13, -1}, {14, -2}, {15, -2.5}, {16, -1.5}, {17, -2}}

// Among puts a constraint in the midst of the crowd.
func Among(c Con) []Con {
	var cs []Con
	for i, p := range Crowd {
		if i == 5 {
			cs = append(cs, c)
		}
		cs = append(cs, Dot.At(p.X, p.Y))
	}
	return cs
}

// Geoms are the plugin's forms of constraints.
func Geoms(cs []Con) []geometry.IGeometry {
	var gs []geometry.IGeometry
	for _, c := range cs {
		gs = append(gs, c.Geom())
	}
	return gs
}

// Tents are short lines with room for constraints between stretch and segment.
var Tents = [][]Pt{
	{{0, 0}, {8, 14}, {16, 0}},
	{{0, 0}, {0, 12}, {16, 13}, {16, 0}},
	{{0, 0}, {8, 14}, {16, 0}, {24, -14}, {32, 0}},
}

// Switch sets the other switches to some combination: which of the three
// relations besides its own (1, 2 or 4), and how self-intersections are
// handled.
func Switch(o *opts.Opts, own int) {
	m := sym.Choose("switches", 4) // of the two other relations
	m = m&(own-1) | (m&^(own-1))<<1 | own
	o.GeomRelation, o.DistRelation, o.DirRelation = m&1 != 0, m&2 != 0, m&4 != 0
	o.AvoidNewSelfIntersects = sym.Choose("avoid", 2) == 1
	o.PlanarSelf = sym.Choose("planar", sym.Param(1, 2)) == 1
	o.NonPlanarSelf = o.AvoidNewSelfIntersects
	o.NonPlanarDisplacement = 1
}
