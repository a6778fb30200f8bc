package h

import (
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/knn"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/mbr"
)

// shape i of a fixed scatter: a point, a segment, or a bent line
func shape(i int) []lib.Pt {
	x, y := float64((i*7)%29), float64((i*11+i*i)%23)
	switch i % 3 {
	case 0:
		return []lib.Pt{{x, y}}
	case 1:
		return []lib.Pt{{x, y}, {x + float64(i%5), y + 3}}
	}
	return []lib.Pt{{x, y}, {x + 2, y - 3}, {x + 5, y + float64(i%4)}}
}

func geometry(ps []lib.Pt) geom.Geometry {
	if len(ps) == 1 {
		return geom.Pt(ps[0].X, ps[0].Y)
	}
	return geom.NewLineString(lib.Coords(ps))
}

// dist2 is the squared distance of a point to a shape.
func dist2(x, y float64, ps []lib.Pt) float64 {
	if len(ps) == 1 {
		return (x-ps[0].X)*(x-ps[0].X) + (y-ps[0].Y)*(y-ps[0].Y)
	}
	d := sym.PtSegDist2(x, y, ps[0].X, ps[0].Y, ps[1].X, ps[1].Y)
	for i := 2; i < len(ps); i++ {
		e := sym.PtSegDist2(x, y, ps[i-1].X, ps[i-1].Y, ps[i].X, ps[i].Y)
		d = sym.IteF(sym.FLt(e, d), e, d)
	}
	return d
}

func load(n, how int) (*hdb.Hdb, [][]lib.Pt) {
	db := hdb.NewHdb(4)
	var ns []node.Node
	ss := make([][]lib.Pt, n)
	for i := 0; i < n; i++ {
		ss[i] = shape(i)
		g := geometry(ss[i])
		ns = append(ns, node.Node{Id: i, MBR: g.Bounds(), Geom: g})
	}
	if how == 0 {
		db.Load(ns)
	} else {
		for i := range ns {
			db.Load(ns[i : i+1])
		}
	}
	return db, ss
}

// HWithin: neighbours within a distance.
func HWithin() {
	n := []int{0, 1, 6, 11, 19, 40}[sym.Choose("n", sym.Param(4, 6))]
	db, ss := load(n, sym.Choose("how", sym.Param(1, 2)))
	x := float64([]int{4, 13, 27}[sym.Choose("x", sym.Param(1, 3))])
	y := sym.Grid("y", -1, sym.Param(8, 26))
	r := float64([]int{0, 3, 8, 60}[sym.Choose("r", 4)])
	got := knn.ContextNeighbours(db, geom.Pt(x, y), r)
	seen := make([]int, n)
	for i, g := range got {
		seen[g.Id]++
		if i > 0 {
			sym.Assert(sym.FLe(dist2(x, y, ss[got[i-1].Id]), dist2(x, y, ss[g.Id])), "nearest first")
		}
	}
	for i := 0; i < n; i++ {
		sym.Assert(seen[i] <= 1, "nothing twice")
		sym.Assert(sym.Implies(seen[i] == 1, sym.FLe(dist2(x, y, ss[i]), r*r)), "nothing too far")
		sym.Assert(sym.Implies(seen[i] == 0, sym.FLe(r*r, dist2(x, y, ss[i]))), "nothing missing")
		if r == 0 || r == 60 {
			sym.Assert(sym.Iff(seen[i] == 1, sym.FLe(dist2(x, y, ss[i]), r*r)), "touching geometries included")
		}
	}
	sym.Observe("found", len(got))
	sym.Reach("end")
}

// HNearest: the k nearest boxes.
func HNearest() {
	n := []int{0, 3, 11, 20, 33}[sym.Choose("n", sym.Param(3, 5))]
	db, ss := load(n, sym.Choose("how", sym.Param(1, 2)))
	k := []int{1, 4, 10}[sym.Choose("k", 3)]
	x, y := 11.0, sym.Grid("y", -1, sym.Param(9, 26))
	box := mbr.CreateMBR(x, y, x, y)
	score := func(_ *mbr.MBR, o *hdb.KObj) float64 {
		return box.Distance(o.MBR)
	}
	got := db.Knn(mbr.CreateMBR(x, y, x, y), k, score)
	want := k
	if n < k {
		want = n
	}
	sym.Assert(len(got) == want, "as many as asked for, or all there are")
	d := make([]float64, n)
	for i := range d {
		b := geometry(ss[i]).Bounds()
		dx := gap(x, b.MinX, b.MaxX)
		dy := gap(y, b.MinY, b.MaxY)
		d[i] = dx*dx + dy*dy
	}
	seen := make([]bool, n)
	for i, g := range got {
		sym.Assert(!seen[g.Id], "nothing twice")
		seen[g.Id] = true
		if i > 0 {
			sym.Assert(sym.FLe(d[got[i-1].Id], d[g.Id]), "nearest first")
		}
	}
	for i := 0; i < n && len(got) > 0; i++ {
		if !seen[i] {
			sym.Assert(sym.FLe(d[got[len(got)-1].Id], d[i]), "no item left out is nearer than one returned")
		}
	}
	sym.Reach("end")
}

func gap(v, lo, hi float64) float64 {
	return sym.IteF(sym.FLt(v, lo), lo-v, sym.IteF(sym.FLt(hi, v), v-hi, 0))
}

// HStretch: neighbours of a stretch: those its geometry touches, not itself,
// even where another stretch has the same geometry.
func HStretch() {
	n := sym.Param(8, 14)
	var ns []node.Node
	var ss [][]lib.Pt
	y := sym.Grid("y", -8, 20)
	for i := 0; i < n; i++ {
		ps := []lib.Pt{{float64(3 * i % 11), float64(i)}, {float64(3*i%11 + 4), float64(2*i%7) + 3}}
		if i == n/2 {
			ps = []lib.Pt{{6, y}, {6, y + 4}}
		}
		if i == n-1 {
			ps = ss[1]
		}
		ss = append(ss, ps)
		g := geometry(ps)
		ns = append(ns, node.Node{Id: 10 + i, MBR: g.Bounds(), Geom: g})
	}
	db := hdb.NewHdb(4).Load(ns)
	q := []int{n / 2, 1, n - 1, 0}[sym.Choose("q", 4)]
	got := knn.NodeNeighbours(db, &ns[q], knn.EpsilonDist)
	seen := make([]int, n)
	for _, g := range got {
		sym.Assert(g.Id != ns[q].Id, "a stretch is not its own neighbour")
		seen[g.Id-10]++
	}
	a := ss[q]
	for i := 0; i < n; i++ {
		if i == q {
			continue
		}
		b := ss[i]
		sym.Assert(seen[i] <= 1, "nothing twice")
		sym.Assert(sym.Iff(seen[i] == 1, sym.SegInter(a[0].X, a[0].Y, a[1].X, a[1].Y, b[0].X, b[0].Y, b[1].X, b[1].Y)), "exactly the stretches that touch it")
	}
	sym.Observe("found", len(got))
	sym.Reach("end")
}

// HTie: points exactly as far away as asked for are found.
func HTie() {
	n := []int{11, 19, 40}[sym.Choose("n", sym.Param(2, 3))]
	db, ss := load(n, sym.Choose("how", sym.Param(1, 2)))
	x := float64(sym.ConcInt(sym.Int("x", 0, 28)))
	y := float64([]int{0, 4, 9, 14, 18}[sym.Choose("y", sym.Param(2, 5))])
	r := float64([]int{0, 1, 5, 10}[sym.Choose("r", 4)])
	seen := make([]bool, n)
	for _, g := range knn.ContextNeighbours(db, geom.Pt(x, y), r) {
		seen[g.Id] = true
	}
	for i := 0; i < n; i += 3 {
		sym.Assert(seen[i] == (dist2(x, y, ss[i]) <= r*r), "a point is found exactly if it is at most that far away")
	}
	sym.Reach("end")
}
