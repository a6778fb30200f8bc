package h

import (
	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/merge"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/split"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/geom"
	"github.com/intdxdt/iter"
)

func clone(a []int) []int { return append([]int{}, a...) }

// HSplit: any stretch, any list of positions (repeated, unsorted, outside).
func HSplit() {
	m := sym.Param(3, 4)
	i := 2 * sym.Choose("i", 2)
	j := i + 1 + sym.Choose("len", sym.Param(4, 5))
	at := make([]int, m)
	for k := range at {
		at[k] = sym.ConcInt(sym.Int("at", 0, sym.Param(6, 8)))
	}
	r := rng.Range(i, j)
	parts := r.Split(clone(at))
	cut := map[int]bool{}
	for _, k := range at {
		if i < k && k < j {
			cut[k] = true
		}
	}
	if len(cut) == 0 {
		sym.Assert(len(parts) == 0, "no position inside: nothing is split")
		return
	}
	sym.Assert(len(parts) == len(cut)+1, "one part more than there are distinct positions inside")
	e := i
	for k, p := range parts {
		sym.Assert(p.I == e && p.J > p.I, "parts follow each other")
		sym.Assert(k == len(parts)-1 || cut[p.J], "parts end at the positions asked for")
		e = p.J
	}
	sym.Assert(e == j, "parts reach the end")
	sym.Reach("end")
}

func mk(id *iter.Igen, ps []lib.Pt, i, j int) node.Node {
	c := lib.Line("0", ps)
	r := rng.Range(i, j)
	return node.CreateNode(id, c.SubCoordinates(r), r, common.Geometry, nil)
}

func sound(h *node.Node, why string) {
	c := h.Coordinates()
	n := c.Len()
	sym.Assert(n == h.Range.J-h.Range.I+1, why+": a part carries as many vertices as it spans")
	for k := 0; k < n; k++ {
		sym.Assert(c.Pt(k)[2] == float64(h.Range.I+k), why+": a part carries its own vertices in order")
	}
	b := h.Bounds()
	for k := 0; k < n; k++ {
		p := c.Pt(k)
		sym.Assert(b.MinX <= p[0] && p[0] <= b.MaxX && b.MinY <= p[1] && p[1] <= b.MaxY, why+": the outline of a part encloses its vertices")
		sym.Assert(h.MBR.MinX <= p[0] && p[0] <= h.MBR.MaxX && h.MBR.MinY <= p[1] && p[1] <= h.MBR.MaxY, why+": the box of a part encloses its vertices")
	}
	s, e := h.SegmentPoints()
	sym.Assert(s[2] == float64(h.Range.I) && e[2] == float64(h.Range.J), why+": a part runs between its end vertices")
}

// HParts: splitting a stretch of a line at any positions, at any score.
func HParts() {
	id := iter.NewIgen()
	ps := lib.Lines[sym.Choose("line", sym.Param(3, len(lib.Lines)))]
	n := len(ps)
	i := sym.ConcInt(sym.Int("i", 0, n-3))
	j := sym.ConcInt(sym.Int("j", 2, n-1))
	sym.Assume(j-i >= 2)
	h := mk(id, ps, i, j)
	before := clone(h.Coordinates().Idxs)
	if sym.Choose("how", 2) == 0 {
		k := sym.ConcInt(sym.Int("k", 1, 11))
		sym.Assume(k < j-i)
		a, b := split.AtScoreSelection(id, &h, func(geom.Coords) (int, float64) { return k, 1 }, common.Geometry)
		sym.Assert(a.Range.I == i && a.Range.J == i+k && b.Range.I == i+k && b.Range.J == j, "two parts meeting at the scored vertex")
		sound(&a, "score")
		sound(&b, "score")
		sym.Assert(a.Id != b.Id && a.Id != h.Id && b.Id != h.Id, "parts have identities of their own")
	} else {
		at := []int{sym.ConcInt(sym.Int("p", 0, n-1)), sym.ConcInt(sym.Int("q", 0, n-1))}
		got := split.AtIndex(id, &h, at, common.Geometry)
		e := i
		for k := range got {
			sym.Assert(got[k].Range.I == e && got[k].Range.J > e, "parts follow each other")
			sound(&got[k], "index")
			e = got[k].Range.J
		}
		inside := 0
		for v := i + 1; v < j; v++ {
			if at[0] == v || at[1] == v {
				inside++
			}
		}
		if inside == 0 {
			sym.Assert(len(got) == 0, "nothing to split")
		} else {
			sym.Assert(len(got) == inside+1 && e == j, "parts reach the end")
		}
	}
	sound(&h, "the stretch split is unchanged")
	for k := range before {
		sym.Assert(h.Coordinates().Idxs[k] == before[k], "the stretch split is unchanged")
	}
	sym.Reach("end")
}

// HJoin: joining two neighbouring stretches, given in either order.
func HJoin() {
	id := iter.NewIgen()
	ps := lib.Lines[2*sym.Choose("line", sym.Param(2, 4))]
	n := len(ps)
	i := sym.ConcInt(sym.Int("i", 0, n-3))
	k := sym.ConcInt(sym.Int("k", 1, n-2))
	j := sym.ConcInt(sym.Int("j", 2, n-1))
	sym.Assume(i < k)
	sym.Assume(k < j)
	a, b := mk(id, ps, i, k), mk(id, ps, k, j)
	x, y := &a, &b
	if sym.Choose("order", 2) == 1 {
		x, y = y, x
	}
	sym.Assert(x.Range.Contiguous(y.Range), "neighbours are contiguous")
	seen := -1
	fits := sym.Choose("fits", 2) == 1
	ok, m := merge.ContiguousFragmentsAtThreshold(id, func(c geom.Coords) (int, float64) {
		seen = c.Len()
		sym.Assert(c.Len() == j-i+1, "the whole joined stretch is scored")
		for v := 0; v < c.Len(); v++ {
			sym.Assert(c.Pt(v)[2] == float64(i+v), "the joined stretch is scored in order")
		}
		return 1, 7
	}, x, y, func(v float64) bool { return fits }, common.Geometry)
	sym.Assert(seen > 0, "the joined stretch is scored")
	sym.Assert(ok == fits, "joined exactly when the score fits")
	if ok {
		sym.Assert(m.Range.I == i && m.Range.J == j, "the joined stretch spans both")
		sound(&m, "join")
	}
	sound(&a, "left unchanged")
	sound(&b, "right unchanged")
	sym.Reach("end")
}

// HContiguous: two stretches are contiguous exactly when they only share an end.
func HContiguous() {
	a := rng.Range(sym.Int("a", 0, 6), sym.Int("b", 0, 7))
	b := rng.Range(sym.Int("c", 0, 6), sym.Int("d", 0, 7))
	sym.Assume(a.I < a.J)
	sym.Assume(b.I < b.J)
	sym.Assert(sym.Iff(a.Contiguous(b), sym.Or(a.J == b.I, b.J == a.I)), "contiguous exactly when one ends where the other starts")
	sym.Assert(sym.Iff(a.Equals(b), sym.And(a.I == b.I, a.J == b.J)), "equal exactly when both ends agree")
	sym.Assert(a.Size() == a.J-a.I, "size is the number of segments")
	u := merge.Range(a, b)
	sym.Assert(sym.And(u.I <= a.I, u.I <= b.I, u.J >= a.J, u.J >= b.J, sym.Or(u.I == a.I, u.I == b.I), sym.Or(u.J == a.J, u.J == b.J)), "the union spans both and no more")
	sym.Reach("end")
}

// HMany: any set of positions, in either order, some of them outside.
func HMany() {
	i := 1 + sym.Choose("i", 2)
	j := i + sym.Param(6, 7)
	var at []int
	want := []int{i}
	for k := 0; k <= j+1; k++ {
		if i < k && k < j {
			if !sym.ConcBool(sym.Bool("cut")) {
				continue
			}
			want = append(want, k)
		}
		at = append(at, k)
	}
	want = append(want, j)
	if sym.Choose("down", 2) == 1 {
		for a, b := 0, len(at)-1; a < b; a, b = a+1, b-1 {
			at[a], at[b] = at[b], at[a]
		}
	}
	parts := rng.Range(i, j).Split(clone(at))
	if len(want) == 2 {
		sym.Assert(len(parts) == 0, "no position inside: nothing is split")
		return
	}
	sym.Assert(len(parts) == len(want)-1, "one part more than there are positions inside")
	for k, p := range parts {
		sym.Assert(p.I == want[k] && p.J == want[k+1], "parts run from one position to the next")
	}
	id := iter.NewIgen()
	h := mk(id, lib.Wave, i, j)
	got := split.AtIndex(id, &h, clone(at), common.Geometry)
	sym.Assert(len(got) == len(want)-1, "one part more than there are positions inside")
	for k := range got {
		sym.Assert(got[k].Range.I == want[k] && got[k].Range.J == want[k+1], "parts run from one position to the next")
		sound(&got[k], "many")
	}
	sym.Reach("end")
}
