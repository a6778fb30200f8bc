package h

import (
	"sort"

	"github.com/TopoSimplify/plugin/common"
	"github.com/TopoSimplify/plugin/constdp"
	"github.com/TopoSimplify/plugin/geometry"
	"github.com/TopoSimplify/plugin/hdb"
	"github.com/TopoSimplify/plugin/node"
	"github.com/TopoSimplify/plugin/opts"
	"github.com/TopoSimplify/plugin/rng"
	"github.com/TopoSimplify/plugin/zzverif/lib"
	"github.com/TopoSimplify/plugin/zzverif/sym"
	"github.com/intdxdt/iter"
)

type world struct {
	n     int
	id    *iter.Igen
	db    *hdb.Hdb
	dp    *constdp.ConstDP
	o     *lib.Oracle
	first map[[2]int]int // the fragments at the start, with their ids
	ends  map[int]bool
	ok    map[[2]int]bool // what validation has answered
}

func build(ps []lib.Pt, cut []bool, thr float64, squared bool, hi int) *world {
	n := len(ps)
	w := &world{n: n, id: iter.NewIgen(), db: hdb.NewHdb(), o: lib.NewOracle("", n, hi),
		first: map[[2]int]int{}, ends: map[int]bool{}, ok: map[[2]int]bool{}}
	pln := lib.Line("0", ps)
	if squared {
		w.dp = constdp.NewConstDP(w.id.Next(), pln, nil, &opts.Opts{Threshold: thr}, w.o.Fn, w.o.SqFn)
	} else {
		w.dp = constdp.NewConstDP(w.id.Next(), pln, nil, &opts.Opts{Threshold: thr}, w.o.Fn)
	}
	var frags []node.Node
	at := 0
	for j := 1; j < n; j++ {
		if j == n-1 || cut[j] {
			r := rng.Range(at, j)
			f := node.CreateNode(w.id, pln.SubCoordinates(r), r, common.Geometry, w.dp)
			w.first[[2]int{at, j}] = f.Id
			w.ends[at], w.ends[j] = true, true
			frags = append(frags, f)
			at = j
		}
	}
	w.db.Load(frags)
	return w
}

// spans lists what the database holds, in order.
func spans(db *hdb.Hdb) []*node.Node {
	ns := db.All()
	sort.Slice(ns, func(i, j int) bool { return ns[i].Range.I < ns[j].Range.I })
	return ns
}

// run merges, checking each validation request, and then the outcome.
func (w *world) run(protected []int, thr float64, valid func(i, j int) bool) {
	prot := map[int]bool{}
	for _, v := range protected {
		prot[v] = true
	}
	w.dp.AggregateSimpleSegments(w.id, w.db, protected, func(h *node.Node, db *hdb.Hdb) bool {
		// the stretch asked about replaces stretches that are out of the way
		e := 0
		for _, x := range append(spans(db), nil) {
			if e == h.Range.I {
				e = h.Range.J
			}
			if x == nil {
				break
			}
			sym.Assert(x.Range.I == e, "a merge is validated against all the other stretches, and only them")
			e = x.Range.J
			if e == h.Range.I {
				e = h.Range.J
			}
		}
		sym.Assert(e == w.n-1, "a merge is validated against all the other stretches, and only them (end)")
		k := [2]int{h.Range.I, h.Range.J}
		v := valid(k[0], k[1])
		w.ok[k] = v
		return v
	})
	e := 0
	for _, x := range spans(w.db) {
		i, j := x.Range.I, x.Range.J
		sym.Assert(i == e && j > i, "the stretches tile the line")
		e = j
		c := x.Coordinates()
		sym.Assert(c.Len() == j-i+1, "a stretch carries as many vertices as it spans")
		for k := 0; k < c.Len(); k++ {
			sym.Assert(c.Pt(k)[2] == float64(i+k), "a stretch carries its own vertices in order")
		}
		if id, old := w.first[[2]int{i, j}]; old {
			sym.Assert(x.Id == id, "what is not merged is left as it was")
			continue
		}
		sym.Assert(w.ends[i] && w.ends[j], "a merged stretch is a union of fragments")
		sym.Assert(w.ok[[2]int{i, j}], "a merged stretch was found valid")
		sym.Assert(sym.FLe(w.o.At(i, j), thr), "a merged stretch is within the threshold")
		for k := i + 1; k < j; k++ {
			sym.Assert(!(prot[k] && w.ends[k]), "no protected vertex is merged away")
		}
	}
	sym.Assert(e == w.n-1, "the stretches reach the end of the line")
}

// HMerge: every tiling, protected set, score table and outcome of validation.
func HMerge() {
	n := sym.Param(5, 6)
	squared := sym.ConcBool(sym.Bool("squared"))
	cut := make([]bool, n)
	var protected []int
	for i := 1; i < n-1; i++ {
		cut[i] = sym.ConcBool(sym.Bool("cut"))
	}
	for i := 0; i < n; i++ {
		if sym.ConcBool(sym.Bool("protected")) {
			protected = append(protected, i)
		}
	}
	w := build(lib.Zig(n), cut, 1, squared, 2)
	w.run(protected, 1, func(i, j int) bool { return sym.ConcBool(sym.Bool("valid")) })
	sym.Reach("end")
}

// HLong: a longer line all in single segments, with few protected vertices.
func HLong() {
	n := sym.Param(8, 10)
	cut := make([]bool, n)
	for i := range cut {
		cut[i] = true
	}
	p, q := sym.Choose("p", n), sym.Choose("q", n)
	if p > q {
		p, q = q, p
	}
	thr := sym.Grid("thr", 0, 2)
	w := build(lib.Zig(n), cut, thr, false, 2)
	w.run([]int{p, q}, thr, func(i, j int) bool { return true })
	sym.Reach("end")
}

// HFree: nothing stands in the way.
func HFree() {
	n := sym.Param(9, 11)
	cut := make([]bool, n)
	some := false
	for i := 1; i < n-1; i++ {
		cut[i] = sym.ConcBool(sym.Bool("cut"))
		some = some || cut[i]
	}
	w := build(lib.Zig(n), cut, 2, false, 2)
	w.run(nil, 2, func(i, j int) bool { return true })
	for _, x := range w.db.All() {
		sym.Assert(!some || x.Range.Size() > 1, "a lone segment is merged when nothing stands in the way")
	}
	sym.Reach("end")
}

var _ = geometry.CreatePolyline
